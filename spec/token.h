// A value type whose moved-from state is arbitrary: stands for any T that is only copied and moved.
#pragma once
struct Tok {
  unsigned long v;
  Tok() : v(0) {}
  Tok(unsigned long x) : v(x) {}
  Tok(const Tok& o) : v(o.v) {}
  Tok(Tok&& o) : v(o.v) { o.v = __spec_nondet_u64(); }
  Tok& operator=(const Tok& o) { v = o.v; return *this; }
  Tok& operator=(Tok&& o) { if (this != &o) { v = o.v; o.v = __spec_nondet_u64(); } return *this; }
};
inline bool operator==(const Tok& a, unsigned long b) { return a.v == b; }
