// C15: every protocol field is encoded and decoded under its own name, to and from its own storage.
// Verified text: src/protocol_*.cpp, src/typeof.cpp, src/typeinfo.cpp, include/dap/{protocol,typeof,typeinfo}.h.
// dap/serialization.h is replaced by recording (de)serializers: the contract of the interface the
// generated code talks to (struct Field is taken verbatim from the real header).
#include <spec.h>
#include <string>
#include <functional>
#include <initializer_list>
#include <type_traits>
#include <memory>
#include <vector>
#include <assert.h>
#define dap_serialization_h
#include "dap/types.h"
#include "dap/typeinfo.h"
#include "protocol_field.h"
// ---- what a type looks like --------------------------------------------------------------------
struct Ty;
struct Mem { const char* name; unsigned long off, size; const Ty* (*ty)(); };
struct Ty { const void* id; const char* name; unsigned n; const Mem* mem; bool is_struct; };
template <class T> struct Tag { static char c; };
template <class T> char Tag<T>::c;
#define TAG(T) &Tag<T>::c
template <class T> struct Of { static const Ty* ty() { static const Ty t = { TAG(T), "", 0, 0, false }; return &t; } };
// ---- the contract of the serialization interface -------------------------------------------------
static bool g_some_failed;   // some field was refused in the current encoding/decoding
static const Mem* find(const Ty* ty, const std::string& name, unsigned* next) {
  if (*next < ty->n && name == ty->mem[*next].name) return &ty->mem[(*next)++];
  for (unsigned i = 0; i < ty->n; i++)
    if (name == ty->mem[i].name) { *next = i + 1; return &ty->mem[i]; }
  return nullptr;
}
static unsigned bit_index(const Ty* ty, const Mem* m) { unsigned i = 0; while (&ty->mem[i] != m) i++; return i; }
struct Seen { unsigned n; unsigned char hit[64]; unsigned next;
  Seen() : n(0), next(0) { for (unsigned i = 0; i < 64; i++) hit[i] = 0; } };
static const Mem* see(const Ty* ty, Seen* s, const std::string& name, bool enc) {
  const Mem* m = find(ty, name, &s->next);
  __spec_assert(m != nullptr, enc ? "C15.encode.declared_names_only" : "C15.decode.declared_names_only");
  if (!m) __spec_assume(false);
  unsigned i = bit_index(ty, m);
  __spec_assert(!s->hit[i], enc ? "C15.encode.each_once" : "C15.decode.each_once");
  s->hit[i] = 1; s->n++;
  return m;
}
namespace dap {
class FieldSerializer;
// one JSON value being written; the contract wants it to come from the object of type ty at base
class Serializer {
 public:
  const Ty* ty; const char* base; unsigned done;
  template <class T> bool serialize(const T& v) {
    __spec_assert(static_cast<const void*>(&v) == base, "C15.encode.own_storage");
    __spec_assert(ty->id == TAG(T), "C15.encode.own_type");
    done++; return result();
  }
  bool object(const std::function<bool(FieldSerializer*)>& fn);
  static bool result() { if (__spec_choice()) { g_some_failed = true; return false; } return true; }
};
class FieldSerializer {
 public:
  const Ty* ty; const char* base; Seen seen;
  bool field(const std::string& name, const std::function<bool(Serializer*)>& fn) {
    const Mem* m = see(ty, &seen, name, true);
    Serializer s; s.ty = m->ty(); s.base = base + m->off; s.done = 0;
    bool r = fn(&s);
    __spec_assert(s.done == 1, "C15.encode.field_written_once");
    return r;
  }
};
inline bool Serializer::object(const std::function<bool(FieldSerializer*)>& fn) {
  __spec_assert(ty->is_struct, "C15.encode.own_type");
  FieldSerializer fs; fs.ty = ty; fs.base = base;
  bool r = fn(&fs);
  done++;
  if (r) __spec_assert(fs.seen.n == ty->n, "C15.encode.every_member");
  return r;
}
class Deserializer {
 public:
  const Ty* ty; char* base; mutable unsigned done; mutable Seen seen;
  template <class T> bool deserialize(T* v) const {
    __spec_assert(static_cast<void*>(v) == base, "C15.decode.own_storage");
    __spec_assert(ty->id == TAG(T), "C15.decode.own_type");
    done++; return Serializer::result();
  }
  bool field(const std::string& name, const std::function<bool(Deserializer*)>& fn) const {
    __spec_assert(ty->is_struct, "C15.decode.own_type");
    const Mem* m = see(ty, &seen, name, false);
    Deserializer d; d.ty = m->ty(); d.base = base + m->off; d.done = 0;
    bool r = fn(&d);
    if (d.ty->is_struct) { if (r) d.every(); } else __spec_assert(d.done == 1, "C15.decode.field_read_once");
    return r;
  }
  void every() const { __spec_assert(seen.n == ty->n, "C15.decode.every_member"); }
};
}
// ---- the real code -------------------------------------------------------------------------------
#include "typeof.cpp"
#include "typeinfo.cpp"
#include "dap/protocol.h"
#include "protocol_types.cpp"
#include "protocol_requests.cpp"
#include "protocol_response.cpp"
#include "protocol_events.cpp"
#include "protocol_table.h"
// user-declared types, with and without a base
namespace dap {
struct UserBase { integer a; optional<string> b; };
struct UserDerived : UserBase { boolean c; array<integer> d; };
struct UserEvent : Event { string text; integer n; };
DAP_STRUCT_TYPEINFO(UserBase, "userBase", DAP_FIELD(a, "a"), DAP_FIELD(b, "B"));
DAP_STRUCT_TYPEINFO_EXT(UserDerived, UserBase, "userDerived", DAP_FIELD(c, "c"), DAP_FIELD(d, "d"));
DAP_STRUCT_TYPEINFO(UserEvent, "user", DAP_FIELD(text, "text"), DAP_FIELD(n, "N"));
}
template <> struct Of<dap::UserBase> { typedef dap::UserBase T; static const Ty* ty() {
  static const Mem m[] = {{"a", __builtin_offsetof(T, a), sizeof(T::a), &Of<dap::integer>::ty}, {"B", __builtin_offsetof(T, b), sizeof(T::b), &Of<decltype(T::b)>::ty}};
  static const Ty t = { TAG(T), "userBase", 2, m, true }; return &t; } };
template <> struct Of<dap::UserDerived> { typedef dap::UserDerived T; static const Ty* ty() {
  static const Mem m[] = {{"a", __builtin_offsetof(T, a), sizeof(T::a), &Of<dap::integer>::ty}, {"B", __builtin_offsetof(T, b), sizeof(T::b), &Of<decltype(T::b)>::ty},
                          {"c", __builtin_offsetof(T, c), sizeof(T::c), &Of<dap::boolean>::ty}, {"d", __builtin_offsetof(T, d), sizeof(T::d), &Of<decltype(T::d)>::ty}};
  static const Ty t = { TAG(T), "userDerived", 4, m, true }; return &t; } };
template <> struct Of<dap::UserEvent> { typedef dap::UserEvent T; static const Ty* ty() {
  static const Mem m[] = {{"text", __builtin_offsetof(T, text), sizeof(T::text), &Of<dap::string>::ty}, {"N", __builtin_offsetof(T, n), sizeof(T::n), &Of<dap::integer>::ty}};
  static const Ty t = { TAG(T), "user", 2, m, true }; return &t; } };

template <class T> static void check() {
  const Ty* ty = Of<T>::ty();
  const dap::TypeInfo* ti = dap::TypeOf<T>::type();
  __spec_assert(ti->size() == sizeof(T), "C15.size");
  __spec_assert(ti->alignment() == alignof(T), "C15.alignment");
  __spec_assert(dap::TypeOf<T>::type() == ti, "C15.one_type_object");
  char* obj = static_cast<char*>(::operator new(sizeof(T)));   // arbitrary contents
  if (__spec_choice()) {
    dap::Serializer s; s.ty = ty; s.base = obj; s.done = 0;
    g_some_failed = false;
    bool r = ti->serialize(&s, obj);
    __spec_assert(s.done == 1, "C15.encode.one_object");
    __spec_assert(r == !g_some_failed, "C15.encode.result");
    __spec_cover(r ? "C15.encode.ok" : "C15.encode.fails");
  } else {
    dap::Deserializer d; d.ty = ty; d.base = obj; d.done = 0;
    g_some_failed = false;
    bool r = ti->deserialize(&d, obj);
    if (r) d.every();
    __spec_assert(r == !g_some_failed, "C15.decode.result");
    __spec_cover(r ? "C15.decode.ok" : "C15.decode.fails");
  }
}
#define CHECK(T) case __COUNTER__ - kBase: check<dap::T>(); break;
extern "C" {
#define BATCH(i) void harness_batch##i() { enum { kBase = __COUNTER__ + 1 }; switch (__spec_nondet_u32()) { PROTOCOL_BATCH_##i(CHECK) default:; } }
BATCH(0) BATCH(1) BATCH(2) BATCH(3) BATCH(4) BATCH(5) BATCH(6) BATCH(7) BATCH(8) BATCH(9) BATCH(10) BATCH(11)
void harness_user() {
  if (__spec_choice()) check<dap::UserBase>(); else if (__spec_choice()) check<dap::UserDerived>(); else check<dap::UserEvent>();
}
// requests and events are known by their own command or event name, and requests are paired with their response
#define NAMED(T, W) __spec_assert(dap::TypeOf<dap::T>::type()->name() == W, "C15.wire_name." #T);
#define PAIR(T, R) __spec_assert((std::is_same<dap::T::Response, dap::R>::value), "C15.paired." #T);
void harness_names() {
  PROTOCOL_NAMED(NAMED)
  PROTOCOL_PAIRS(PAIR)
  __spec_assert(dap::TypeOf<dap::UserEvent>::type()->name() == "user", "C15.wire_name.user");
  __spec_assert(dap::TypeOf<dap::UserDerived>::type()->name() == "userDerived", "C15.wire_name.user_derived");
}
}
