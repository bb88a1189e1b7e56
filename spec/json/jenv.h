// Environment of the JSON units (C13, C14): std::string, std::unordered_map and std::vector at the
// level of abstraction these units need, and the JSON value contract all backends' libraries share.
//  * a string is its identity (equal strings have equal identity); a pointer into it stands for its
//    characters: read with a length it is the string, read without it ends at the first NUL
//  * a map or vector of any size: what is stored and visited is recorded in ghost state
//  * a JSON value is its kind and scalar; a container is its size, its children arbitrary values
#ifndef IRV_JENV_H
#define IRV_JENV_H
#define IRV_STRING
#define IRV_UMAP
#define IRV_VECTOR
#include <spec.h>
#include <string.h>
#include <utility>
#include <initializer_list>
#include <new>
#include <type_traits>
extern "C" {
unsigned long __uf_slen(unsigned long);
bool __uf_hasnul(unsigned long);
unsigned long __uf_cut(unsigned long);              // up to the first NUL
unsigned long __uf_part(unsigned long, unsigned long);
unsigned long __uf_cat(unsigned long, unsigned long);
double __uf_dummy(double);
}
namespace std {
class string {
 public:
  unsigned long __id; unsigned long __pad[3];
  typedef char value_type; typedef unsigned long size_type;
  static const size_type npos = static_cast<size_type>(-1);
  string() : __id(0) {}
  string(const string& o) : __id(o.__id) {}
  string(string&& o) : __id(o.__id) { o.__id = __spec_nondet_u64(); }
  string(const char* p) { unsigned long x = *reinterpret_cast<const unsigned long*>(p); if (__uf_hasnul(x)) { __id = __uf_cut(x); __spec_assume(__id != x); } else __id = x; }
  string(const char* p, size_type n) { unsigned long x = *reinterpret_cast<const unsigned long*>(p); __id = n == __uf_slen(x) ? x : __uf_part(x, n); __spec_assume(n == __uf_slen(x) || __id != x); }
  string& operator=(const string& o) { __id = o.__id; return *this; }
  string& operator=(string&& o) { if (this != &o) { __id = o.__id; o.__id = __spec_nondet_u64(); } return *this; }
  string& operator=(const char* p) { string t(p); __id = t.__id; return *this; }
  string& assign(const char* p, size_type n) { string t(p, n); __id = t.__id; return *this; }
  string& assign(const string& o) { __id = o.__id; return *this; }
  size_type size() const { return __uf_slen(__id); }
  size_type length() const { return __uf_slen(__id); }
  bool empty() const { return __uf_slen(__id) == 0; }
  const char* c_str() const { return reinterpret_cast<const char*>(&__id); }
  const char* data() const { return reinterpret_cast<const char*>(&__id); }
  const char* begin() const { return data(); }
  void swap(string& o) { unsigned long t = __id; __id = o.__id; o.__id = t; }
};
inline bool operator==(const string& a, const string& b) { return a.__id == b.__id; }
inline bool operator!=(const string& a, const string& b) { return a.__id != b.__id; }
inline string operator+(const string& a, const string& b) { string r; r.__id = __uf_cat(a.__id, b.__id); return r; }
inline string operator+(const char*, const string& b) { string r; r.__id = __spec_nondet_u64(); return r; }
inline string operator+(const string& a, const char*) { string r; r.__id = __spec_nondet_u64(); return r; }
template <class T> struct hash;
// ---- vectors ---------------------------------------------------------------------------------------
template <class T> class vector {
 public:
  T* __b; unsigned long __n; unsigned long __tag;
  typedef T value_type; typedef unsigned long size_type; typedef T* iterator; typedef const T* const_iterator;
  vector() : __b(nullptr), __n(0), __tag(0) {}
  vector(initializer_list<T> l) : __b(nullptr), __n(l.size()), __tag(0) {}
  void __room() { if (__b == nullptr) __b = static_cast<T*>(::operator new((1ul << 41) * sizeof(T))); }
  void resize(size_type n) { __spec_assert(n < (1ul << 41), "MEM.vector_size"); __room(); __n = n; }
  void reserve(size_type) {}
  void push_back(const T& v) { __room(); new (__b + __n) T(v); __n++; }
  void push_back(T&& v) { __room(); new (__b + __n) T(static_cast<T&&>(v)); __n++; }
  template <class... A> void emplace_back(A&&... a) { __room(); new (__b + __n) T(static_cast<A&&>(a)...); __n++; }
  T& back() { __spec_assert(__n > 0, "MEM.vector_index"); return __b[__n - 1]; }
  T& front() { return (*this)[0]; }
  void clear() { __n = 0; }
  size_type size() const { return __n; }
  bool empty() const { return __n == 0; }
  T& operator[](size_type i) { __spec_assert(i < __n, "MEM.vector_index"); return __b[i]; }
  const T& operator[](size_type i) const { __spec_assert(i < __n, "MEM.vector_index"); return __b[i]; }
  T& at(size_type i) { return (*this)[i]; }
  const T& at(size_type i) const { return (*this)[i]; }
  iterator begin() { return __b; }
  iterator end() { return __b + __n; }
  const_iterator begin() const { return __b; }
  const_iterator end() const { return __b + __n; }
  const_iterator cbegin() const { return __b; }
  const_iterator cend() const { return __b + __n; }
  T* data() { return __b; }
  const T* data() const { return __b; }
};
}
// ---- maps: dap::object -------------------------------------------------------------------------------
namespace dap { class any; }
extern "C" unsigned long __uf_okey(unsigned long, unsigned long);
extern "C" { unsigned long g_slot_count; unsigned long __uf_oidx(unsigned long, unsigned long); }
dap::any* map_slot(const void* map, unsigned long key);                       // operator[]
void map_put(const void* map, unsigned long key, const dap::any* v);          // insert/emplace
void map_entry(unsigned long oid, unsigned long i, void* pair_);              // the i'th entry
namespace std {
template <class K, class V, class H = int> class unordered_map {
 public:
  typedef K key_type; typedef V mapped_type; typedef unsigned long size_type;
  struct value_type { K first; V second; };
  unsigned long __oid, __n; unsigned long __pad[5];
  struct const_iterator {
    unsigned long oid, i;
    const value_type& operator*() const { value_type* e = static_cast<value_type*>(::operator new(sizeof(value_type))); map_entry(oid, i, e); return *e; }
    const value_type* operator->() const { return &**this; }
    const_iterator& operator++() { i++; return *this; }
    const_iterator operator++(int) { const_iterator t = *this; i++; return t; }
    bool operator==(const const_iterator& o) const { return i == o.i; }
    bool operator!=(const const_iterator& o) const { return i != o.i; }
  };
  typedef const_iterator iterator;
  unordered_map() : __oid(0), __n(0) {}
  void reserve(size_type) {}
  void clear() { __n = 0; }
  size_type size() const { return __n; }
  bool empty() const { return __n == 0; }
  const_iterator begin() const { const_iterator r; r.oid = __oid; r.i = 0; return r; }
  const_iterator end() const { const_iterator r; r.oid = __oid; r.i = __n; return r; }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  V& operator[](const K& k) { return *map_slot(this, k.__id); }
  template <class A, class B> void emplace(A&& k, B&& v) { K kk(static_cast<A&&>(k)); V vv(static_cast<B&&>(v)); map_put(this, kk.__id, &vv); }
  template <class P> void insert(const P& p) { K kk(p.first); V vv(p.second); map_put(this, kk.__id, &vv); }
};
}
// ---- JSON values -------------------------------------------------------------------------------------
enum { JNull, JBool, JInt, JUint, JFloat, JStr, JObj, JArr, JBad };
struct JV {
  unsigned kind; bool b; long i; unsigned long u; double d; unsigned long sid; unsigned long n;
  const JV* parent; unsigned long index, key;        // ghost: where in its container
  unsigned long gen;                                 // ghost: times replaced
  bool borrowed;                                     // ghost: refers to text it does not own
  bool look; unsigned long lkey; bool present; bool pre;   // ghost: the member last looked at, and whether there may be others
};
extern "C" { JV g_child; }                                   // the child most recently looked at
static const JV* g_dumped; static unsigned long g_dump_id; static bool g_dump_strict;   // text written
static unsigned long g_parsed;                                                          // text read
static bool g_may_be_bad;                            // the library has a value for failed parses
extern "C" { unsigned long g_n; }                            // elements visited so far
static const JV* g_watch;                            // a container being filled: not emptied again
inline void jv_reset(JV* v, unsigned kind) {
  v->borrowed = false;
  __spec_assert((v != g_watch) | (g_n == 0), "C14.elements_kept");
  v->kind = kind; v->n = 0; v->look = false; v->present = false; v->pre = false; v->gen++; }
inline void jv_arbitrary(JV* v) {
  v->kind = __spec_nondet_u32(); __spec_assume(v->kind <= (g_may_be_bad ? JBad : JArr));
  v->b = __spec_nondet_bool(); v->i = __spec_nondet_i64(); v->u = __spec_nondet_u64(); v->d = __spec_nondet_double(); v->sid = __spec_nondet_u64();
  v->n = __spec_nondet_u64(); __spec_assume(v->n < (1ul << 32) - 1);
  v->gen = 0; v->borrowed = false; v->look = false; v->present = false; v->pre = true; v->lkey = 0;
}
inline void jv_fresh(JV* v) { v->kind = JNull; v->b = false; v->i = 0; v->u = 0; v->d = 0; v->sid = 0; v->n = 0; v->parent = nullptr; v->index = 0; v->key = 0; v->gen = 0; v->borrowed = false; v->look = false; v->lkey = 0; v->present = false; v->pre = false; }
// the element or member at index i
inline JV* jv_at(const JV* p, unsigned long i) {
  __spec_assert((p->kind == JArr) | (p->kind == JObj), "MEM.json_kind");
  __spec_assert(i < p->n, "MEM.json_index");
  if (!((g_child.parent == p) & (g_child.index == i))) { jv_arbitrary(&g_child); g_child.parent = p; g_child.index = i; g_child.key = __spec_nondet_u64(); }
  return &g_child;
}
// is there a member k?
inline bool jv_has(JV* p, unsigned long k) {
  __spec_assert(p->kind == JObj, "MEM.json_kind");
  bool known = p->look & (p->lkey == k);
  if (!known) { p->look = true; p->lkey = k; p->present = p->pre ? (p->n > 0) & __spec_nondet_bool() : false; }
  if (p->present) {
    if (!(known & (g_child.parent == p) & (g_child.key == k))) { unsigned long i = __spec_nondet_u64(); __spec_assume(i < p->n); jv_arbitrary(&g_child); g_child.parent = p; g_child.index = i; g_child.key = k; }
  }
  return p->present;
}
inline JV* jv_get(JV* p, unsigned long k) { __spec_assert(jv_has(p, k), "MEM.json_member"); return &g_child; }
inline JV* jv_add(JV* p, unsigned long k) {      // k is not there yet
  p->look = true; p->lkey = k; p->present = true;
  unsigned long g = g_child.gen;
  jv_fresh(&g_child); g_child.parent = p; g_child.index = p->n; g_child.key = k; g_child.gen = 0; (void)g;
  p->n++;
  return &g_child;
}
inline JV* jv_member(JV* p, unsigned long k) { return jv_has(p, k) ? &g_child : jv_add(p, k); }
inline void jv_remove(JV* p, unsigned long k) { if (jv_has(p, k)) { p->present = false; p->n--; } }
inline JV* jv_push(JV* p) {
  __spec_assert(p->kind == JArr, "MEM.json_kind");
  jv_fresh(&g_child); g_child.parent = p; g_child.index = p->n; p->n++;
  return &g_child;
}
// the value part; position and generation stay
inline void jv_set(JV* t, const JV* o) { jv_reset(t, o->kind); t->b = o->b; t->i = o->i; t->u = o->u; t->d = o->d; t->sid = o->sid; t->borrowed = o->borrowed; t->n = o->n; t->pre = o->pre | (o->n > 0); }
extern "C" bool __uf_whole(double);
extern "C" long __uf_toint(double);
#endif
