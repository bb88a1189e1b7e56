// Contract of nlohmann::json (compiled with JSON_NOEXCEPTION: an operation on the wrong kind aborts).
#ifndef IRV_NLOHMANN
#define IRV_NLOHMANN
#include <jenv.h>
#include <limits>
#include <algorithm>
#include <cmath>
#include <nlohmann/json_fwd.hpp>
namespace nlohmann {
class json : public JV {
 public:
  enum class value_t { null, object, array, string, boolean, number_integer, number_unsigned, number_float, binary, discarded };
  enum class error_handler_t { strict, replace, ignore };
  json() { jv_fresh(this); }
  json(std::nullptr_t) { jv_fresh(this); }
  json(bool v) { jv_fresh(this); kind = JBool; b = v; }
  json(int v) { jv_fresh(this); kind = JInt; i = v; }
  json(long v) { jv_fresh(this); kind = JInt; i = v; }
  json(unsigned v) { jv_fresh(this); kind = JUint; u = v; }
  json(unsigned long v) { jv_fresh(this); kind = JUint; u = v; }
  json(double v) { jv_fresh(this); kind = JFloat; d = v; }
  json(float v) { jv_fresh(this); kind = JFloat; d = v; }
  json(const std::string& v) { jv_fresh(this); kind = JStr; sid = v.__id; }
  json(const char* v) { std::string s(v); jv_fresh(this); kind = JStr; sid = s.__id; }
  template <class T> json(const std::vector<T>& v) { jv_fresh(this); kind = JArr; n = v.size(); }
  json(value_t t) { jv_fresh(this); kind = t == value_t::object ? JObj : t == value_t::array ? JArr : t == value_t::null ? JNull : JBad; }
  json(std::initializer_list<json> l, bool = true, value_t t = value_t::array) { jv_fresh(this); kind = t == value_t::object ? JObj : JArr; n = l.size(); }
  json(const json& o) : JV(o) {}
  json& operator=(const json& o) { jv_set(this, &o); return *this; }
  static json object() { json j; j.kind = JObj; return j; }
  static json array() { json j; j.kind = JArr; return j; }
  value_t type() const {
    switch (kind) { case JNull: return value_t::null; case JBool: return value_t::boolean; case JInt: return value_t::number_integer; case JUint: return value_t::number_unsigned;
      case JFloat: return value_t::number_float; case JStr: return value_t::string; case JObj: return value_t::object; case JArr: return value_t::array; default: return value_t::discarded; }
  }
  bool is_null() const { return kind == JNull; }
  bool is_boolean() const { return kind == JBool; }
  bool is_number() const { return (kind == JInt) | (kind == JUint) | (kind == JFloat); }
  bool is_number_integer() const { return (kind == JInt) | (kind == JUint); }
  bool is_number_unsigned() const { return kind == JUint; }
  bool is_number_float() const { return kind == JFloat; }
  bool is_string() const { return kind == JStr; }
  bool is_object() const { return kind == JObj; }
  bool is_array() const { return kind == JArr; }
  bool is_structured() const { return (kind == JObj) | (kind == JArr); }
  bool is_primitive() const { return !is_structured() & (kind != JBad); }
  bool is_discarded() const { return kind == JBad; }
  unsigned long size() const { return kind == JNull ? 0 : is_structured() ? n : 1; }
  bool empty() const { return size() == 0; }
  template <class T> T get() const { T t; get_to(t); return t; }
  template <class T> void get_to(T& t) const { read(&t); }
  void read(bool* t) const { __spec_assert(kind == JBool, "MEM.json_kind"); *t = b; }
  void read(long* t) const { __spec_assert(is_number() | (kind == JBool), "MEM.json_kind"); *t = kind == JInt ? i : kind == JUint ? static_cast<long>(u) : kind == JBool ? b : __uf_toint(d); }
  void read(unsigned long* t) const { __spec_assert(is_number() | (kind == JBool), "MEM.json_kind"); *t = kind == JInt ? static_cast<unsigned long>(i) : kind == JUint ? u : kind == JBool ? b : static_cast<unsigned long>(__uf_toint(d)); }
  void read(int* t) const { long l; read(&l); *t = static_cast<int>(l); }
  void read(unsigned* t) const { long l; read(&l); *t = static_cast<unsigned>(l); }
  void read(double* t) const { __spec_assert(is_number() | (kind == JBool), "MEM.json_kind"); if (kind == JFloat) *t = d; else if (kind == JInt) *t = static_cast<double>(i); else if (kind == JUint) *t = static_cast<double>(u); else *t = static_cast<double>(b); }
  void read(std::string* t) const { __spec_assert(kind == JStr, "MEM.json_kind"); t->__id = sid; }
  // iteration
  struct iterator {
    const json* p; unsigned long i;
    const json& operator*() const { return *static_cast<json*>(jv_at(p, i)); }
    const json* operator->() const { return &**this; }
    std::string key() const { std::string s; s.__id = jv_at(p, i)->key; return s; }
    const json& value() const { return **this; }
    iterator& operator++() { i++; return *this; }
    iterator operator++(int) { iterator t = *this; i++; return t; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  typedef iterator const_iterator;
  // a scalar is iterated as one element
  iterator begin() const { iterator r; r.p = this; r.i = 0; return r; }
  iterator end() const { iterator r; r.p = this; r.i = size(); return r; }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  struct item_iterator { iterator it; const iterator& operator*() const { return it; } item_iterator& operator++() { ++it; return *this; } bool operator!=(const item_iterator& o) const { return it != o.it; } };
  struct items_t { const json* p; item_iterator begin() const { item_iterator r; r.it = p->begin(); return r; } item_iterator end() const { item_iterator r; r.it = p->end(); return r; } };
  items_t items() const { items_t r; r.p = this; return r; }
  iterator find(const std::string& k) const {
    iterator r = end();
    if (kind == JObj) if (jv_has(const_cast<json*>(this), k.__id)) r.i = g_child.index;
    return r;
  }
  bool contains(const std::string& k) const { return kind == JObj && jv_has(const_cast<json*>(this), k.__id); }
  unsigned long count(const std::string& k) const { return contains(k); }
  const json& at(const std::string& k) const { return *static_cast<json*>(jv_get(const_cast<json*>(this), k.__id)); }
  const json& operator[](const std::string& k) const { return at(k); }
  json& at(const std::string& k) { return *static_cast<json*>(jv_get(this, k.__id)); }
  json& operator[](const std::string& k) { if (kind == JNull) jv_reset(this, JObj); return *static_cast<json*>(jv_member(this, k.__id)); }
  const json& operator[](unsigned long i) const { __spec_assert(kind == JArr, "MEM.json_kind"); return *static_cast<json*>(jv_at(this, i)); }
  const json& at(unsigned long i) const { return (*this)[i]; }
  json& at(unsigned long i) { __spec_assert(kind == JArr, "MEM.json_kind"); return *static_cast<json*>(jv_at(this, i)); }
  json& operator[](unsigned long i) {
    if (kind == JNull) jv_reset(this, JArr);
    __spec_assert(kind == JArr, "MEM.json_kind");
    if (i < n) return *static_cast<json*>(jv_at(this, i));
    n = i; return *static_cast<json*>(jv_push(this));
  }
  void push_back(const json& v) { if (kind == JNull) jv_reset(this, JArr); jv_set(jv_push(this), &v); }
  template <class... A> json& emplace_back(A&&... a) { if (kind == JNull) jv_reset(this, JArr); JV* c = jv_push(this); json v(static_cast<A&&>(a)...); jv_set(c, &v); return *static_cast<json*>(c); }
  json& back() { return *static_cast<json*>(jv_at(this, n - 1)); }
  unsigned long erase(const std::string& k) { bool h = jv_has(this, k.__id); jv_remove(this, k.__id); return h; }
  void clear() { jv_reset(this, kind); }
  // text
  std::string dump(int = -1, char = ' ', bool = false, error_handler_t e = error_handler_t::strict) const {
    g_dumped = this; g_dump_strict = e == error_handler_t::strict; g_dump_id = __spec_nondet_u64(); std::string s; s.__id = g_dump_id; return s;
  }
  static json parse(const std::string& s, std::nullptr_t = nullptr, bool exceptions = true, bool comments = false) {
    __spec_assert(!exceptions, "MEM.json_parse_may_abort");
    g_parsed = s.__id; json j; jv_arbitrary(&j); return j;
  }
};
}
#endif
