// Contract of jsoncpp. Built without exceptions here: what would throw or assert is a failed obligation.
#ifndef IRV_JSONCPP
#define IRV_JSONCPP
#include <jenv.h>
#define JSON_USE_EXCEPTION 0
namespace Json {
typedef long Int64; typedef unsigned long UInt64; typedef long LargestInt; typedef unsigned long LargestUInt; typedef int Int; typedef unsigned UInt; typedef unsigned ArrayIndex;
typedef std::string String;
enum ValueType { nullValue = 0, intValue, uintValue, realValue, stringValue, booleanValue, arrayValue, objectValue };
class Value : public JV {
 public:
  typedef Json::ArrayIndex ArrayIndex; typedef Json::Int64 Int64; typedef Json::UInt64 UInt64; typedef Json::LargestInt LargestInt;
  Value(ValueType t = nullValue) { jv_fresh(this); kind = t == nullValue ? JNull : t == intValue ? JInt : t == uintValue ? JUint : t == realValue ? JFloat : t == stringValue ? JStr : t == booleanValue ? JBool : t == arrayValue ? JArr : JObj; }
  Value(int v) { jv_fresh(this); kind = JInt; i = v; }
  Value(unsigned v) { jv_fresh(this); kind = JUint; u = v; }
  Value(long v) { jv_fresh(this); kind = JInt; i = v; }
  Value(unsigned long v) { jv_fresh(this); kind = JUint; u = v; }
  Value(double v) { jv_fresh(this); kind = JFloat; d = v; }
  Value(bool v) { jv_fresh(this); kind = JBool; b = v; }
  Value(std::nullptr_t) = delete;
  Value(const char* p) { std::string s(p); jv_fresh(this); kind = JStr; sid = s.__id; }
  Value(const char* p, const char* e) { std::string s(p, static_cast<unsigned long>(e - p)); jv_fresh(this); kind = JStr; sid = s.__id; }
  Value(const std::string& s) { jv_fresh(this); kind = JStr; sid = s.__id; }
  Value(const Value& o) : JV(o) {}
  Value& operator=(const Value& o) { jv_set(this, &o); return *this; }
  void swap(Value& o) { Value t(*this); jv_set(this, &o); jv_set(&o, &t); }
  ValueType type() const { switch (kind) { case JNull: return nullValue; case JInt: return intValue; case JUint: return uintValue; case JFloat: return realValue; case JStr: return stringValue; case JBool: return booleanValue; case JArr: return arrayValue; default: return objectValue; } }
  bool isNull() const { return kind == JNull; }
  bool isBool() const { return kind == JBool; }
  bool isInt64() const { return (kind == JInt) | ((kind == JUint) & (u <= 0x7fffffffffffffffUL)) | ((kind == JFloat) & __uf_whole(d)); }
  bool isUInt64() const { return (kind == JUint) | ((kind == JInt) & (i >= 0)) | ((kind == JFloat) & __uf_whole(d)); }
  bool isInt() const { return isInt64() && asInt64() >= -2147483648L && asInt64() <= 2147483647L; }
  bool isUInt() const { return isInt64() && asInt64() >= 0 && asInt64() <= 4294967295L; }
  bool isIntegral() const { return (kind == JInt) | (kind == JUint) | ((kind == JFloat) & __uf_whole(d)); }
  bool isDouble() const { return (kind == JInt) | (kind == JUint) | (kind == JFloat); }
  bool isNumeric() const { return isDouble(); }
  bool isString() const { return kind == JStr; }
  bool isArray() const { return kind == JArr; }
  bool isObject() const { return kind == JObj; }
  explicit operator bool() const { return kind != JNull; }
  bool asBool() const { __spec_assert((kind == JBool) | (kind == JNull) | isDouble(), "MEM.json_kind"); return kind == JBool ? b : kind == JInt ? i != 0 : kind == JUint ? u != 0 : kind == JNull ? false : __spec_nondet_bool(); }
  long asInt64() const { __spec_assert(isInt64() | (kind == JNull) | (kind == JBool) | (kind == JFloat), "MEM.json_kind"); return kind == JInt ? i : kind == JUint ? static_cast<long>(u) : kind == JFloat ? __uf_toint(d) : kind == JBool ? b : 0; }
  long asLargestInt() const { return asInt64(); }
  int asInt() const { __spec_assert(isInt(), "MEM.json_kind"); return static_cast<int>(asInt64()); }
  unsigned long asUInt64() const { __spec_assert(isUInt64(), "MEM.json_kind"); return kind == JInt ? static_cast<unsigned long>(i) : kind == JUint ? u : static_cast<unsigned long>(__uf_toint(d)); }
  double asDouble() const { __spec_assert(isDouble() | (kind == JNull) | (kind == JBool), "MEM.json_kind"); if (kind == JFloat) return d; if (kind == JInt) return static_cast<double>(i); if (kind == JUint) return static_cast<double>(u); return kind == JBool && b ? 1.0 : 0.0; }
  std::string asString() const { __spec_assert((kind != JObj) & (kind != JArr), "MEM.json_kind"); std::string s; s.__id = kind == JStr ? sid : __spec_nondet_u64(); return s; }
  bool getString(const char** p, const char** e) const { if (kind != JStr) return false; *p = reinterpret_cast<const char*>(&sid); *e = *p + __uf_slen(sid); return true; }
  unsigned size() const { return (kind == JObj) | (kind == JArr) ? static_cast<unsigned>(n) : 0; }
  bool empty() const { return size() == 0; }
  struct iterator {
    const Value* p; unsigned long i;
    Value& operator*() const { return *static_cast<Value*>(jv_at(p, i)); }
    Value* operator->() const { return &**this; }
    std::string name() const { std::string s; s.__id = jv_at(p, i)->key; return s; }
    Value key() const { Value v; if (p->kind == JArr) { v.kind = JUint; v.u = i; } else { v.kind = JStr; v.sid = jv_at(p, i)->key; } return v; }
    unsigned index() const { return static_cast<unsigned>(i); }
    iterator& operator++() { i++; return *this; }
    iterator operator++(int) { iterator t = *this; i++; return t; }
    bool operator==(const iterator& o) const { return i == o.i; }
    bool operator!=(const iterator& o) const { return i != o.i; }
  };
  typedef iterator const_iterator;
  iterator begin() const { iterator r; r.p = this; r.i = 0; return r; }
  iterator end() const { iterator r; r.p = this; r.i = size(); return r; }
  const Value* find(const char* b, const char* e) const {
    __spec_assert((kind == JNull) | (kind == JObj), "MEM.json_kind");
    if (kind == JNull) return nullptr;
    std::string s(b, static_cast<unsigned long>(e - b));
    return jv_has(const_cast<Value*>(this), s.__id) ? static_cast<Value*>(&g_child) : nullptr;
  }
  bool isMember(const std::string& k) const { __spec_assert((kind == JNull) | (kind == JObj), "MEM.json_kind"); return kind == JObj && jv_has(const_cast<Value*>(this), k.__id); }
  bool isMember(const char* k) const { return isMember(std::string(k)); }
  Value& operator[](const std::string& k) { __spec_assert((kind == JNull) | (kind == JObj), "MEM.json_kind"); if (kind == JNull) jv_reset(this, JObj); return *static_cast<Value*>(jv_member(this, k.__id)); }
  const Value& operator[](const std::string& k) const { if (isMember(k)) return *static_cast<Value*>(&g_child); return null(); }
  Value& operator[](const char* k) { return (*this)[std::string(k)]; }
  static const Value& null() { Value* v = new Value(); return *v; }
  Value& operator[](ArrayIndex i) {
    __spec_assert((kind == JNull) | (kind == JArr), "MEM.json_kind");
    if (kind == JNull) jv_reset(this, JArr);
    if (i < n) return *static_cast<Value*>(jv_at(this, i));
    n = i; return *static_cast<Value*>(jv_push(this));
  }
  Value& operator[](int i) { return (*this)[static_cast<ArrayIndex>(i)]; }
  const Value& operator[](ArrayIndex i) const { __spec_assert((kind == JNull) | (kind == JArr), "MEM.json_kind"); if (kind == JArr && i < n) return *static_cast<Value*>(jv_at(this, i)); return null(); }
  Value& append(const Value& v) { if (kind == JNull) jv_reset(this, JArr); JV* c = jv_push(this); jv_set(c, &v); return *static_cast<Value*>(c); }
  void resize(ArrayIndex m) { if (kind == JNull) jv_reset(this, JArr); __spec_assert(kind == JArr, "MEM.json_kind"); n = m; }
  void removeMember(const std::string& k) { __spec_assert((kind == JNull) | (kind == JObj), "MEM.json_kind"); if (kind == JObj) jv_remove(this, k.__id); }
  void removeMember(const char* k) { removeMember(std::string(k)); }
  void clear() { jv_reset(this, kind); }
};
struct CharReader {
  virtual ~CharReader() {}
  virtual bool parse(const char* b, const char* e, Value* root, std::string*) {
    std::string s(b, static_cast<unsigned long>(e - b)); g_parsed = s.__id;
    jv_arbitrary(root); return __spec_choice();
  }
};
struct Builder { Value settings_; Value& operator[](const std::string&) { return settings_; } Value& operator[](const char*) { return settings_; } };
struct CharReaderBuilder : Builder { CharReader* newCharReader() const { return new CharReader(); } };
struct StreamWriterBuilder : Builder {};
inline std::string writeString(const StreamWriterBuilder&, const Value& v) { g_dumped = &v; g_dump_strict = false; g_dump_id = __spec_nondet_u64(); std::string s; s.__id = g_dump_id; return s; }
}
#endif
