// Contract of rapidjson: an accessor for another kind, a missing member or an index out of range asserts.
#ifndef IRV_RAPID
#define IRV_RAPID
#include <jenv.h>
namespace rapidjson {
typedef unsigned SizeType;
enum Type { kNullType, kFalseType, kTrueType, kObjectType, kArrayType, kStringType, kNumberType };
enum ParseFlag { kParseNoFlags = 0, kParseDefaultFlags = 0, kParseFullPrecisionFlag = 16 };
struct Allocator { int unused; };
struct StringRefType { unsigned long id; };
inline StringRefType StringRef(const char* p) { std::string s(p); StringRefType r; r.id = s.__id; return r; }
inline StringRefType StringRef(const char* p, unsigned long n) { std::string s(p, n); StringRefType r; r.id = s.__id; return r; }
class Value;
struct Member { Value& name; Value& value; Member(Value& a, Value& b) : name(a), value(b) {} };
extern "C" { JV g_cname; }
class Value : public JV {
 public:
  typedef Allocator AllocatorType;
  Value() { jv_fresh(this); }
  explicit Value(Type t) { jv_fresh(this); kind = t == kNullType ? JNull : t == kObjectType ? JObj : t == kArrayType ? JArr : t == kStringType ? JStr : t == kNumberType ? JInt : JBool; b = t == kTrueType; }
  explicit Value(bool v) { jv_fresh(this); kind = JBool; b = v; }
  explicit Value(int v) { jv_fresh(this); kind = JInt; i = v; }
  explicit Value(unsigned v) { jv_fresh(this); kind = JInt; i = v; }
  explicit Value(long v) { jv_fresh(this); kind = JInt; i = v; }
  explicit Value(unsigned long v) { jv_fresh(this); kind = JUint; u = v; }
  explicit Value(double v) { jv_fresh(this); kind = JFloat; d = v; }
  explicit Value(StringRefType r) { jv_fresh(this); kind = JStr; sid = r.id; borrowed = true; }
  Value(const char* p, SizeType n) { jv_fresh(this); kind = JStr; std::string s(p, n); sid = s.__id; borrowed = true; }
  Value(const char* p, SizeType n, Allocator&) { jv_fresh(this); kind = JStr; std::string s(p, n); sid = s.__id; }
  Value(const char* p, Allocator&) { jv_fresh(this); kind = JStr; std::string s(p); sid = s.__id; }
  Value(const std::string& p, Allocator&) { jv_fresh(this); kind = JStr; sid = p.__id; }
  Value(const Value& o, Allocator&, bool copy = false) : JV(o) { if (copy) borrowed = false; }
  Value(Value&& o) : JV(o) { o.kind = JNull; }
  Value(const Value&) = delete;
  Value& operator=(Value& o) { jv_set(this, &o); jv_reset(&o, JNull); return *this; }
  Value& operator=(Value&& o) { return *this = o; }
  template <class T> Value& operator=(T v) { Value t(v); jv_set(this, &t); return *this; }
  Value& CopyFrom(const Value& o, Allocator&) { jv_set(this, &o); return *this; }
  Type GetType() const { switch (kind) { case JNull: return kNullType; case JBool: return b ? kTrueType : kFalseType; case JStr: return kStringType; case JObj: return kObjectType; case JArr: return kArrayType; default: return kNumberType; } }
  bool IsNull() const { return kind == JNull; }
  bool IsBool() const { return kind == JBool; }
  bool IsTrue() const { return (kind == JBool) & b; }
  bool IsFalse() const { return (kind == JBool) & !b; }
  bool IsObject() const { return kind == JObj; }
  bool IsArray() const { return kind == JArr; }
  bool IsString() const { return kind == JStr; }
  bool IsNumber() const { return (kind == JInt) | (kind == JUint) | (kind == JFloat); }
  bool IsDouble() const { return kind == JFloat; }
  bool IsInt64() const { return (kind == JInt) | ((kind == JUint) & (u <= 0x7fffffffffffffffUL)); }
  bool IsUint64() const { return (kind == JUint) | ((kind == JInt) & (i >= 0)); }
  bool IsInt() const { return ((kind == JInt) & (i >= -2147483648L) & (i <= 2147483647L)) | ((kind == JUint) & (u <= 2147483647UL)); }
  bool IsUint() const { return ((kind == JInt) & (i >= 0) & (i <= 4294967295L)) | ((kind == JUint) & (u <= 4294967295UL)); }
  bool GetBool() const { __spec_assert(IsBool(), "MEM.json_kind"); return b; }
  long GetInt64() const { __spec_assert(IsInt64(), "MEM.json_kind"); return kind == JInt ? i : static_cast<long>(u); }
  unsigned long GetUint64() const { __spec_assert(IsUint64(), "MEM.json_kind"); return kind == JInt ? static_cast<unsigned long>(i) : u; }
  int GetInt() const { __spec_assert(IsInt(), "MEM.json_kind"); return static_cast<int>(kind == JInt ? i : static_cast<long>(u)); }
  unsigned GetUint() const { __spec_assert(IsUint(), "MEM.json_kind"); return static_cast<unsigned>(kind == JInt ? static_cast<unsigned long>(i) : u); }
  double GetDouble() const { __spec_assert(IsNumber(), "MEM.json_kind"); if (kind == JFloat) return d; if (kind == JInt) return static_cast<double>(i); return static_cast<double>(u); }
  float GetFloat() const { return static_cast<float>(GetDouble()); }
  const char* GetString() const { __spec_assert(IsString(), "MEM.json_kind"); return reinterpret_cast<const char*>(&sid); }
  SizeType GetStringLength() const { __spec_assert(IsString(), "MEM.json_kind"); __spec_assume(__uf_slen(sid) < (1ul << 32)); return static_cast<SizeType>(__uf_slen(sid)); }
  Value& SetNull() { jv_reset(this, JNull); return *this; }
  Value& SetBool(bool v) { jv_reset(this, JBool); b = v; return *this; }
  Value& SetInt(int v) { jv_reset(this, JInt); i = v; return *this; }
  Value& SetUint(unsigned v) { jv_reset(this, JInt); i = v; return *this; }
  Value& SetInt64(long v) { jv_reset(this, JInt); i = v; return *this; }
  Value& SetUint64(unsigned long v) { jv_reset(this, JUint); u = v; return *this; }
  Value& SetDouble(double v) { jv_reset(this, JFloat); d = v; return *this; }
  Value& SetFloat(float v) { jv_reset(this, JFloat); d = v; return *this; }
  Value& SetString(const char* p, SizeType n) { std::string s(p, n); jv_reset(this, JStr); sid = s.__id; borrowed = true; return *this; }
  Value& SetString(StringRefType r) { jv_reset(this, JStr); sid = r.id; borrowed = true; return *this; }
  Value& SetString(const char* p, SizeType n, Allocator&) { std::string s(p, n); jv_reset(this, JStr); sid = s.__id; return *this; }
  Value& SetString(const char* p, Allocator&) { std::string s(p); jv_reset(this, JStr); sid = s.__id; return *this; }
  Value& SetString(const std::string& s, Allocator&) { jv_reset(this, JStr); sid = s.__id; return *this; }
  Value& SetObject() { jv_reset(this, JObj); return *this; }
  Value& SetArray() { jv_reset(this, JArr); return *this; }
  // arrays
  SizeType Size() const { __spec_assert(IsArray(), "MEM.json_kind"); return static_cast<SizeType>(n); }
  SizeType Capacity() const { return Size(); }
  bool Empty() const { return Size() == 0; }
  Value& Reserve(SizeType, Allocator&) { __spec_assert(IsArray(), "MEM.json_kind"); return *this; }
  Value& operator[](SizeType i) { __spec_assert(IsArray(), "MEM.json_kind"); return *static_cast<Value*>(jv_at(this, i)); }
  Value& operator[](int i) { return (*this)[static_cast<SizeType>(i)]; }
  Value& operator[](unsigned long i) { return (*this)[static_cast<SizeType>(i)]; }
  Value& PushBack(Value& v, Allocator&) { jv_set(jv_push(this), &v); return *this; }
  Value& PushBack(Value&& v, Allocator& a) { return PushBack(v, a); }
  void Clear() { jv_reset(this, kind); }
  struct ValueIterator {
    Value* p; unsigned long i;
    Value& operator*() const { return *static_cast<Value*>(jv_at(p, i)); }
    Value* operator->() const { return &**this; }
    operator Value*() const { return &**this; }
    ValueIterator& operator++() { i++; return *this; }
    ValueIterator operator++(int) { ValueIterator t = *this; i++; return t; }
    bool operator==(const ValueIterator& o) const { return i == o.i; }
    bool operator!=(const ValueIterator& o) const { return i != o.i; }
  };
  ValueIterator Begin() const { __spec_assert(IsArray(), "MEM.json_kind"); ValueIterator r; r.p = const_cast<Value*>(this); r.i = 0; return r; }
  ValueIterator End() const { __spec_assert(IsArray(), "MEM.json_kind"); ValueIterator r; r.p = const_cast<Value*>(this); r.i = n; return r; }
  struct Array { Value* v; ValueIterator begin() const { return v->Begin(); } ValueIterator end() const { return v->End(); } SizeType Size() const { return v->Size(); } Value& operator[](SizeType i) const { return (*v)[i]; } };
  Array GetArray() const { __spec_assert(IsArray(), "MEM.json_kind"); Array a; a.v = const_cast<Value*>(this); return a; }
  // objects
  SizeType MemberCount() const { __spec_assert(IsObject(), "MEM.json_kind"); return static_cast<SizeType>(n); }
  bool ObjectEmpty() const { return MemberCount() == 0; }
  struct MemberIterator {
    Value* p; unsigned long i;
    Member operator*() const { JV* c = jv_at(p, i); jv_fresh(&g_cname); g_cname.kind = JStr; g_cname.sid = c->key; return Member(*static_cast<Value*>(&g_cname), *static_cast<Value*>(c)); }
    struct Arrow { Member m; Member* operator->() { return &m; } };
    Arrow operator->() const { Arrow a = {**this}; return a; }
    MemberIterator& operator++() { i++; return *this; }
    MemberIterator operator++(int) { MemberIterator t = *this; i++; return t; }
    bool operator==(const MemberIterator& o) const { return i == o.i; }
    bool operator!=(const MemberIterator& o) const { return i != o.i; }
  };
  typedef MemberIterator ConstMemberIterator;
  MemberIterator MemberBegin() const { __spec_assert(IsObject(), "MEM.json_kind"); MemberIterator r; r.p = const_cast<Value*>(this); r.i = 0; return r; }
  MemberIterator MemberEnd() const { __spec_assert(IsObject(), "MEM.json_kind"); MemberIterator r; r.p = const_cast<Value*>(this); r.i = n; return r; }
  struct Object { Value* v; MemberIterator begin() const { return v->MemberBegin(); } MemberIterator end() const { return v->MemberEnd(); } SizeType MemberCount() const { return v->MemberCount(); } };
  Object GetObject() const { __spec_assert(IsObject(), "MEM.json_kind"); Object a; a.v = const_cast<Value*>(this); return a; }
  static unsigned long nm(const char* p) { std::string s(p); return s.__id; }
  static unsigned long nm(const std::string& s) { return s.__id; }
  static unsigned long nm(const Value& v) { __spec_assert(v.IsString(), "MEM.json_kind"); return v.sid; }
  static unsigned long nm(StringRefType r) { return r.id; }
  template <class N> bool HasMember(const N& k) const { return jv_has(const_cast<Value*>(this), nm(k)); }
  template <class N> MemberIterator FindMember(const N& k) const { MemberIterator r = MemberEnd(); if (jv_has(const_cast<Value*>(this), nm(k))) r.i = g_child.index; return r; }
  Value& operator[](const Value& k) { return *static_cast<Value*>(jv_get(this, nm(k))); }
  Value& operator[](const char* k) { return *static_cast<Value*>(jv_get(this, nm(k))); }
  Value& operator[](const std::string& k) { return *static_cast<Value*>(jv_get(this, nm(k))); }
  Value& AddMember(Value& k, Value& v, Allocator&) {
    __spec_assert(IsObject(), "MEM.json_kind");
    __spec_assert(k.IsString(), "MEM.json_kind");
    __spec_assert(!k.borrowed, "C14.names_owned");
    __spec_assert(!jv_has(this, k.sid), "C14.names_unique");
    jv_set(jv_add(this, k.sid), &v); return *this;
  }
  Value& AddMember(Value& k, Value&& v, Allocator& a) { return AddMember(k, v, a); }
  Value& AddMember(Value&& k, Value& v, Allocator& a) { return AddMember(k, v, a); }
  Value& AddMember(Value&& k, Value&& v, Allocator& a) { return AddMember(k, v, a); }
  template <class N> bool RemoveMember(const N& k) { bool h = jv_has(this, nm(k)); jv_remove(this, nm(k)); return h; }
  template <class N> bool EraseMember(const N& k) { return RemoveMember(k); }
  template <class W> bool Accept(W& w) const { return w.take(this); }
};
class Document : public Value {
  Allocator a;
 public:
  typedef Allocator AllocatorType;
  Document() {}
  explicit Document(Type t) : Value(t) {}
  Allocator& GetAllocator() { return a; }
  Document& Parse(const char* p) { std::string s(p); return took(s.__id); }
  Document& Parse(const char* p, unsigned long n) { std::string s(p, n); return took(s.__id); }
  Document& Parse(const std::string& s) { return took(s.__id); }
  template <unsigned F> Document& Parse(const char* p) { return Parse(p); }
  template <unsigned F> Document& Parse(const char* p, unsigned long n) { return Parse(p, n); }
  bool bad;
  Document& took(unsigned long id) { g_parsed = id; jv_arbitrary(this); bad = __spec_nondet_bool(); if (bad) kind = JNull; return *this; }
  bool HasParseError() const { return bad; }
};
// ---- text: control characters are escaped, so the text holds no NUL
struct StringBuffer {
  unsigned long id; bool full;
  StringBuffer() : id(0), full(false) {}
  const char* GetString() const { return reinterpret_cast<const char*>(&id); }
  unsigned long GetSize() const { return __uf_slen(id); }
  unsigned long GetLength() const { return __uf_slen(id); }
};
template <class B> struct Writer {
  B& b;
  explicit Writer(B& x) : b(x) {}
  bool take(const JV* v) { g_dumped = v; g_dump_strict = false; g_dump_id = __spec_nondet_u64(); __spec_assume(!__uf_hasnul(g_dump_id)); b.id = g_dump_id; return true; }
};
template <class B> struct PrettyWriter : Writer<B> { explicit PrettyWriter(B& x) : Writer<B>(x) {} };
}
#endif
