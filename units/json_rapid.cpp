// C13, C14, rapidjson backend. Verified text: src/rapid_json_serializer.{cpp,h}, src/null_json_serializer.{cpp,h}.
#include <jenv.h>
#include "dap/typeof.h"
#include "dap/serialization.h"
#include "null_json_serializer.cpp"
#include "rapid_json_serializer.cpp"
typedef dap::json::RapidDeserializer DES;
typedef dap::json::RapidSerializer SER;
typedef rapidjson::Value JSON;
static rapidjson::Allocator g_alloc;
#define MAY_BE_BAD false
#define DES_OF(d, v) DES d(static_cast<JSON*>(v))
#define SER_OF(s, v) SER s(static_cast<JSON*>(v), g_alloc)
#define NODE(d) static_cast<const JV*>((d)->json())
#define SNODE(s) static_cast<JV*>((s)->json())
#include "json_harness.h"
