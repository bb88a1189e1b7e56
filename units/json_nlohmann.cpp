// C13, C14, nlohmann backend. Verified text: src/nlohmann_json_serializer.{cpp,h}, src/null_json_serializer.{cpp,h}.
#include <jenv.h>
#include "dap/typeof.h"
#include "dap/serialization.h"
#include "null_json_serializer.cpp"
#include "nlohmann_json_serializer.cpp"
typedef dap::json::NlohmannDeserializer DES;
typedef dap::json::NlohmannSerializer SER;
typedef nlohmann::json JSON;
#define MAY_BE_BAD true
#define DES_OF(d, v) DES d(static_cast<const JSON*>(static_cast<const JV*>(v)))
#define SER_OF(s, v) SER s(static_cast<JSON*>(v))
#define NODE(d) static_cast<const JV*>((d)->json)
#define SNODE(s) static_cast<JV*>((s)->json)
#include "json_harness.h"
