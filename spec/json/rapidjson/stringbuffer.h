#include <rapidjson/document.h>
