#include <json/json.h>
