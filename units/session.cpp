// Contracts for the session (C09, C10, C11, C12, C22): session.cpp and the handler adaptors of
// dap/session.h, checked against the contracts of what they use:
//   JSON (de)serializer   a message is a set of named fields, each of some kind and value
//   ContentReader/Writer  whole messages in, whole messages out (C01-C04)
//   Chan                  FIFO (C06)
//   TypeInfo              abstract payload types of arbitrary size, every construct/destruct recorded
#define dap_content_stream_h
#define dap_chan_h
#define dap_json_serializer_h
#include <spec.h>
#include <string>
#include <memory>
#include "session_hooks.h"
#include "dap/any.h"
#include "dap/io.h"
#include "dap/optional.h"
#include "dap/typeof.h"
#include "dap/session.h"
#include "dap/typeinfo.h"
#include "session_env.h"
#include "../src/session.cpp"
#include "session_harness.h"
