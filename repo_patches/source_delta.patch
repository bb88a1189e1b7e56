From 2f503149be9d4a98bb7d2e68ff0b10e6ead71b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:28 +0000
Subject: [PATCH 01/23] fix: ContentReader must not consume NUL bytes as header
 characters

strchr() finds the terminating NUL of its argument, so matchAny() consumed a
NUL byte of the stream: "Content-Length: 5\0\r\n\r\n" was accepted as a
well-formed header.
---
 src/content_stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..f814f85 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -133,6 +133,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would match the terminator of chars.
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From a98624e94f90e052e30086959a0b7c394420f446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:28 +0000
Subject: [PATCH 02/23] fix: ContentReader with kClose must close on a missing
 or zero length

A header without digits or with length zero was ignored, leaving the stream
open, where any other malformed header closes it.
---
 src/content_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index f814f85..863f2cb 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -71,7 +71,7 @@ std::string ContentReader::read() {
     len += size_t(c) - size_t('0');
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
-- 
2.43.0


From 95afdc3987e290841d88ad6eb4e2e3df51d40b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:28 +0000
Subject: [PATCH 03/23] fix: ContentReader must reject lengths that do not fit
 in size_t

The parsed length wrapped around, so "Content-Length: 18446744073709551621"
was taken as a message of 5 bytes.
---
 src/content_stream.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 863f2cb..71524c3 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -16,6 +16,7 @@
 
 #include "dap/io.h"
 
+#include <stdint.h>   // SIZE_MAX
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
 
@@ -62,15 +63,19 @@ std::string ContentReader::read() {
   }
   // Parse length
   size_t len = 0;
+  bool overflow = false;
   while (true) {
     auto c = matchAny("0123456789");
     if (c == 0) {
       break;
     }
-    len *= 10;
-    len += size_t(c) - size_t('0');
+    size_t digit = size_t(c) - size_t('0');
+    if (len > (SIZE_MAX - digit) / 10) {
+      overflow = true;
+    }
+    len = len * 10 + digit;
   }
-  if (len == 0) {
+  if (len == 0 || overflow) {
     return badHeader();
   }
 
-- 
2.43.0


From 81463861d27a988661b9fd8c9f84329324d994fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:23 +0000
Subject: [PATCH 04/23] fix: RLock/WLock move assignment must release the held
 lock

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 030c84fbd7be94042f2a582acead0408dd5c6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:02 +0000
Subject: [PATCH 05/23] fix: any must own its value across moves and self
 assignment

---
 include/dap/any.h | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..2ad331f 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -96,11 +96,14 @@ any::any(any&& other) noexcept : type(other.type) {
   if (other.isInBuffer(other.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, other.value);
+    other.reset();
   } else {
     value = other.value;
+    heap = other.heap;
+    other.value = nullptr;
+    other.heap = nullptr;
+    other.type = nullptr;
   }
-  other.value = nullptr;
-  other.type = nullptr;
 }
 
 void any::reset() {
@@ -113,6 +116,9 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.value != nullptr) {
@@ -123,16 +129,22 @@ any& any::operator=(const any& rhs) {
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.isInBuffer(rhs.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, rhs.value);
+    rhs.reset();
   } else {
     value = rhs.value;
+    heap = rhs.heap;
+    rhs.value = nullptr;
+    rhs.heap = nullptr;
+    rhs.type = nullptr;
   }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 23abb7e909fd50c098255f641b973e1533e72cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 06/23] fix: response errors must carry the whole received
 message

---
 src/session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..a97d092 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -468,7 +468,7 @@ class Impl : public dap::Session {
         handlers.error("Failed to deserialize message");
         return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 3c0bf6637acabaa8fe0bc05203badfb5da994501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 07/23] fix: a malformed response must still complete its
 request

---
 src/session.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index a97d092..a12469d 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -448,6 +448,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      auto error = dap::Error("Response missing 'success' field");
+      handler(nullptr, &error);
       return;
     }
 
@@ -466,7 +468,7 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
+        message = "Response missing 'message' field";
       }
       auto error = dap::Error(message);
       handler(nullptr, &error);
-- 
2.43.0


From cd0f42d6903c0e35ab1fe31a5cc483f5a7c8dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:34 +0000
Subject: [PATCH 08/23] fix: the error handler must only be used under its lock

---
 src/session.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/session.cpp b/src/session.cpp
index a12469d..781d90b 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -253,6 +253,7 @@ class Impl : public dap::Session {
     void errorfLocked(const char* format, ...) {
       va_list vararg;
       va_start(vararg, format);
+      std::unique_lock<std::mutex> lock(errorMutex);
       errorLocked(format, vararg);
       va_end(vararg);
     }
-- 
2.43.0


From 18e4c6fb786fac9dce167907683d6bff6d60e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:20 +0000
Subject: [PATCH 09/23] fix: request and event data must be freed when a
 payload is dropped

---
 src/session.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 781d90b..6bc84cf 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -289,6 +289,17 @@ class Impl : public dap::Session {
         responseSentMap;
   };  // EventHandlers
 
+  // construct() returns a new object of the given type. The object is destructed
+  // and freed with the last reference, whether or not its payload is executed.
+  static std::shared_ptr<uint8_t> construct(const dap::TypeInfo* typeinfo) {
+    auto data = new uint8_t[typeinfo->size()];
+    typeinfo->construct(data);
+    return std::shared_ptr<uint8_t>(data, [typeinfo](uint8_t* ptr) {
+      typeinfo->destruct(ptr);
+      delete[] ptr;
+    });
+  }
+
   Payload processMessage(const std::string& str) {
     auto d = dap::json::Deserializer(str);
     dap::string type;
@@ -333,21 +344,18 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
+          return typeinfo->deserialize(d, data.get());
         })) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -384,8 +392,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -405,13 +411,12 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
+      if (!typeinfo->deserialize(d, data.get())) {
         body_ok = false;
       }
       return true;
@@ -419,15 +424,11 @@ class Impl : public dap::Session {
 
     if (!body_ok) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
+      handler(data.get());
     };
   }
 
-- 
2.43.0


From 78016c9f1902bc7f2a671b86389f8c7aa327173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 10/23] fix: a listening socket that cannot be bound must not
 deadlock

The Socket constructor destroyed the shared state from within lock(), while
holding the reader lock that the destructor's close() waits for.
---
 src/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..1a44eae 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,22 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
       if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
         return;
       }
 
       if (listen(socket, 0) != 0) {
-        shared.reset();
         return;
       }
+
+      listening = true;
     });
+    // The state must not be destroyed while its lock is held.
+    if (!listening) {
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From aada3fe099ed0206282897e0748af824ae35760b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 11/23] fix: a socket write must send all of its bytes

::send() may accept only a part of the buffer, which was reported as success.
The casts to int also dropped the upper bits of sizes beyond 2 GB.
---
 src/socket.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 1a44eae..ca6075d 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -43,6 +43,14 @@ using SOCKET = int;
 
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
+
+// transferSize() returns the number of bytes to pass to a single recv() or
+// send() call, the length parameter of which is an int on some platforms.
+int transferSize(size_t bytes) {
+  constexpr size_t limit = 1 << 30;
+  return static_cast<int>(bytes < limit ? bytes : limit);
+}
+
 void init() {
 #if defined(_WIN32)
   if (wsaInitCount++ == 0) {
@@ -206,7 +214,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
       return 0;
     }
     auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+        recv(s, reinterpret_cast<char*>(buffer), transferSize(bytes), 0);
     return (len < 0) ? 0 : len;
   }
 
@@ -215,11 +223,16 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto sent = ::send(s, data, transferSize(bytes), 0);
+      if (sent <= 0) {
+        return false;
+      }
+      data += sent;
+      bytes -= static_cast<size_t>(sent);
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
-- 
2.43.0


From 13721a358358932956bb994eaa902ac61652ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 12/23] fix: a socket found to be broken must be closed

isOpen() forgot the descriptor of an errored socket without closing it.
---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index ca6075d..3a1e347 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -172,8 +172,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From b5e6dbc59d55533fd78ce559606e129b071ea2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:55 +0000
Subject: [PATCH 13/23] fix: connecting with a timeout must work for any
 descriptor

FD_SET() writes outside of the fd_set for descriptors of FD_SETSIZE and above,
and the timeout in microseconds overflowed for timeouts beyond 71 minutes.
---
 src/socket.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 3a1e347..4a82991 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -23,7 +23,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -325,16 +325,24 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
-      const auto microseconds = timeoutMillis * 1000;
-
+#if defined(_WIN32)
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
 
       timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
+      tv.tv_sec = timeoutMillis / 1000;
+      tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
+#else
+      constexpr uint32_t maxTimeout = 0x7fffffff;
+      pollfd pfd = {};
+      pfd.fd = socket;
+      pfd.events = POLLOUT;
+      res = poll(&pfd, 1,
+                 static_cast<int>(timeoutMillis < maxTimeout ? timeoutMillis
+                                                             : maxTimeout));
+#endif
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
       }
-- 
2.43.0


From 160b4ded98e1da43af3f06a855063a18a4c12b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:03 +0000
Subject: [PATCH 14/23] fix: the base fields of StackFrameFormat must be
 serialized

---
 src/protocol_types.cpp             | 19 ++++++++++---------
 tools/protocol_gen/protocol_gen.go | 13 +++++++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..db899e9 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,16 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(StackFrameFormat,
+                                  ValueFormat,
+                                  "",
+                                  DAP_FIELD(includeAll, "includeAll"),
+                                  DAP_FIELD(line, "line"),
+                                  DAP_FIELD(module, "module"),
+                                  DAP_FIELD(parameterNames, "parameterNames"),
+                                  DAP_FIELD(parameterTypes, "parameterTypes"),
+                                  DAP_FIELD(parameterValues, "parameterValues"),
+                                  DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..0d3b929 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,17 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	switch s.base {
+	case "", "Request", "Response", "Event":
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	default:
+		// The fields of the base structure have to be serialized too.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From 409df6a471c0a4093fbdc8e6abb512f13809eaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 15/23] fix: a connection that failed at once must not be taken
 for established

---
 src/socket.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 4a82991..c63fd25 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -20,6 +20,7 @@
 #include <winsock2.h>
 #include <ws2tcpip.h>
 #else
+#include <errno.h>
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
@@ -82,6 +83,16 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// connecting() returns true if the last, failed, non-blocking ::connect() is
+// still in progress.
+bool connecting() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -324,7 +335,7 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
+    } else if (connecting()) {
 #if defined(_WIN32)
       fd_set fdset;
       FD_ZERO(&fdset);
-- 
2.43.0


From 86a33fca252dbbe0b1d2a14e8ecc62db78425980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:12 +0000
Subject: [PATCH 16/23] fix: struct type infos must live as long as the library

---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..54f30be 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static auto typeinfo = TypeInfo::create<TI>();                          \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static auto typeinfo = TypeInfo::create<TI>();                        \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From eb49ec1dbce582f49a80c1ef66ac91d63ca93177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:12 +0000
Subject: [PATCH 17/23] fix: type infos may be registered from several threads
 at once

---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..3fcde90 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -68,6 +69,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
+  std::mutex typesMutex;  // guards types
 
  private:
   TypeInfos() = default;
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto infos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(infos->typesMutex);
+  infos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From ddcb5d436ce10a9483f9e6a1959c8a7b86c6d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 18/23] fix: only JSON objects decode as objects

Decoding a dap::object (or, with nlohmann, a struct) from a JSON value
that is not an object succeeded, and asserted in rapidjson, as did
counting the elements of a value that is not an array.
---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 5 ++++-
 src/rapid_json_serializer.cpp    | 5 ++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..613da3c 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -68,6 +68,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..2538b4f 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
@@ -132,7 +135,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..607a1db 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -75,6 +75,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -117,7 +120,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From b5f79e45287536f659b74ff33451c5ce48f720e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 19/23] fix: decode exactly the integers that fit dap::integer

Integers of 2^63 and above wrapped around to negative ones (nlohmann,
rapidjson), and dap::any refused integers beyond 32 bits (rapidjson).
---
 src/nlohmann_json_serializer.cpp |  9 ++++++++-
 src/rapid_json_serializer.cpp    | 21 ++++++---------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 2538b4f..3a5805f 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -49,6 +49,9 @@ bool NlohmannDeserializer::deserialize(dap::integer* v) const {
   if (!json->is_number_integer()) {
     return false;
   }
+  if (json->is_number_unsigned() && json->get<int64_t>() < 0) {
+    return false;  // does not fit
+  }
   *v = json->get<int64_t>();
   return true;
 }
@@ -91,7 +94,11 @@ bool NlohmannDeserializer::deserialize(dap::any* v) const {
   } else if (json->is_number_float()) {
     *v = dap::number(json->get<double>());
   } else if (json->is_number_integer()) {
-    *v = dap::integer(json->get<int64_t>());
+    dap::integer i;
+    if (!deserialize(&i)) {
+      return false;
+    }
+    *v = i;
   } else if (json->is_string()) {
     *v = json->get<std::string>();
   } else if (json->is_object()) {
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 607a1db..7ccb977 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -42,20 +42,11 @@ bool RapidDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::integer* v) const {
-  if (json()->IsInt()) {
-    *v = json()->GetInt();
-    return true;
-  } else if (json()->IsUint()) {
-    *v = static_cast<int64_t>(json()->GetUint());
-    return true;
-  } else if (json()->IsInt64()) {
-    *v = json()->GetInt64();
-    return true;
-  } else if (json()->IsUint64()) {
-    *v = static_cast<int64_t>(json()->GetUint64());
-    return true;
+  if (!json()->IsInt64()) {
+    return false;
   }
-  return false;
+  *v = json()->GetInt64();
+  return true;
 }
 
 bool RapidDeserializer::deserialize(dap::number* v) const {
@@ -95,8 +86,8 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
   } else if (json()->IsString()) {
     *v = dap::string(json()->GetString());
   } else if (json()->IsNull()) {
-- 
2.43.0


From e0ae1f838b4d1fa0f12c8e272a29cb931cb7c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 20/23] fix: rapidjson: strings and names may hold NUL
 characters

Strings, member names and documents were cut at the first NUL.
---
 src/rapid_json_serializer.cpp | 36 +++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 7ccb977..aa3d098 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,12 +19,21 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// stringRef() returns a rapidjson::Value that refers to the given string.
+rapidjson::Value stringRef(const std::string& str) {
+  return rapidjson::Value(rapidjson::StringRef(str.data(), str.size()));
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
@@ -61,7 +70,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  *v = dap::string(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -76,7 +85,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[dap::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -89,7 +99,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
   } else if (json()->IsInt64()) {
     *v = dap::integer(json()->GetInt64());
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -134,7 +144,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(stringRef(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -186,11 +196,12 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    if (!json()->HasMember(stringRef(it.first))) {
+      rapidjson::Value name_value{
+          it.first.data(), static_cast<rapidjson::SizeType>(it.first.size()), allocator};
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[stringRef(it.first)];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -254,15 +265,16 @@ bool RapidSerializer::object(
     FS(rapidjson::Value* json, rapidjson::Document::AllocatorType& allocator)
         : json(json), allocator(allocator) {}
     bool field(const std::string& name, const SerializeFunc& cb) override {
-      if (!json->HasMember(name.c_str())) {
-        rapidjson::Value name_value{name.c_str(), allocator};
+      if (!json->HasMember(stringRef(name))) {
+        rapidjson::Value name_value{
+            name.data(), static_cast<rapidjson::SizeType>(name.size()), allocator};
         json->AddMember(name_value, rapidjson::Value(), allocator);
       }
-      rapidjson::Value& member = (*json)[name.c_str()];
+      rapidjson::Value& member = (*json)[stringRef(name)];
       RapidSerializer s(&member, allocator);
       auto res = cb(&s);
       if (s.removed) {
-        json->RemoveMember(name.c_str());
+        json->RemoveMember(stringRef(name));
       }
       return res;
     }
-- 
2.43.0


From 3d8c794743b20eab661f7cf58fbacfc3bc4204b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 21/23] fix: the last value given to a Serializer is the one
 encoded

A null any left what the Serializer held before (with rapidjson, an
empty object), and objects, and with rapidjson also arrays and structs,
were merged with it.
---
 src/jsoncpp_json_serializer.cpp  |  5 ++---
 src/nlohmann_json_serializer.cpp |  5 ++---
 src/rapid_json_serializer.cpp    | 14 ++++----------
 3 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 613da3c..f856b78 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -197,9 +197,7 @@ bool JsonCppSerializer::serialize(const dap::string& v) {
 }
 
 bool JsonCppSerializer::serialize(const dap::object& v) {
-  if (!json->isObject()) {
-    *json = Json::Value(Json::objectValue);
-  }
+  *json = Json::Value(Json::objectValue);
   for (auto& it : v) {
     JsonCppSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -222,6 +220,7 @@ bool JsonCppSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = Json::Value();
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 3a5805f..439b94b 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -191,9 +191,7 @@ bool NlohmannSerializer::serialize(const dap::string& v) {
 }
 
 bool NlohmannSerializer::serialize(const dap::object& v) {
-  if (!json->is_object()) {
-    *json = nlohmann::json::object();
-  }
+  *json = nlohmann::json::object();
   for (auto& it : v) {
     NlohmannSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -216,6 +214,7 @@ bool NlohmannSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = nullptr;
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index aa3d098..930d3b9 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -192,9 +192,7 @@ bool RapidSerializer::serialize(const dap::string& v) {
 }
 
 bool RapidSerializer::serialize(const dap::object& v) {
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   for (auto& it : v) {
     if (!json()->HasMember(stringRef(it.first))) {
       rapidjson::Value name_value{
@@ -224,6 +222,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
@@ -239,10 +238,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
 
 bool RapidSerializer::array(size_t count,
                             const std::function<bool(dap::Serializer*)>& cb) {
-  if (!json()->IsArray()) {
-    json()->SetArray();
-  }
-
+  json()->SetArray();
   while (count > json()->Size()) {
     json()->PushBack(rapidjson::Value(), allocator);
   }
@@ -280,9 +276,7 @@ bool RapidSerializer::object(
     }
   };
 
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   FS fs{json(), allocator};
   return cb(&fs);
 }
-- 
2.43.0


From b116700faada6e4f83e17badf6b10a6583e2ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 22/23] fix: nlohmann: strings that are not UTF-8 aborted the
 process

Without exceptions, dump() aborts on invalid UTF-8. Have it write
U+FFFD instead.
---
 src/nlohmann_json_serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 439b94b..ac26b28 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -167,7 +167,9 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // A string that is not valid UTF-8 must not abort the process.
+  return json->dump(-1, ' ', false,
+                    nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From 92c670323287811d8c5c64c2368c34dd593da518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 23/23] fix: jsoncpp: text that is not JSON aborted the process

A peer could end the process by sending malformed JSON, or (through an
exception) JSON nested too deeply.
---
 src/jsoncpp_json_serializer.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index f856b78..691fa5b 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,6 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
 #include <memory>
 
 namespace dap {
@@ -151,11 +150,21 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  // Text that cannot be parsed gives a null value.
+  // cppdap expects that the JSON layer does not throw exceptions: jsoncpp does
+  // so for text that is nested too deeply.
+#if JSON_USE_EXCEPTION
+  try {
+#endif
+    if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                           &error)) {
+      return Json::Value();
+    }
+#if JSON_USE_EXCEPTION
+  } catch (const Json::Exception&) {
+    return Json::Value();
   }
+#endif
   return json;
 }
 
-- 
2.43.0

