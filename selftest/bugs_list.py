SE, SH, NW, SK = 'src/session.cpp', 'include/dap/session.h', 'src/network.cpp', 'src/socket.cpp'
NJ, RJ, JC, AN, VA, OP, FU, TO, SZ, TC = 'src/nlohmann_json_serializer.cpp', 'src/rapid_json_serializer.cpp', 'src/jsoncpp_json_serializer.cpp', 'include/dap/any.h', 'include/dap/variant.h', 'include/dap/optional.h', 'include/dap/future.h', 'include/dap/typeof.h', 'include/dap/serialization.h', 'src/typeof.cpp'
# content stream
R('cs-ws-none', 'C02', CS, ('matchAny(" \\t")', 'matchAny(" ")'))
R('cs-move-drops-buf', 'C02 C03', CS, ('  buf = std::move(rhs.buf);\n', ''))
R('cs-partial', 'C02', CS, ('  if (!buffer(len)) {\n    return "";\n  }\n  std::string out;\n  out.reserve(len);\n  for (size_t i = 0; i < len; i++) {', '  if (!buffer(len)) {\n    len = buf.size();\n  }\n  std::string out;\n  out.reserve(len);\n  for (size_t i = 0; i < len; i++) {'))
R('cs-chunk-drop', 'C02 C03', CS, ('    for (size_t i = 0; i < numGot; i++) {\n      buf.push_back(chunk[i]);\n    }\n    bytes -= numGot;', '    for (size_t i = 0; i < numGot; i++) {\n      buf.push_back(chunk[i]);\n    }\n    bytes -= numWant;'))
R('cs-buffer-abort-drops', 'C02', CS, ('    if (numGot == 0) {\n      return false;\n    }', '    if (numGot == 0) {\n      buf.clear();\n      return false;\n    }'))
R('cs-match-consumes', 'C02 C04', CS, ('  auto it = buf.begin();\n  for (size_t i = 0; i < len; i++, it++) {\n    if (*it != seq[i]) {\n      return false;\n    }\n  }\n  for (size_t i = 0; i < len; i++) {\n    buf.pop_front();\n  }\n  return true;', '  for (size_t i = 0; i < len; i++) {\n    if (buf.front() != seq[i]) {\n      return false;\n    }\n    buf.pop_front();\n  }\n  return true;'))
R('cs-nodigits-noclose', 'C04', CS, ('  if (len == 0 || overflow) {\n    return badHeader();\n  }', '  if (len == 0 || overflow) {\n    return "";\n  }'))
R('cs-writer-crlf', 'C01', CS, ('msg.size()', 'msg.length() - (msg.find(\'\\0\') == std::string::npos ? 0 : 1)'))
R('cs-max-len', 'C02', CS, ('  // Expect \\r\\n\\r\\n\n', '  if (len > 64 * 1024 * 1024) {\n    return badHeader();\n  }\n\n  // Expect \\r\\n\\r\\n\n'))
# pipe, io
R('pipe-close-noone', 'C05', IO, ('    closed = true;\n    cv.notify_all();', '    closed = true;\n    cv.notify_one();'))
R('pipe-write-notify-size', 'C05', IO, ('    auto notify = data.size() == 0;', '    auto notify = data.size() == 0 && bytes > 1;'))
R('pipe-read-drain', 'C05', IO, ('      if (closed) {\n        return n;\n      }\n      for (;', '      if (closed && data.size() == 0) {\n        return n;\n      }\n      for (;'))
R('pipe-isopen-empty', 'C05', IO, ('    return !closed;\n  }\n\n  void close() override {\n    std::unique', '    return !closed || data.size() > 0;\n  }\n\n  void close() override {\n    std::unique'))
R('io-rw-open', 'C21', IO, ('return r->isOpen() && w->isOpen();', 'return r->isOpen() || w->isOpen();'))
R('io-rw-close', 'C21', IO, ('    r->close();\n    w->close();', '    if (r->isOpen()) {\n      r->close();\n      w->close();\n    }'))
R('io-file-eof', 'C21', IO, ('      int c = fgetc(f);', '      auto c = static_cast<signed char>(fgetc(f));'))
R('io-file-write', 'C21', IO, ('fwrite(buffer, 1, n, f) == n', 'fwrite(buffer, 1, n, f) > 0 || n == 0'))
R('io-spy-prefix-two', 'C21', IO, ('    buf.append(chars, chars + n);\n    s->write(buf.data(), buf.size());', '    buf.append(chars);\n    s->write(buf.data(), buf.size());'))
R('io-spy-fail', 'C21', IO, ('    s->write(buf.data(), buf.size());\n    return true;', '    return s->write(buf.data(), buf.size());'))
R('io-file-mode', 'C21', IO, ('std::make_shared<File>(f, closable)', 'std::make_shared<File>(f, closable || f != stdout)'))
# chan
R('chan-close-drops', 'C06', CH, ('  if (queue.size() == 0) {\n    return optional<T>();', '  if (queue.size() == 0 || closed) {\n    return optional<T>();'))
R('chan-reset-keeps', 'C06', CH, ('  queue = {};\n  closed = false;', '  if (closed) {\n    queue = {};\n  }\n  closed = false;'))
R('chan-put-closed', 'C06', CH, ('  queue.push(in);', '  if (!closed) queue.push(in);'))
# any etc
R('any-self-move', 'C07', AN, ('any& any::operator=(any&& rhs) noexcept {\n  if (this == &rhs) {\n    return *this;\n  }\n', 'any& any::operator=(any&& rhs) noexcept {\n'))
R('any-heap-align', 'C07', AN, ('  heap = new uint8_t[size + align];', '  heap = new uint8_t[size];'))
R('any-moved-no-destroy', 'C07', AN, ('    type->copyConstruct(value, rhs.value);\n    rhs.reset();', '    type->copyConstruct(value, rhs.value);\n    rhs.value = nullptr;\n    rhs.type = nullptr;'))
R('any-inbuffer-le', 'C07', AN, ('addr < reinterpret_cast<uintptr_t>(buffer + sizeof(buffer))', 'addr <= reinterpret_cast<uintptr_t>(buffer + sizeof(buffer))'))
R('any-assign-same-size', 'C07', AN, ('  if (!is<T>()) {\n    reset();\n    type = TypeOf<T>::type();\n    alloc', '  if (!is<T>()) {\n    if (value != nullptr && type->size() == sizeof(T)) {\n      type = TypeOf<T>::type();\n      *reinterpret_cast<T*>(value) = val;\n      return *this;\n    }\n    reset();\n    type = TypeOf<T>::type();\n    alloc'))
R('opt-default-ref', 'C08', OP, ('  if (!has_value()) {\n    return defaultValue;\n  }\n  return val;', '  if (!has_value() || val == T()) {\n    return defaultValue;\n  }\n  return val;'))
R('opt-less-eq', 'C08', OP, ('  if (!lhs.has_value()) {\n    return true;\n  }\n  if (!rhs.has_value()) {\n    return false;\n  }\n  return lhs.value() <= rhs.value();', '  if (!lhs.has_value()) {\n    return rhs.has_value();\n  }\n  if (!rhs.has_value()) {\n    return false;\n  }\n  return lhs.value() <= rhs.value();'))
R('opt-conv-copy', 'C08', OP, ('  val = other.val;\n  set = other.set;\n  return *this;\n}\n\ntemplate <typename T>\noptional<T>& optional<T>::operator=(optional&& other)', '  if (other.set) {\n    val = other.val;\n    set = true;\n  }\n  return *this;\n}\n\ntemplate <typename T>\noptional<T>& optional<T>::operator=(optional&& other)'))
# session
R('se-body-stale', 'C09', SE, ('            send(s.dump());\n\n            if (auto handler = handlers.responseSent(typeinfo)) {\n              handler(data, nullptr);\n            }', '            if (auto handler = handlers.responseSent(typeinfo)) {\n              handler(data, nullptr);\n            }\n            send(s.dump());'))
R('se-resp-int', 'C10', SE, ('        int64_t seq) {\n      std::unique_lock<std::mutex> lock(responseMutex);', '        uint8_t seq) {\n      std::unique_lock<std::mutex> lock(responseMutex);'))
R('se-put-late', 'C11', SE, ('    handlers.put(seq, responseTypeInfo, responseHandler);\n\n    dap::json::Serializer s;', '    dap::json::Serializer s;'), ('                   return requestTypeInfo->serialize(s, request);\n                 });\n        })) {\n      return false;\n    }\n    return send(s.dump());', '                   return requestTypeInfo->serialize(s, request);\n                 });\n        })) {\n      return false;\n    }\n    if (!send(s.dump())) {\n      return false;\n    }\n    handlers.put(seq, responseTypeInfo, responseHandler);\n    return true;'))
R('se-send-unlock', 'C11', SE, ('    std::unique_lock<std::mutex> lock(sendMutex);\n    if (!writer.isOpen()) {', '    if (!writer.isOpen()) {'), ('    return writer.write(s);', '    if (s.size() > 65536) {\n      return writer.write(s);\n    }\n    std::unique_lock<std::mutex> lock(sendMutex);\n    return writer.write(s);'))
R('se-req-partial', 'C12', SE, ('      handlers.error("Failed to deserialize request");\n      return {};', '      handlers.error("Failed to deserialize request");'))
R('se-unknown-silent', 'C12', SE, ('    if (!typeinfo) {\n      handlers.error("No event handler registered for event \'%s\'",\n                     event.c_str());\n      return {};', '    if (!typeinfo) {\n      if (!event.empty()) {\n        handlers.error("No event handler registered for event \'%s\'",\n                     event.c_str());\n      }\n      return {};'))
R('se-success-missing', 'C10', SE, ('      auto error = dap::Error("Response missing \'success\' field");\n      handler(nullptr, &error);\n      return;', '      return;'))
R('se-msg-trunc', 'C10', SE, ('      auto error = dap::Error(message);', '      auto error = dap::Error(message.c_str());'))
R('se-errmsg-fmt', 'C10', SE, ('      auto error = dap::Error(message);', '      auto error = dap::Error("%s", message.c_str());'))
R('se-destruct-resp', 'C10', SE, ('      typeinfo->destruct(data.get());\n    } else {', '    } else {'))
R('se-dtor-writer', 'C22', SE, ('    reader.close();\n    writer.close();\n    if', '    reader.close();\n    if'))
R('se-onclose-twice', 'C22', SE, ('      if (onClose) {\n        onClose();\n      }', '      if (onClose && !shutdown) {\n        onClose();\n      }'), ('    inbox.close();\n    reader.close();', '    shutdown = true;\n    inbox.close();\n    reader.close();'))
R('se-connect-twice', 'C22', SE, ('      handlers.error("Session::connect called twice");\n      return;', '      handlers.error("Session::connect called twice");\n      if (reader.isOpen()) {\n        return;\n      }'))
R('se-inline-events', 'C22', SE, ('        if (auto payload = getPayload()) {\n          inbox.put(std::move(payload));\n        }', '        if (auto payload = getPayload()) {\n          if (!reader.isOpen()) {\n            payload();\n            break;\n          }\n          inbox.put(std::move(payload));\n        }'))
R('se-sent-lookup', 'C09', SE, ('              handler(nullptr, &error);\n            }\n          });', '              dap::Error e;\n              handler(nullptr, &e);\n            }\n          });'))
R('sh-send-fail', 'C10', SH, ('promise.set_value(Error("Failed to send request"));', 'promise.set_value(Error());'))
# json
R('nj-u64', 'C13', NJ, ('  if (json->is_number_unsigned() && json->get<int64_t>() < 0) {\n    return false;  // does not fit\n  }\n', ''))
R('nj-any-float-int', 'C14', NJ, ('  } else if (v.is<dap::number>()) {\n    *json = (double)v.get<dap::number>();', '  } else if (v.is<dap::number>()) {\n    *json = (float)v.get<dap::number>();'))
R('nj-array-empty', 'C14', NJ, ('  *json = std::vector<int>();\n  for', '  if (count > 0) *json = std::vector<int>();\n  for'))
R('nj-number-bool', 'C13', NJ, ('  if (!json->is_number()) {\n    return false;', '  if (!json->is_number() && !json->is_boolean()) {\n    return false;'))
R('rj-str-nul', 'C14', RJ, ('    *v = dap::string(json()->GetString(), json()->GetStringLength());\n  } else if (json()->IsNull', '    *v = dap::string(json()->GetString());\n  } else if (json()->IsNull'))
R('rj-double', 'C13', RJ, ('  if (!json()->IsNumber()) {', '  if (!json()->IsDouble()) {'))
R('rj-remove', 'C14', RJ, ('      if (s.removed) {\n        json->RemoveMember(stringRef(name));\n      }\n      return res;', '      if (s.removed) {\n        member.SetNull();\n      }\n      return res;'))
R('rj-any-setint', 'C14', RJ, ('json()->SetInt64(v.get<dap::integer>());', 'json()->SetInt(static_cast<int>(v.get<dap::integer>()));'))
R('jc-real', 'C13', JC, ('  } else if (json->type() == Json::ValueType::realValue) {', '  } else if (json->isDouble()) {'))
R('jc-isint', 'C13', JC, ('  if (!json->isInt64()) {\n    return false;\n  }\n  *v = json->asInt64();', '  if (!json->isIntegral()) {\n    return false;\n  }\n  *v = json->asInt64();'))
R('jc-nested-fail', 'C14', JC, ('    if (!s.serialize(it.second)) {\n      return false;\n    }', '    s.serialize(it.second);'))
R('jc-ser-uint', 'C14', JC, ('  *json = (Json::LargestInt)v;', '  *json = (Json::LargestUInt)(int64_t)v;'))
R('jc-field-null', 'C13', JC, ('  if (value == nullptr) {', '  if (value == nullptr || value->isNull()) {'))
R('sz-resize', 'C13', SZ, ('  vec->resize(n);\n', '  if (vec->size() < n) vec->resize(n);\n'))
R('sz-opt-fail', 'C13', SZ, ('  if (deserialize(&v)) {\n    *opt = v;\n  }\n  return true;', '  if (!deserialize(&v)) {\n    return false;\n  }\n  *opt = v;\n  return true;'))
R('sz-opt-stale', 'C13', SZ, ('  T v;\n  if (deserialize(&v)) {\n    *opt = v;\n  }\n  return true;', '  T v;\n  deserialize(&v);\n  *opt = v;\n  return true;'))
# types
R('ty-base-skip', 'C15', TO, ('          return TypeOf<BASE>::serializeFields(fs, base) &&               \\\n                 serializeFields(fs, derived);  ', '          return serializeFields(fs, derived);  '))
R('ty-create-racy', 'C20', TC, ('  std::unique_lock<std::mutex> lock(infos->typesMutex);\n', ''))
R('ty-release', 'C20', TC, ('    if (--refcount == 0) {', '    if (--refcount <= 1) {'))
R('ty-array-name', 'C20', TO, ('"array<" + TypeOf<T>::type()->name() + ">"', '"array<" + TypeOf<T>::type()->name()'))
R('ty-offset-u8', 'C15', TO, ('  ((int)(size_t) & reinterpret_cast', '  ((int)(uint8_t)(size_t) & reinterpret_cast'))
# future
R('fu-set-before', 'C16', FU, ('  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_all();', '  state->val = std::move(value);\n  std::unique_lock<std::mutex> lock(state->mutex);\n  state->hasVal = true;\n  state->cv.notify_all();'))
R('fu-notify-one', 'C16', FU, ('  state->val = value;\n  state->hasVal = true;\n  state->cv.notify_all();', '  state->val = value;\n  state->hasVal = true;\n  state->cv.notify_one();'))
R('fu-get-nowait', 'C16', FU, ('  return state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })\n             ? future_status::ready', '  return state->cv.wait_until(lock, timeout) == std::cv_status::no_timeout\n             ? future_status::ready'))
# rwmutex
R('rw-writer-skip', 'C17', RW, ('    cv.wait(lock, [&] { return readLocks == 0; });', '    cv.wait(lock);'))
R('rw-unlockw-nonotify', 'C17', RW, ('  if (pendingWriteLocks > 0) {\n    cv.notify_one();\n  }\n  mutex.unlock();', '  mutex.unlock();'))
R('rw-move-assign', 'C17', RW, ('WLock& WLock::operator=(WLock&& other) {\n  if (this != &other) {\n    if (m != nullptr) {\n      m->unlockWriter();\n    }\n', 'WLock& WLock::operator=(WLock&& other) {\n  if (this != &other) {\n'))
R('rw-pending-early', 'C17', RW, ('    cv.wait(lock, [&] { return readLocks == 0; });\n    pendingWriteLocks--;', '    cv.wait(lock, [&] { return readLocks == 0; });\n    pendingWriteLocks = 0;'))
# sockets
R('sk-send-once', 'C18', SK, ('      data += sent;\n      bytes -= static_cast<size_t>(sent);', '      if (static_cast<size_t>(sent) < bytes) {\n        data += sent;\n      }\n      bytes -= static_cast<size_t>(sent);\n      if (bytes < 2) {\n        break;\n      }'))
R('sk-fd-leak', 'C18', SK, ('    close();\n    term();', '    if (info) {\n      close();\n    }\n    term();'))
R('sk-nonblock', 'C18', SK, ('      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0) {\n        out = shared;\n      }\n      return;', '      ::connect(socket, info->ai_addr, (int)info->ai_addrlen);\n      out = shared;\n      return;'))
# network
R('nw-restart', 'C19', NW, ('    std::unique_lock<std::mutex> lock(mutex);\n    stopWithLock();\n    socket =', '    std::unique_lock<std::mutex> lock(mutex);\n    socket ='))
R('nw-error-onstop', 'C19', NW, ('        if (!stopped) {\n          onError', '        if (!stopped || !socket->isOpen()) {\n          onError'))
R('nw-fail-started', 'C19', NW, ('    if (!socket->isOpen()) {\n      onError("Failed to open socket");\n      return false;\n    }\n\n    stopped = false;', '    stopped = false;\n    if (!socket->isOpen()) {\n      onError("Failed to open socket");\n      return false;\n    }\n'))
R('nw-continue', 'C19', NW, ('          onError("Failed to accept connection");\n        }\n        break;', '          onError("Failed to accept connection");\n        }\n        if (stopped) break;'))

# second batch
R('se-capture-ref', 'C09', SE, ('    return [=] {\n      handler(\n          data.get(),', '    return [&, handler, data, command, this] {\n      handler(\n          data.get(),'))
R('se-deleter', 'C12 C09', SE, ('      typeinfo->destruct(ptr);\n      delete[] ptr;', '      delete[] ptr;'))
R('se-seq-twice', 'C11', SE, ('    int seq = nextSeq++;\n', '    int seq = static_cast<int>(nextSeq.load());\n    nextSeq.store(static_cast<uint32_t>(seq) + 1);\n'))
R('se-seq-zero', 'C11', SE, ('  std::atomic<uint32_t> nextSeq = {1};', '  std::atomic<uint32_t> nextSeq = {0};'))
R('se-evt-null', 'C12', SE, ('    std::tie(typeinfo, handler) = handlers.event(event);\n    if (!typeinfo) {', '    std::tie(typeinfo, handler) = handlers.event(event);\n    if (!typeinfo || !handler) {\n      if (event.size() > 64) return {};'))
R('se-type-prefix', 'C12', SE, ('    } else if (type == "event") {', '    } else if (type.find("event") == 0) {'))
R('se-success-str', 'C10', SE, ('    dap::boolean success = false;\n    if (!d->field("success", &success)) {', '    dap::boolean success = true;\n    d->field("success", &success);\n    if (false) {'))
R('se-erase-late', 'C10', SE, ('      auto out = std::move(responseIt->second);\n      responseMap.erase(seq);\n      return out;', '      auto out = responseIt->second;\n      if (responseMap.size() > 1) {\n        responseMap.erase(seq);\n      }\n      return out;'))
R('se-close-cb-early', 'C22', SE, ('      while (reader.isOpen()) {\n        if (auto payload = getPayload()) {\n          inbox.put(std::move(payload));\n        }\n      }\n      if (onClose) {\n        onClose();\n      }', '      bool told = false;\n      while (reader.isOpen()) {\n        if (auto payload = getPayload()) {\n          inbox.put(std::move(payload));\n        } else if (onClose && !told && !writer.isOpen()) {\n          onClose();\n          told = true;\n        }\n      }\n      if (onClose && !told) {\n        onClose();\n      }'))
R('se-dispatch-stop', 'C22', SE, ('      while (auto payload = inbox.take()) {\n        payload.value()();\n      }', '      while (auto payload = inbox.take()) {\n        if (!reader.isOpen()) {\n          break;\n        }\n        payload.value()();\n      }'))
R('se-error-lock', 'C12 C22', SE, ('      va_list vararg;\n      va_start(vararg, format);\n      std::unique_lock<std::mutex> lock(errorMutex);\n      errorLocked(format, vararg);\n      va_end(vararg);\n    }\n\n    std::pair', '      va_list vararg;\n      va_start(vararg, format);\n      errorLocked(format, vararg);\n      va_end(vararg);\n    }\n\n    std::pair'))
R('se-map-unlocked', 'C09', SE, ('        const std::string& name) {\n      std::unique_lock<std::mutex> lock(requestMutex);\n      auto it = requestMap.find(name);', '        const std::string& name) {\n      auto it = requestMap.find(name);'))
R('sh-bind-order', 'C22', SH, ('  connect(r, w);\n  startProcessingMessages(onClose);', '  startProcessingMessages(onClose);\n  connect(r, w);'))
R('io-no-flush', 'C21', IO, ('      fflush(f);\n', ''))
R('io-file-noclose', 'C21', IO, ('  ~File() { close(); }', '  ~File() { closed = true; }'))
R('io-spy-close', 'C21', IO, ('  void close() override { w->close(); }', '  void close() override {\n    w->close();\n    s->close();\n  }'))
R('pipe-write-partial', 'C05', IO, ('    for (size_t i = 0; i < bytes; i++) {\n      data.emplace_back(src[i]);\n    }', '    for (uint16_t i = 0; i < static_cast<uint16_t>(bytes); i++) {\n      data.emplace_back(src[i]);\n    }'))
R('chan-lost-open', 'C06', CH, ('  queue = {};\n  closed = false;\n}', '  queue = {};\n}'))
R('chan-front-copy', 'C06', CH, ('  auto out = std::move(queue.front());\n  queue.pop();', '  auto out = std::move(queue.back());\n  queue.pop();'))
R('rw-no-wait', 'C17', RW, ('  if (readLocks > 0) {\n    pendingWriteLocks++;', '  if (readLocks > 0 && pendingWriteLocks == 0) {\n    pendingWriteLocks++;'))
R('rw-self-assign', 'C17', RW, ('RLock& RLock::operator=(RLock&& other) {\n  if (this != &other) {', 'RLock& RLock::operator=(RLock&& other) {\n  if (m != other.m) {'))
R('fu-state-new', 'C16', FU, ('future<T>::future(const std::shared_ptr<State>& s) : state(s) {}', 'future<T>::future(const std::shared_ptr<State>& s) : state(s->hasVal ? std::make_shared<State>() : s) {}'))
R('sk-poll-err', 'C18', SK, ('setBlocking(socket, true)', 'setBlocking(socket, false)'))
R('sk-isopen', 'C18', SK, ('    close();\n    return false;', '    return false;'))
R('sk-read-neg', 'C18', SK, ('    return (len < 0) ? 0 : len;', '    return (len < 0 && errno != EINTR) ? 0 : len;'))
R('sk-free-early', 'C18', SK, ('  ~Shared() {\n    if (info) {\n        freeaddrinfo(info);\n    }', '  ~Shared() {\n    if (info && s != InvalidSocket) {\n        freeaddrinfo(info);\n    }'))
R('nw-detach', 'C19', NW, ('      socket->close();\n      thread.join();', '      socket->close();\n      thread.detach();'))
R('nw-close-late', 'C19', NW, ('    if (!stopped.exchange(true)) {\n      socket->close();', '    if (!stopped) {\n      socket->close();\n      stopped = true;'))
R('nw-double-connect', 'C19', NW, ('          onConnect(rw);\n          continue;', '          onConnect(rw);\n          if (!rw->isOpen()) {\n            onConnect(rw);\n          }\n          continue;'))
R('ty-null-size', 'C20', TC, ('    inline size_t size() const override { return sizeof(null); }', '    inline size_t size() const override { return 1; }'))
R('ty-number-int', 'C20', TC, ('  return &TypeInfos::get()->number;', '  return &TypeInfos::get()->integer;'))
R('ty-opt-name', 'C20', TO, ('"optional<" + TypeOf<T>::type()->name() + ">"', '"optional<" + std::string(TypeOf<T>::type()->name().c_str(), 3) + ">"'))
R('ty-copy', 'C07', TO, ('    new (dst) T(*reinterpret_cast<const T*>(src));', '    new (dst) T();\n    memcpy(dst, src, sizeof(T));'))
R('pr-drop', 'C15', 'src/protocol_requests.cpp', ('DAP_FIELD(levels, "levels"),', ''))
R('pr-dup', 'C15', 'src/protocol_requests.cpp', ('DAP_FIELD(levels, "levels"),', 'DAP_FIELD(startFrame, "levels"),'))
R('jc-find-c', 'C13', JC, ('json->find(name.data(), name.data() + name.size())', 'json->find(name.data(), name.data() + strlen(name.c_str()))'))
R('nj-nul-key', 'C14', NJ, ('      NlohmannSerializer s(&(*json)[name]);', '      NlohmannSerializer s(&(*json)[name.c_str()]);'))
R('rj-count', 'C13', RJ, ('return json()->IsArray() ? json()->Size() : 0;', 'return json()->IsArray() ? json()->Size() : 1;'))
R('rj-keylen', 'C14', RJ, ('            name.data(), static_cast<rapidjson::SizeType>(name.size()), allocator};', '            name.data(), static_cast<rapidjson::SizeType>(name.size() & 0xff), allocator};'))
R('nd-count', 'C13', 'src/null_json_serializer.h', ('count() const override { return 0; }', 'count() const override { return 1; }'))
