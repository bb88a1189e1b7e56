R('cs-helper', 'C01 C02 C03 C04', CS,
  ('  // Parse length\n  size_t len = 0;\n  bool overflow = false;\n  while (true) {', '  size_t len = 0;\n  bool overflow = !parseLength(len);\n  while (false) {'),
  ('std::string ContentReader::read() {', 'bool ContentReader::parseLength(size_t& len) {\n  bool ok = true;\n  for (char c = matchAny("0123456789"); c != 0; c = matchAny("0123456789")) {\n    const size_t digit = static_cast<size_t>(c - \'0\');\n    if (len > (SIZE_MAX - digit) / 10) ok = false;\n    len = 10 * len + digit;\n  }\n  return ok;\n}\n\nstd::string ContentReader::read() {'))
L[-1][2].append(('src/content_stream.h', [('  std::string badHeader();', '  std::string badHeader();\n  bool parseLength(size_t& len);')]))
R('cs-body-assign', 'C01 C02', CS,
  ('  out.reserve(len);\n  for (size_t i = 0; i < len; i++) {\n    out.push_back(static_cast<char>(buf.front()));\n    buf.pop_front();\n  }\n', '  out.resize(len);\n  for (size_t i = 0; i < len; ++i) {\n    out[i] = static_cast<char>(buf[i]);\n  }\n  buf.erase(buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(len));\n'))
R('cs-body-while', 'C01 C02', CS,
  ('  for (size_t i = 0; i < len; i++) {\n    out.push_back(static_cast<char>(buf.front()));\n    buf.pop_front();\n  }\n', '  while (out.size() < len) {\n    out += static_cast<char>(buf.front());\n    buf.pop_front();\n  }\n'))
R('cs-buffer-rewrite', 'C01 C02 C03', CS,
  ('  if (bytes < buf.size()) {\n    return true;\n  }\n  bytes -= buf.size();\n  while (bytes > 0) {\n    uint8_t chunk[256];\n    auto numWant = std::min(sizeof(chunk), bytes);', '  uint8_t chunk[256];\n  while (buf.size() < bytes) {\n    size_t numWant = bytes - buf.size();\n    if (numWant > sizeof(chunk)) {\n      numWant = sizeof(chunk);\n    }'),
  ('    for (size_t i = 0; i < numGot; i++) {\n      buf.push_back(chunk[i]);\n    }\n    bytes -= numGot;\n', '    buf.insert(buf.end(), chunk, chunk + numGot);\n'))
R('cs-match-std-equal', 'C01 C02 C03', CS,
  ('  auto it = buf.begin();\n  for (size_t i = 0; i < len; i++, it++) {\n    if (*it != seq[i]) {\n      return false;\n    }\n  }\n  for (size_t i = 0; i < len; i++) {\n    buf.pop_front();\n  }\n', '  if (!std::equal(seq, seq + len, buf.begin())) {\n    return false;\n  }\n  buf.erase(buf.begin(), buf.begin() + static_cast<std::ptrdiff_t>(len));\n'))
R('cs-match-index', 'C01 C02 C03', CS,
  ('  auto it = buf.begin();\n  for (size_t i = 0; i < len; i++, it++) {\n    if (*it != seq[i]) {\n      return false;\n    }\n  }\n', '  for (size_t i = 0; i < len; i++) {\n    if (buf[i] != seq[i]) {\n      return false;\n    }\n  }\n'))
R('cs-writer-one-string', 'C04', CS,
  ('  auto header =\n      std::string("Content-Length: ") + std::to_string(msg.size()) + "\\r\\n\\r\\n";\n', '  std::string header = "Content-Length: ";\n  header += std::to_string(msg.length());\n  header.append("\\r\\n\\r\\n");\n'),
  ('  return writer->write(header.data(), header.size()) &&\n         writer->write(msg.data(), msg.size());', '  if (!writer->write(header.c_str(), header.length())) {\n    return false;\n  }\n  return writer->write(msg.c_str(), msg.length());'))
R('cs-scan-for', 'C01 C02', CS,
  ('  while (buffer(len)) {\n    if (match(seq, len)) {\n      return true;\n    }\n    buf.pop_front();\n  }\n  return false;', '  for (;;) {\n    if (!buffer(len)) {\n      return false;\n    }\n    if (match(seq, len)) {\n      break;\n    }\n    buf.pop_front();\n  }\n  return true;'))
R('pipe-lambda-helper', 'C05', IO,
  ('    auto notify = data.size() == 0;\n    auto src = reinterpret_cast<const uint8_t*>(buffer);\n    for (size_t i = 0; i < bytes; i++) {\n      data.emplace_back(src[i]);\n    }\n    if (notify) {\n      cv.notify_all();\n    }\n    return true;', '    append(static_cast<const uint8_t*>(buffer), bytes);\n    return true;'),
  ('  std::mutex mutex;\n  std::condition_variable cv;\n', '  void append(const uint8_t* src, size_t bytes) {\n    const bool wasEmpty = data.empty();\n    data.insert(data.end(), src, src + bytes);\n    if (wasEmpty) {\n      cv.notify_all();\n    }\n  }\n\n  std::mutex mutex;\n  std::condition_variable cv;\n'))
R('pipe-read-rewrite', 'C05', IO,
  ('      for (; n < bytes && data.size() > 0; n++) {\n        out[n] = data.front();\n        data.pop_front();\n      }\n      if (n == bytes) {\n        return n;\n      }\n', '      while (n < bytes && !data.empty()) {\n        out[n++] = data.front();\n        data.pop_front();\n      }\n      if (n >= bytes) {\n        return n;\n      }\n'))
R('pipe-notify-unlocked', 'C05', IO,
  ('    std::unique_lock<std::mutex> lock(mutex);\n    closed = true;\n    cv.notify_all();\n', '    {\n      std::lock_guard<std::mutex> lock(mutex);\n      closed = true;\n    }\n    cv.notify_all();\n'))
R('pipe-wait-loop', 'C05', IO,
  ('      cv.wait(lock, [&] { return closed || data.size() > 0; });\n', '      while (!closed && data.empty()) {\n        cv.wait(lock);\n      }\n'))
R('pipe-always-notify', 'C05', IO,
  ('    auto notify = data.size() == 0;\n', ''), ('    if (notify) {\n      cv.notify_all();\n    }\n    return true;\n  }\n\n private:', '    cv.notify_all();\n    return true;\n  }\n\n private:'))
R('file-fread', 'C21', IO,
  ('    auto out = reinterpret_cast<char*>(buffer);\n    for (size_t i = 0; i < n; i++) {\n      int c = fgetc(f);\n      if (c == EOF) {\n        return i;\n      }\n      out[i] = char(c);\n    }\n    return n;\n', '    auto out = static_cast<unsigned char*>(buffer);\n    size_t i = 0;\n    while (i < n) {\n      const int c = fgetc(f);\n      if (c == EOF) {\n        break;\n      }\n      out[i++] = static_cast<unsigned char>(c);\n    }\n    return i;\n'))
R('file-close-cas', 'C21', IO,
  ('    if (closable) {\n      if (!closed.exchange(true)) {\n        fclose(f);\n      }\n    }\n', '    if (!closable) {\n      return;\n    }\n    bool expected = false;\n    if (closed.compare_exchange_strong(expected, true)) {\n      fclose(f);\n    }\n'))
R('spy-helper', 'C21', IO,
  ('      std::string buf = prefix;\n      buf.append(chars, chars + c);\n      s->write(buf.data(), buf.size());\n', '      std::string buf;\n      buf.reserve(prefix.size() + c);\n      buf += prefix;\n      buf += std::string(chars, c);\n      s->write(buf.c_str(), buf.length());\n'))
R('chan-helper', 'C06', CH,
  ('  auto notify = queue.size() == 0 && !closed;\n  queue.push(std::move(in));\n  if (notify) {\n    cv.notify_all();\n  }\n', '  queue.emplace(std::move(in));\n  lock.unlock();\n  cv.notify_one();\n'),
  ('  auto notify = queue.size() == 0 && !closed;\n  queue.push(in);\n  if (notify) {\n    cv.notify_all();\n  }\n', '  queue.push(in);\n  cv.notify_one();\n'))
R('chan-take-wait-loop', 'C06', CH,
  ('  cv.wait(lock, [&] { return queue.size() > 0 || closed; });\n  if (queue.size() == 0) {\n    return optional<T>();\n  }\n  auto out = std::move(queue.front());\n  queue.pop();\n  return optional<T>(std::move(out));', '  while (queue.empty()) {\n    if (closed) {\n      return {};\n    }\n    cv.wait(lock);\n  }\n  optional<T> out(std::move(queue.front()));\n  queue.pop();\n  return out;'))
R('chan-reset-swap', 'C06', CH, ('  queue = {};\n  closed = false;', '  closed = false;\n  std::queue<T> none;\n  queue.swap(none);'))
R('chan-put-copy-delegates', 'C06', CH,
  ('  std::unique_lock<std::mutex> lock(mutex);\n  auto notify = queue.size() == 0 && !closed;\n  queue.push(in);\n  if (notify) {\n    cv.notify_all();\n  }\n', '  T copy(in);\n  put(std::move(copy));\n'))
R('rw-wait-loop', 'C17', RW,
  ('    cv.wait(lock, [&] { return readLocks == 0; });\n', '    while (readLocks > 0) {\n      cv.wait(lock);\n    }\n'))
R('rw-notify-all', 'C17', RW,
  ('  readLocks--;\n  if (readLocks == 0 && pendingWriteLocks > 0) {\n    cv.notify_one();\n  }', '  if (--readLocks == 0) {\n    cv.notify_all();\n  }'))
R('rw-swap-move', 'C17', RW,
  ('RLock::RLock(RLock&& other) {\n  m = other.m;\n  other.m = nullptr;\n}', 'RLock::RLock(RLock&& other) : m(nullptr) {\n  std::swap(m, other.m);\n}'))
R('rw-notify-after-unlock', 'C17', RW,
  ('  if (pendingWriteLocks > 0) {\n    cv.notify_one();\n  }\n  mutex.unlock();', '  const bool wake = pendingWriteLocks > 0;\n  mutex.unlock();\n  if (wake) {\n    cv.notify_one();\n  }'))
SE, SH, NW, SK = 'src/session.cpp', 'include/dap/session.h', 'src/network.cpp', 'src/socket.cpp'
SP = 'C09 C10 C11 C12 C22'
R('cs-body-range', 'C02 C04', CS,
  ('  std::string out;\n  out.reserve(len);\n  for (size_t i = 0; i < len; i++) {\n    out.push_back(static_cast<char>(buf.front()));\n    buf.pop_front();\n  }\n  return out;', '  const auto end = buf.begin() + static_cast<std::ptrdiff_t>(len);\n  std::string out(buf.begin(), end);\n  buf.erase(buf.begin(), end);\n  return out;'))
R('se-response-helper', SP, SE,
  ('          [=](const dap::TypeInfo* typeinfo, const dap::Error& error) {\n            // onError\n            dap::json::Serializer s;\n            s.object([&](dap::FieldSerializer* fs) {\n              return fs->field("seq", dap::integer(nextSeq++)) &&\n                     fs->field("type", "response") &&\n                     fs->field("request_seq", sequence) &&\n                     fs->field("success", dap::boolean(false)) &&\n                     fs->field("command", command) &&\n                     fs->field("message", error.message);\n            });\n            send(s.dump());\n',
   '          [=](const dap::TypeInfo* typeinfo, const dap::Error& error) {\n            sendErrorResponse(sequence, command, error);\n'),
  ('  Payload processEvent(dap::json::Deserializer* d) {', '  void sendErrorResponse(dap::integer sequence,\n                         const dap::string& command,\n                         const dap::Error& error) {\n    dap::json::Serializer s;\n    s.object([&](dap::FieldSerializer* fs) {\n      return fs->field("seq", dap::integer(nextSeq++)) &&\n             fs->field("type", "response") &&\n             fs->field("request_seq", sequence) &&\n             fs->field("success", dap::boolean(false)) &&\n             fs->field("command", command) &&\n             fs->field("message", error.message);\n    });\n    send(s.dump());\n  }\n\n  Payload processEvent(dap::json::Deserializer* d) {'))
R('se-message-switch', SP, SE,
  ('    if (type == "request") {\n      return processRequest(&d, sequence);\n    } else if (type == "event") {\n      return processEvent(&d);\n    } else if (type == "response") {\n      processResponse(&d);\n      return {};\n    } else {\n      handlers.error("Unknown message type \'%s\'", type.c_str());\n    }\n\n    return {};', '    if (type == "response") {\n      processResponse(&d);\n      return {};\n    }\n    if (type == "event") {\n      return processEvent(&d);\n    }\n    if (type == "request") {\n      return processRequest(&d, sequence);\n    }\n    handlers.error("Unknown message type \'%s\'", type.c_str());\n    return Payload();'))
R('se-lock-guard', SP, SE,
  ('    bool send(const std::string& s) {\n', '    bool send(const std::string& s) {\n') if False else ('    std::unique_lock<std::mutex> lock(sendMutex);\n    if (!writer.isOpen()) {\n      handlers.error("Send failed as the writer is closed");\n      return false;\n    }\n    return writer.write(s);', '    std::lock_guard<std::mutex> guard(sendMutex);\n    const bool open = writer.isOpen();\n    if (open) {\n      return writer.write(s);\n    }\n    handlers.error("Send failed as the writer is closed");\n    return false;'))
R('se-find-erase', SP, SE,
  ('      auto out = std::move(responseIt->second);\n      responseMap.erase(seq);\n      return out;', '      std::pair<const dap::TypeInfo*, GenericResponseHandler> out = responseIt->second;\n      responseMap.erase(responseIt);\n      return out;'))
R('se-seq-local', SP, SE,
  ('    dap::json::Serializer s;\n    if (!s.object([&](dap::FieldSerializer* fs) {\n          return fs->field("seq", dap::integer(nextSeq++)) &&\n                 fs->field("type", "event")', '    const dap::integer seq(nextSeq.fetch_add(1));\n    dap::json::Serializer s;\n    if (!s.object([&](dap::FieldSerializer* fs) {\n          return fs->field("seq", seq) &&\n                 fs->field("type", "event")'))
R('se-field-ifs', SP, SE,
  ('          return fs->field("seq", dap::integer(seq)) &&\n                 fs->field("type", "request") &&\n                 fs->field("command", requestTypeInfo->name()) &&\n                 fs->field("arguments", [&](dap::Serializer* s) {\n                   return requestTypeInfo->serialize(s, request);\n                 });', '          if (!fs->field("seq", dap::integer(seq))) {\n            return false;\n          }\n          if (!fs->field("type", "request")) {\n            return false;\n          }\n          if (!fs->field("command", requestTypeInfo->name())) {\n            return false;\n          }\n          auto args = [&](dap::Serializer* as) {\n            return requestTypeInfo->serialize(as, request);\n          };\n          return fs->field("arguments", args);'))
R('se-recv-loop', SP, SE,
  ('      while (reader.isOpen()) {\n        if (auto payload = getPayload()) {\n          inbox.put(std::move(payload));\n        }\n      }\n', '      for (;;) {\n        if (!reader.isOpen()) {\n          break;\n        }\n        Payload payload = getPayload();\n        if (payload) {\n          inbox.put(payload);\n        }\n      }\n'),
  ('      while (auto payload = inbox.take()) {\n        payload.value()();\n      }', '      dispatch();'),
  ('  Payload processMessage(', '  void dispatch() {\n    while (true) {\n      auto payload = inbox.take();\n      if (!payload.has_value()) {\n        return;\n      }\n      payload.value()();\n    }\n  }\n\n  Payload processMessage('))
R('se-dtor-order', SP, SE,
  ('    if (recvThread.joinable()) {\n      recvThread.join();\n    }\n    if (dispatchThread.joinable()) {\n      dispatchThread.join();\n    }', '    joinIfRunning(dispatchThread);\n    joinIfRunning(recvThread);'),
  ('  using Payload = std::function<void()>;', '  static void joinIfRunning(std::thread& t) {\n    if (t.joinable()) {\n      t.join();\n    }\n  }\n\n  using Payload = std::function<void()>;'))
R('se-response-early', SP, SE,
  ('    if (success) {\n      auto data = std::unique_ptr<uint8_t[]>(new uint8_t[typeinfo->size()]);\n      typeinfo->construct(data.get());\n\n      // "body" field in Response is an optional field.\n      d->field("body", [&](const dap::Deserializer* d) {\n        return typeinfo->deserialize(d, data.get());\n      });\n\n      handler(data.get(), nullptr);\n      typeinfo->destruct(data.get());\n    } else {\n      std::string message;\n      if (!d->field("message", &message)) {\n        handlers.error("Failed to deserialize message");\n        message = "Response missing \'message\' field";\n      }\n      auto error = dap::Error(message);\n      handler(nullptr, &error);\n    }', '    if (!success) {\n      std::string message = "Response missing \'message\' field";\n      std::string given;\n      if (d->field("message", &given)) {\n        message = given;\n      } else {\n        handlers.error("Failed to deserialize message");\n      }\n      dap::Error error(message);\n      handler(nullptr, &error);\n      return;\n    }\n    auto data = construct(typeinfo);\n    // "body" field in Response is an optional field.\n    d->field("body", [&](const dap::Deserializer* d) {\n      return typeinfo->deserialize(d, data.get());\n    });\n    handler(data.get(), nullptr);'))
R('se-request-two-steps', SP, SE,
  ('    const dap::TypeInfo* typeinfo;\n    GenericRequestHandler handler;\n    std::tie(typeinfo, handler) = handlers.request(command);\n    if (!typeinfo) {', '    const auto entry = handlers.request(command);\n    const dap::TypeInfo* typeinfo = entry.first;\n    const GenericRequestHandler handler = entry.second;\n    if (typeinfo == nullptr) {'))
R('nw-while-cond', 'C19', NW,
  ('      while (true) {\n        if (auto rw = socket->accept()) {\n          onConnect(rw);\n          continue;\n        }\n        if (!stopped) {\n          onError("Failed to accept connection");\n        }\n        break;\n      };', '      while (auto rw = socket->accept()) {\n        onConnect(rw);\n      }\n      if (isRunning()) {\n        onError("Failed to accept connection");\n      }'))
R('nw-lock-guard', 'C19', NW,
  ('  void stop() override {\n    std::unique_lock<std::mutex> lock(mutex);', '  void stop() override {\n    std::lock_guard<std::mutex> lock(mutex);'),
  ('    if (!stopped.exchange(true)) {\n      socket->close();\n      thread.join();\n    }', '    const bool wasStopped = stopped.exchange(true);\n    if (wasStopped) {\n      return;\n    }\n    socket->close();\n    thread.join();'))
R('nw-reset', 'C19', NW,
  ('    socket = std::unique_ptr<dap::Socket>(\n        new dap::Socket(address, std::to_string(port).c_str()));\n', '    const std::string service = std::to_string(port);\n    socket.reset(new dap::Socket(address, service.c_str()));\n'))
R('sk-write-for', 'C18', SK,
  ('    auto data = reinterpret_cast<const char*>(buffer);\n    while (bytes > 0) {\n      auto sent = ::send(s, data, transferSize(bytes), 0);\n      if (sent <= 0) {\n        return false;\n      }\n      data += sent;\n      bytes -= static_cast<size_t>(sent);\n    }\n    return true;', '    const auto data = static_cast<const char*>(buffer);\n    size_t offset = 0;\n    while (offset < bytes) {\n      const auto sent = ::send(s, data + offset, transferSize(bytes - offset), 0);\n      if (sent < 1) {\n        return false;\n      }\n      offset += static_cast<size_t>(sent);\n    }\n    return true;'))
R('sk-read-if', 'C18', SK,
  ('    if (s == InvalidSocket) {\n      return 0;\n    }\n    auto len =\n        recv(s, reinterpret_cast<char*>(buffer), transferSize(bytes), 0);\n    return (len < 0) ? 0 : len;', '    if (s != InvalidSocket) {\n      const auto len = recv(s, static_cast<char*>(buffer), transferSize(bytes), 0);\n      if (len > 0) {\n        return static_cast<size_t>(len);\n      }\n    }\n    return 0;'))
R('sk-shutdown-helper', 'C18', SK,
  ('        // ::shutdown() to unblock ::accept(). We\'ll actually close the socket\n        // under lock below.\n        ::shutdown(s, SHUT_RDWR);\n#endif', '        unblock(s);\n#endif'),
  ('bool errored(SOCKET s) {', 'inline void unblock(SOCKET s) {\n  ::shutdown(s, SHUT_RDWR);\n}\n\nbool errored(SOCKET s) {'))
R('sk-isopen-flag', 'C18', SK,
  ('    {\n      RLock l(mutex);\n      if ((s != InvalidSocket) && !errored(s)) {\n        return true;\n      }\n    }\n    close();\n    return false;', '    bool open = false;\n    lock([&](SOCKET sock, const addrinfo*) { open = (sock != InvalidSocket) && !errored(sock); });\n    if (!open) {\n      close();\n    }\n    return open;'))
R('sk-dtor-order', 'C18', SK,
  ('    if (info) {\n        freeaddrinfo(info);\n    }\n    close();\n    term();', '    close();\n    if (info != nullptr) {\n      freeaddrinfo(info);\n    }\n    term();'))
NJ, RJ, JC, AN, VA, OP, FU, TO, SZ = 'src/nlohmann_json_serializer.cpp', 'src/rapid_json_serializer.cpp', 'src/jsoncpp_json_serializer.cpp', 'include/dap/any.h', 'include/dap/variant.h', 'include/dap/optional.h', 'include/dap/future.h', 'include/dap/typeof.h', 'include/dap/serialization.h'
R('nj-array-range', 'C13 C14', NJ,
  ('  for (size_t i = 0; i < json->size(); i++) {\n    NlohmannDeserializer d(&(*json)[i]);\n', '  for (auto& element : *json) {\n    NlohmannDeserializer d(&element);\n'))
R('nj-field-iter', 'C13 C14', NJ,
  ('  auto obj = *it;\n  NlohmannDeserializer d(&obj);\n  return cb(&d);', '  NlohmannDeserializer d(&it.value());\n  return cb(&d);'))
R('nj-field-contains', 'C13 C14', NJ,
  ('  auto it = json->find(name);\n  if (it == json->end()) {\n    return cb(&NullDeserializer::instance);\n  }\n  auto obj = *it;\n', '  if (!json->contains(name)) {\n    return cb(&NullDeserializer::instance);\n  }\n  const auto& obj = json->at(name);\n'))
R('nj-object-iter', 'C13 C14', NJ,
  ('  for (auto& el : json->items()) {\n    NlohmannDeserializer d(&el.value());\n', '  for (auto it = json->begin(); it != json->end(); ++it) {\n    NlohmannDeserializer d(&it.value());\n'), ('(*v)[el.key()] = val;', '(*v)[it.key()] = val;'))
R('nj-object-emplace', 'C13 C14', NJ,
  ('    (*v)[el.key()] = val;', '    v->emplace(el.key(), std::move(val));'))
R('nj-any-order', 'C13 C14', NJ,
  ('  if (json->is_boolean()) {\n    *v = dap::boolean(json->get<bool>());\n  } else if (json->is_number_float()) {', '  if (json->is_null()) {\n    *v = null();\n    return true;\n  }\n  if (json->is_boolean()) {\n    *v = dap::boolean(json->get<bool>());\n  } else if (json->is_number_float()) {'))
R('nj-any-switch', 'C13 C14', NJ,
  ('  } else if (json->is_number_float()) {\n    *v = dap::number(json->get<double>());', '  } else if (json->type() == nlohmann::json::value_t::number_float) {\n    dap::number n;\n    if (!deserialize(&n)) {\n      return false;\n    }\n    *v = n;'))
R('nj-ser-array-push', 'C13 C14', NJ,
  ('  *json = std::vector<int>();\n  for (size_t i = 0; i < count; i++) {\n    NlohmannSerializer s(&(*json)[i]);\n', '  *json = nlohmann::json::array();\n  for (size_t i = 0; i < count; i++) {\n    json->push_back(nullptr);\n    NlohmannSerializer s(&json->back());\n'))
R('nj-ser-object-local', 'C13 C14', NJ,
  ('      NlohmannSerializer s(&(*json)[name]);\n      auto res = cb(&s);\n      if (s.removed) {\n        json->erase(name);\n      }\n      return res;', '      nlohmann::json& member = (*json)[name];\n      NlohmannSerializer s(&member);\n      const bool ok = cb(&s);\n      if (!s.removed) {\n        return ok;\n      }\n      json->erase(name);\n      return ok;'))
R('nj-int-range', 'C13 C14', NJ,
  ('  if (json->is_number_unsigned() && json->get<int64_t>() < 0) {\n    return false;  // does not fit\n  }', '  if (json->is_number_unsigned() &&\n      json->get<uint64_t>() >\n          static_cast<uint64_t>(std::numeric_limits<int64_t>::max())) {\n    return false;\n  }'))
R('rj-array-iter', 'C13 C14', RJ,
  ('  for (uint32_t i = 0; i < json()->Size(); i++) {\n    RapidDeserializer d(&(*json())[i]);\n', '  for (auto el = json()->Begin(); el != json()->End(); ++el) {\n    RapidDeserializer d(el);\n'))
R('rj-field-has', 'C13 C14', RJ,
  ('  auto it = json()->FindMember(stringRef(name));\n  if (it == json()->MemberEnd()) {\n    return cb(&NullDeserializer::instance);\n  }\n  RapidDeserializer d(&(it->value));', '  const auto key = stringRef(name);\n  if (!json()->HasMember(key)) {\n    return cb(&NullDeserializer::instance);\n  }\n  RapidDeserializer d(&(*json())[key]);'))
R('rj-ser-helper', 'C13 C14', RJ,
  ('    auto s = v.get<dap::string>();\n    json()->SetString(s.data(), static_cast<uint32_t>(s.length()), allocator);', '    return serialize(v.get<dap::string>());'))
R('rj-ser-reserve', 'C13 C14', RJ,
  ('  while (count > json()->Size()) {\n    json()->PushBack(rapidjson::Value(), allocator);\n  }\n', '  for (size_t n = 0; n < count; n++) {\n    json()->PushBack(rapidjson::Value(), allocator);\n  }\n'))
R('rj-obj-local', 'C13 C14', RJ,
  ('  v->reserve(json()->MemberCount());\n  for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {', '  const auto end = json()->MemberEnd();\n  for (auto el = json()->MemberBegin(); el != end; ++el) {'))
R('jc-array-index', 'C13 C14', JC,
  ('  for (const auto& value : *json) {\n    JsonCppDeserializer d(&value);\n', '  for (Json::ArrayIndex i = 0; i < json->size(); i++) {\n    JsonCppDeserializer d(&(*json)[i]);\n'))
R('jc-field-member', 'C13 C14', JC,
  ('  auto value = json->find(name.data(), name.data() + name.size());\n  if (value == nullptr) {\n    return cb(&NullDeserializer::instance);\n  }\n  JsonCppDeserializer d(value);', '  if (!json->isMember(name)) {\n    return cb(&NullDeserializer::instance);\n  }\n  JsonCppDeserializer d(&(*json)[name]);'))
R('jc-ser-append', 'C13 C14', JC,
  ('    JsonCppSerializer s(&(*json)[Json::Value::ArrayIndex(i)]);\n', '    JsonCppSerializer s(&json->append(Json::Value()));\n'))
R('jc-any-delegate', 'C13 C14', JC,
  ('    *json = (bool)v.get<dap::boolean>();\n  } else if', '    return serialize(v.get<dap::boolean>());\n  } else if'))
R('any-move-helper', 'C07 C08', AN,
  ('  inline void free();\n', '  inline void free();\n  inline void take(any& other);\n'),
  ('any::any(any&& other) noexcept : type(other.type) {\n  if (other.isInBuffer(other.value)) {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, other.value);\n    other.reset();\n  } else {\n    value = other.value;\n    heap = other.heap;\n    other.value = nullptr;\n    other.heap = nullptr;\n    other.type = nullptr;\n  }\n}\n', 'any::any(any&& other) noexcept {\n  take(other);\n}\n\nvoid any::take(any& rhs) {\n  type = rhs.type;\n  if (rhs.isInBuffer(rhs.value)) {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, rhs.value);\n    rhs.reset();\n  } else {\n    value = rhs.value;\n    heap = rhs.heap;\n    rhs.value = nullptr;\n    rhs.heap = nullptr;\n    rhs.type = nullptr;\n  }\n}\n'),
  ('  reset();\n  type = rhs.type;\n  if (rhs.isInBuffer(rhs.value)) {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, rhs.value);\n    rhs.reset();\n  } else {\n    value = rhs.value;\n    heap = rhs.heap;\n    rhs.value = nullptr;\n    rhs.heap = nullptr;\n    rhs.type = nullptr;\n  }\n  return *this;', '  reset();\n  take(rhs);\n  return *this;'))
R('any-copy-if', 'C07 C08', AN,
  ('  if (this == &rhs) {\n    return *this;\n  }\n  reset();\n  type = rhs.type;\n  if (rhs.value != nullptr) {\n    alloc(type->size(), type->alignment());\n    type->copyConstruct(value, rhs.value);\n  }\n  return *this;', '  if (this != &rhs) {\n    reset();\n    if (rhs.value != nullptr) {\n      type = rhs.type;\n      alloc(type->size(), type->alignment());\n      type->copyConstruct(value, rhs.value);\n    }\n  }\n  return *this;'))
R('any-exchange', 'C07', AN,
  ('    value = rhs.value;\n    heap = rhs.heap;\n    rhs.value = nullptr;\n    rhs.heap = nullptr;\n    rhs.type = nullptr;', '    std::swap(value, rhs.value);\n    std::swap(heap, rhs.heap);\n    rhs.type = nullptr;'))
R('any-align-mask', 'C07', AN,
  ('  return reinterpret_cast<void*>(alignment *\n                                 ((ptr + alignment - 1) / alignment));', '  const auto rem = ptr % alignment;\n  return reinterpret_cast<void*>(rem == 0 ? ptr : ptr + (alignment - rem));'))
R('any-alloc-size', 'C07', AN,
  ('  if (isInBuffer(reinterpret_cast<uint8_t*>(value) + size - 1)) {\n    return;\n  }\n  heap', '  const auto end = reinterpret_cast<uintptr_t>(value) + size;\n  if (end <= reinterpret_cast<uintptr_t>(buffer) + sizeof(buffer)) {\n    return;\n  }\n  heap'))
R('opt-copy-assign', 'C08', OP,
  ('optional<T>& optional<T>::operator=(const optional& other) {\n  val = other.val;\n  set = other.set;\n  return *this;', 'optional<T>& optional<T>::operator=(const optional& other) {\n  if (this != &other) {\n    val = other.val;\n    set = other.set;\n  }\n  return *this;'))
R('opt-cmp', 'C08', OP,
  ('  if (!rhs.has_value()) {\n    return false;\n  }\n  if (!lhs.has_value()) {\n    return true;\n  }\n  return lhs.value() < rhs.value();', '  return rhs.has_value() && (!lhs.has_value() || lhs.value() < rhs.value());'),
  ('  if (!lhs.has_value() && !rhs.has_value()) {\n    return true;\n  }\n  if (!lhs.has_value() || !rhs.has_value()) {\n    return false;\n  }\n  return lhs.value() == rhs.value();', '  if (lhs.has_value() != rhs.has_value()) {\n    return false;\n  }\n  return !lhs.has_value() || lhs.value() == rhs.value();'))
R('opt-default', 'C08', OP, ('  if (!has_value()) {\n    return defaultValue;\n  }\n  return val;', '  return set ? val : defaultValue;'))
R('fu-wait-loop', 'C16 C10', FU,
  ('T future<T>::get() {\n  std::unique_lock<std::mutex> lock(state->mutex);\n  state->cv.wait(lock, [&] { return state->hasVal; });\n', 'T future<T>::get() {\n  std::unique_lock<std::mutex> lock(state->mutex);\n  while (!state->hasVal) {\n    state->cv.wait(lock);\n  }\n'))
R('fu-notify-unlocked', 'C16 C10', FU,
  ('  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = std::move(value);\n  state->hasVal = true;\n  state->cv.notify_all();', '  {\n    std::lock_guard<std::mutex> lock(state->mutex);\n    state->val = std::move(value);\n    state->hasVal = true;\n  }\n  state->cv.notify_all();'))
R('fu-timeout-if', 'C16', FU,
  ('  return state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })\n             ? future_status::ready\n             : future_status::timeout;', '  if (!state->cv.wait_for(lock, timeout, [&] { return state->hasVal; })) {\n    return future_status::timeout;\n  }\n  return future_status::ready;'))
R('fu-copy-delegates', 'C16', FU,
  ('  std::unique_lock<std::mutex> lock(state->mutex);\n  state->val = value;\n  state->hasVal = true;\n  state->cv.notify_all();', '  set_value(T(value));'))
R('fu-wait-until-for', 'C16', FU,
  ('void future<T>::wait() const {\n  std::unique_lock<std::mutex> lock(state->mutex);\n  state->cv.wait(lock, [&] { return state->hasVal; });', 'void future<T>::wait() const {\n  auto& st = *state;\n  std::unique_lock<std::mutex> lock(st.mutex);\n  st.cv.wait(lock, [&st] { return st.hasVal; });'))
TC = 'src/typeof.cpp'
R('ty-guard', 'C20', TC,
  ('  std::unique_lock<std::mutex> lock(infos->typesMutex);\n  infos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));', '  std::unique_ptr<TypeInfo> owned(ti);\n  std::lock_guard<std::mutex> lock(infos->typesMutex);\n  infos->types.push_back(std::move(owned));'),
  ('    refcount++;', '    refcount.fetch_add(1);'), ('    if (--refcount == 0) {', '    if (refcount.fetch_sub(1) == 1) {'))
R('ty-fields-array', 'C20 C15', TO,
  ('    for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \\\n      if (!fs->field(field.name, [&](Serializer* s) {                         \\\n            auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \\\n            return field.type->serialize(s, ptr);                             \\\n          })) {                                                               \\\n        return false;                                                         \\\n      }                                                                       \\\n    }                                                                         \\\n    return true;', '    bool ok = true;                                                           \\\n    for (const Field& field : std::initializer_list<Field>{__VA_ARGS__}) {    \\\n      ok = fs->field(field.name, [&](Serializer* s) {                         \\\n            auto base = reinterpret_cast<const uint8_t*>(obj);                \\\n            return field.type->serialize(s, base + field.offset);             \\\n          });                                                                 \\\n      if (!ok) {                                                              \\\n        break;                                                                \\\n      }                                                                       \\\n    }                                                                         \\\n    return ok;'))
R('ty-ext-if', 'C20 C15', TO,
  ('        return TypeOf<BASE>::deserializeFields(d, base) &&                \\\n               deserializeFields(d, derived);                             \\', '        if (!TypeOf<BASE>::deserializeFields(d, base)) {                  \\\n          return false;                                                   \\\n        }                                                                 \\\n        return deserializeFields(d, derived);                             \\'))
R('sz-array-loop', 'C13 C14', SZ,
  ('  auto it = vec.begin();\n  return array(vec.size(), [&](Serializer* s) { return s->serialize(*it++); });', '  size_t i = 0;\n  return array(vec.size(),\n               [&](Serializer* s) { return s->serialize(vec[i++]); });'))
R('sz-opt', 'C13 C14', SZ,
  ('  if (deserialize(&v)) {', '  const bool present = deserialize(&v);\n  if (present) {'))
R('sz-opt-else', 'C13 C14', SZ,
  ('  if (!opt.has_value()) {\n    remove();\n    return true;\n  }\n  return serialize(opt.value());', '  if (opt.has_value()) {\n    return serialize(*opt);\n  }\n  remove();\n  return true;'))
R('fu-timed-loop', 'C16', FU,
  ('  return state->cv.wait_until(lock, timeout, [&] { return state->hasVal; })\n             ? future_status::ready\n             : future_status::timeout;', '  while (!state->hasVal) {\n    if (state->cv.wait_until(lock, timeout) == std::cv_status::timeout) {\n      break;\n    }\n  }\n  return state->hasVal ? future_status::ready : future_status::timeout;'))
