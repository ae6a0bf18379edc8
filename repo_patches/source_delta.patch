From e229adb05ebd598fc898fe75f6f2edbb935ed4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 01/36] fix: keep the partially received method name in the
 request it belongs to

It was accumulated in a function-local static, shared by all the connections:
two requests arriving in small segments mixed their method names.
---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 7257cf9..584e953 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -115,6 +115,7 @@ private: // clang-format off
     enum class State { methodStart, method, URI, versionH, versionT1, versionT2, versionP, versionSlash, versionMajorStart, versionMajor, versionMinorStart,
                  versionMinor, newline1, headerLineStart, headerLws, headerName, spaceBeforeHeaderValue, headerValue, newline2, newline3, completed };
     State state { State::methodStart };    
+    std::string buffer;
     bool completeRequest(char input) {
         auto isChar = [](char c) { return c >= 0; };
         auto isCtrl = [](char c) { return (c >= 0 && c <= 31) || (c == 127); };
@@ -129,7 +130,6 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
-        static std::string buffer;
         using enum State;
         switch (state) {
             case methodStart:
-- 
2.43.0


From 8062def3a2e86025b4f2177e24f86db935c8c148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 02/36] fix: store the status line of a response in the
 response

toBuffers() returned a view of a function-local static, which the next response
overwrote while the asynchronous write of the previous one was still pending.
---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 584e953..1a76847 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -210,7 +210,6 @@ struct Response : Headers {
     template<typename Net>
     [[nodiscard]] std::vector<typename Net::ConstBuffer> toBuffers() const {
         std::vector<typename Net::ConstBuffer> buffers;
-        static std::string httpStatus;
         httpStatus = "HTTP/1.1 " + std::to_string(statusCode) + " " + toString(statusCode) + "\r\n";
         buffers.push_back(Net::Buffer(httpStatus));
 
@@ -229,6 +228,8 @@ struct Response : Headers {
     }
 
 private:
+    mutable std::string httpStatus;
+
     [[nodiscard]] static std::string toString(StatusCode code) {
         switch (code) {
         case switchingProtocols: return "Switching Protocols";
-- 
2.43.0


From 073479fc7659d472d3824adc4316a0e8072012e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:36 +0000
Subject: [PATCH 03/36] fix: one MIME name per MIME type

A spurious "text/css" shifted the last name: .csv files were served as text/css.
---
 include/http/MimeType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/MimeType.hpp b/include/http/MimeType.hpp
index eeac5be..0333e7e 100644
--- a/include/http/MimeType.hpp
+++ b/include/http/MimeType.hpp
@@ -35,7 +35,7 @@ struct MimeType {
     [[nodiscard]] constexpr std::string_view toString() const {
         auto names =
           std::array{"text/plain",      "text/html", "text/css",     "application/javascript", "image/jpeg", "image/png", "image/gif", "application/json",
-                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/css",  "text/csv"};
+                     "application/pdf", "font/ttf",  "image/x-icon", "image/svg+xml",          "image/webp", "text/csv"};
         return names[type];
     }
 };
-- 
2.43.0


From ad928df9fe1158ed366e42485503934440a057b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 04/36] fix: name the undefined HTTP method

getMethodName() read past the names table for a request whose method is unknown.
---
 include/http/HTTPServer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 1a76847..6a9f21a 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -181,7 +181,7 @@ private: // clang-format off
         }
         return false;
     }
-    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE"};
+    inline static std::array methodNames{"CONNECT", "DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT", "TRACE", "UNDEFINED"};
 }; // clang-format on
 
 struct Response : Headers {
-- 
2.43.0


From 596b71354a618ed4cef4d2eff59cbba487ab25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 05/36] fix: reject HTTP version numbers which do not fit

A version with more than ten digits overflowed a signed integer.
---
 include/http/HTTPServer.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 6a9f21a..45b599c 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -130,6 +130,11 @@ private: // clang-format off
             if (cond) throw BadRequestException();
         };
 
+        auto addDigit = [input](int& version) {
+            if (version > 99) throw BadRequestException();
+            version = version * 10 + input - '0';
+        };
+
         using enum State;
         switch (state) {
             case methodStart:
@@ -148,14 +153,14 @@ private: // clang-format off
             case versionT2: setState(input != 'T', versionP); break;
             case versionP: setState(input != 'P', versionSlash); break;
             case versionSlash: setState(input != '/', versionMajorStart); httpVersionMajor = 0; httpVersionMinor = 0; break;
-            case versionMajorStart: setState(!isDigit(input), versionMajor); httpVersionMajor = httpVersionMajor * 10 + input - '0'; break;
+            case versionMajorStart: setState(!isDigit(input), versionMajor); addDigit(httpVersionMajor); break;
             case versionMajor: if (input == '.') state = versionMinorStart;
-                                    else if (isDigit(input)) httpVersionMajor = httpVersionMajor * 10 + input - '0';
+                                    else if (isDigit(input)) addDigit(httpVersionMajor);
                                     else throw BadRequestException();
                 break;
-            case versionMinorStart: setState(!isDigit(input), versionMinor); httpVersionMinor = httpVersionMinor * 10 + input - '0'; break;
+            case versionMinorStart: setState(!isDigit(input), versionMinor); addDigit(httpVersionMinor); break;
             case versionMinor: if (input == '\r') state = newline1;
-                                    else if (isDigit(input)) httpVersionMinor = httpVersionMinor * 10 + input - '0';
+                                    else if (isDigit(input)) addDigit(httpVersionMinor);
                                     else throw BadRequestException();
                 break;
             case newline1: setState(input != '\n', headerLineStart); break;
-- 
2.43.0


From 687e287d1f0b7086b81a532d3a2b16935cbdefbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 06/36] fix: recognise complete WebSocket headers of every size

isComplete() expected 6 or 14 bytes whatever the header: a 16-bit length header (8 bytes) split
across two reads swallowed 6 bytes of payload, unmasked headers were never complete on their own.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3af01e4..3f258f2 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -81,7 +81,7 @@ struct Header {
     /// @return true if first 'size' bytes constitute a complete header
     [[nodiscard]] bool isComplete(size_t size) const {
         if (size < 2) return false;
-        return std::to_integer<uint8_t>(raw[1] & std::byte(0b1111111)) < 126 ? size >= 6 : size >= 14;
+        return size >= headerSize();
     }
 
     void setFIN(bool set) {
-- 
2.43.0


From 1eee56458b72559b891cc8056c723cd4e4151a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 07/36] fix: write only the bytes of the extended length

The loop ran once too often, with an undefined shift count.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 3f258f2..8f67a7c 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -99,7 +99,7 @@ struct Header {
     void setPayloadSize(size_t size) {
         raw[1] = (raw[1] & std::byte(0b10000000)) | std::byte(size < 126 ? size : size < 65536 ? 126 : 127);
         size_t len = size < 126 ? 0 : size < 65536 ? 2 : 8;
-        for (size_t i = 0; i <= len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
+        for (size_t i = 0; i < len; ++i) raw[2 + i] = std::byte(size >> (8 * (len - i - 1)));
     }
 
 protected:
-- 
2.43.0


From 9d2fef04067c8a733b0ac149eaf4e6153d61f4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 08/36] fix: bound the memory reserved on behalf of a frame
 header

reserve() was given the 64-bit length announced by the peer: it threw out of the event loop
or allocated the whole announced size.
---
 include/http/WebSocket.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 8f67a7c..f1fbc11 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -170,7 +170,7 @@ public:
             headerSize = reinterpret_cast<const Header*>(input)->headerSize();
             mask = reinterpret_cast<const Header*>(input)->maskingKey();
             frameType = reinterpret_cast<const Header*>(input)->opcode();
-            payloadBuffer.reserve(payloadSize);
+            payloadBuffer.reserve(std::min(payloadSize, maxReservedSize));
         };
         auto bufferizeHeaderData = [&](std::span<const std::byte> input) -> size_t {
             for (size_t index = 0; index < input.size(); ++index) {
@@ -218,6 +218,7 @@ public:
 
 private:
     enum class DecodingState { starting, partialHeader, decodingPayload } state;
+    static constexpr size_t maxReservedSize = 65536;
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-- 
2.43.0


From b1c9ce28cc8c268861c5be31ae9485007f6ca26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 09/36] fix: deliver a frame only when all its payload has
 arrived

The end-of-payload test compared the last chunk with what remained after it was consumed: a frame
received in three parts was delivered after the second one, with stale bytes at its end.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f1fbc11..4b09bf9 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -203,7 +203,7 @@ public:
         } break;
         case DecodingState::decodingPayload: {
             decodePayload(buffer.first(std::min(payloadSize - payloadBuffer.size(), buffer.size())));
-            return (buffer.size() >= (payloadSize - payloadBuffer.size()));
+            return payloadBuffer.size() == payloadSize;
         }
         }
         return false;
-- 
2.43.0


From eb4a672307bc1c9561b2c8d238603da3a3bf058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 10/36] fix: do not read a WebSocket again once it is stopped

After a connectionClose frame the closed socket was read again, its error reported a second close
event to the application.
---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 4b09bf9..a2a1469 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -290,7 +290,7 @@ private:
                     };
                     decoder.reset();
                 }
-                read();
+                if (started) read();
             }
             else {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
-- 
2.43.0


From d27ff02246f24c4633c23d69146c4a4300494162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:05 +0000
Subject: [PATCH 11/36] fix: start a WebSocket only once

The constructor starts it and WebLink starts it again: two reads were outstanding at the same time
on the same socket and into the same buffer.
---
 include/http/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index a2a1469..f958322 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -244,6 +244,7 @@ public:
     ~WebSocket() { log::debug("WebSocket destructor"); }
 
     void start() {
+        if (started) return;
         started = true;
         read();
     }
-- 
2.43.0


From e23c2012f75c370f169ab3afea1deecd6bf2e74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 12/36] fix: decode every frame of a WebSocket read

Only the first frame of the received bytes was decoded: the frames which follow it in the same read
were dropped, and the end of the stream was decoded from the middle of a frame.
---
 include/http/WebSocket.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f958322..49e2a9a 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -158,9 +158,13 @@ public:
     FrameDecoder() : payloadBuffer(sizeof(Header)) { reset(); }
     std::span<const std::byte> payload() const { return std::span(payloadBuffer.data(), payloadSize); }
 
+    // @return the number of bytes of the last parsed buffer which follow the end of the complete frame
+    size_t excessSize() const { return receivedSize - headerSize - payloadSize; }
+
     // Parses some incoming data and tries to decode it.
     // @return true if the frame is complete, false if it needs more data
     bool parse(std::span<const std::byte> buffer) {
+        receivedSize += buffer.size();
         auto decodePayload = [&](std::span<const std::byte> encoded) -> size_t {
             for (auto in : encoded) payloadBuffer.push_back(in ^ mask[maskIndex++ % 4]);
             return payloadBuffer.size();
@@ -212,6 +216,7 @@ public:
     void reset() {
         maskIndex = 0;
         headerBufferParser = 0;
+        receivedSize = 0;
         payloadBuffer.clear();
         state = DecodingState::starting;
     }
@@ -222,7 +227,7 @@ private:
     std::vector<std::byte> payloadBuffer;
     Header headerBuffer;
     size_t headerBufferParser;
-    size_t payloadSize, headerSize;
+    size_t payloadSize, headerSize, receivedSize;
     std::array<std::byte, 4> mask;
     uint8_t maskIndex;
 };
@@ -274,7 +279,9 @@ private:
     void read() {
         socket.async_read_some(Net::Buffer(readBuffer), [this](std::error_code ec, std::size_t bytesTransferred) {
             if (!ec) {
-                if (decoder.parse(std::span(readBuffer.data(), bytesTransferred))) {
+                std::span<const std::byte> received(readBuffer.data(), bytesTransferred);
+                while (started && !received.empty() && decoder.parse(received)) {
+                    received = received.last(decoder.excessSize());
                     auto data = decoder.payload();
                     switch (decoder.frameType) {
                     case Header::Opcode::text:
-- 
2.43.0


From ba1a69437e6247df57325ad7fdbc3605da05eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 13/36] fix: send the current header of a WebSocket frame

The header buffer was fixed at construction: it kept its initial size when addBuffer() extended the
length field, and pointed to the moved-from frame after a move.
---
 include/http/WebSocket.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 49e2a9a..8cb8df2 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -137,7 +137,11 @@ struct Frame : public Header {
 
     [[nodiscard]] size_t size() const { return payloadSize(); };
 
-    std::vector<typename Net::ConstBuffer> toBuffers() const { return buffers; }
+    std::vector<typename Net::ConstBuffer> toBuffers() const {
+        auto result = buffers;
+        result.front() = typename Net::ConstBuffer(raw.data(), headerSize()); // header could have grown or moved
+        return result;
+    }
 
     /// @return size of added buffer
     size_t addBuffer(std::span<const std::byte> buffer) {
-- 
2.43.0


From 04e313509bcdd6e3f354f29cb4b2523faf61467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:29 +0000
Subject: [PATCH 14/36] fix: keep the bytes of a WebSocket frame until they are
 written

The asynchronous write was given views of the frame header, a local variable, and of the caller's
payload: both could be gone before the write took place.
---
 include/http/WebSocket.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 8cb8df2..f1cd9eb 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -313,7 +313,16 @@ private:
     }
 
     void writeData(Frame<Net> frame) {
-        Net::AsyncWrite(socket, frame.toBuffers(), [this](std::error_code ec, std::size_t /*bytesTransferred*/) {
+        // the bytes to be sent have to live until the end of the asynchronous write
+        auto data = std::make_shared<std::vector<std::vector<std::byte>>>();
+        for (const auto& buffer : frame.toBuffers()) {
+            auto bytes = static_cast<const std::byte*>(buffer.data());
+            data->emplace_back(bytes, bytes + buffer.size());
+        }
+        std::vector<typename Net::ConstBuffer> buffers;
+        for (const auto& bytes : *data) buffers.emplace_back(bytes.data(), bytes.size());
+
+        Net::AsyncWrite(socket, buffers, [this, data](std::error_code ec, std::size_t /*bytesTransferred*/) {
             if (ec) {
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
-- 
2.43.0


From 2b09e961ca98c739da92a2ab042b9719e4d96dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 15/36] fix: let a JsFunction be called several times

The data size and the encoding buffer index of the previous call were kept: the second call announced
too many bytes, and repeated calls wrote past the end of the encoding buffer.
---
 include/JsFunction.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/JsFunction.hpp b/include/JsFunction.hpp
index 5eb62f8..73cbd3e 100644
--- a/include/JsFunction.hpp
+++ b/include/JsFunction.hpp
@@ -21,7 +21,7 @@ public:
         : name(functionName), webFront(wf), webLinkId(linkId) {}
 
     void operator()(auto&&... ts) {
-        command.setParametersCount(0);
+        command = msg::FunctionCall{};
         websocket::Frame<typename WebFront::Net> frame{std::span(reinterpret_cast<const std::byte*>(command.header().data()), command.header().size())};
         command.encodeParameter(name, frame);
         (((command.encodeParameter(std::forward<decltype(ts)>(ts), frame))), ...);
-- 
2.43.0


From 02a9e5e81258f2836f368ce74bdbdce96d36576e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 16/36] fix: check that a received message contains its payload

The announced payload size was added to the wrong side of the comparison: payload() gave access past
the end of the received frame.
---
 include/weblink/Messages.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 16453d6..198db9a 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -104,7 +104,7 @@ public:
     static const T* castFromRawData(std::span<const std::byte> data) {
         if (data.size() < sizeof(typename T::Header)) throw std::runtime_error("Not enough data to form a message Header");
         auto message = reinterpret_cast<const T*>(data.data());
-        if ((data.size() + message->getPayloadSize()) < sizeof(typename T::Header))
+        if (data.size() < sizeof(typename T::Header) + message->getPayloadSize())
             throw std::runtime_error("Not enough data to form a complete message");
         return message;
     }
-- 
2.43.0


From b51f4b5f32fe6db3aeef6c3baf3c3f7237dc2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 17/36] fix: check that the size prefix of a parameter is there
 before reading it

A message truncated just after a type code made decodeParameter read past its end.
---
 include/weblink/Messages.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 198db9a..f5097a4 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -292,7 +292,7 @@ public:
         switch (codedType) {
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
@@ -302,7 +302,7 @@ public:
         case CodedType::string:
         case CodedType::exception:
             if constexpr (is_same_v<T, string>) {
-                if (data.size() < 1u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
+                if (data.size() < 3u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
@@ -322,6 +322,7 @@ public:
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
+                if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto tupleSize = static_cast<size_t>(data[1]);
                 if (tuple_size_v<T> != tupleSize)
                     throw runtime_error("Parameter is a "s + to_string(tuple_size_v<T>) +
-- 
2.43.0


From fb611bed6b4a14914ed8567b62a3ac282e21d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 18/36] fix: decode boolean parameters

A boolean sent by the client was decoded as false and left in the data, so that the following
parameters were decoded from it.
---
 include/weblink/Messages.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index f5097a4..d423045 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -290,6 +290,13 @@ public:
         if (data.size() == 0) throw runtime_error("Not enough data for msg::FunctionCall::decodeParameter");
         auto codedType = static_cast<CodedType>(data[0]);
         switch (codedType) {
+        case CodedType::booleanTrue:
+        case CodedType::booleanFalse:
+            if constexpr (is_same_v<T, bool>) {
+                param = codedType == CodedType::booleanTrue;
+                data = data.subspan(1);
+            }
+            break;
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-- 
2.43.0


From c1be397814bb736e7908d5a2a353ab411b0a5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 19/36] fix: refuse parameters whose type is not the expected
 one

They were skipped without consuming their data: the function was called with a default value and its
following parameters were decoded from the wrong place.
---
 include/weblink/Messages.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index d423045..6152dc0 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -296,6 +296,8 @@ public:
                 param = codedType == CodedType::booleanTrue;
                 data = data.subspan(1);
             }
+            else
+                throw runtime_error("Wrong parameter type : "s + string(msg::toString(codedType)) + " received");
             break;
         case CodedType::smallString:
             if constexpr (is_same_v<T, string>) {
@@ -305,6 +307,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[2]), size);
                 data = data.subspan(2 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : "s + string(msg::toString(codedType)) + " received");
             break;
         case CodedType::string:
         case CodedType::exception:
@@ -316,6 +320,8 @@ public:
                 param = string(reinterpret_cast<const char*>(&data[3]), size);
                 data = data.subspan(3 + size);
             }
+            else
+                throw runtime_error("Wrong parameter type : "s + string(msg::toString(codedType)) + " received");
             break;
         case CodedType::number:
             if constexpr (is_arithmetic_v<T>) {
@@ -326,6 +332,8 @@ public:
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
+            else
+                throw runtime_error("Wrong parameter type : "s + string(msg::toString(codedType)) + " received");
             break;
         case CodedType::tuple:
             if constexpr (is_tuple_v<T>) {
@@ -342,7 +350,12 @@ public:
                 throw runtime_error("Wrong parameter type : std::tuple expected");
             break;
 
-        default: param = {};
+        case CodedType::undefined:
+            param = {};
+            data = data.subspan(1);
+            break;
+
+        default: throw runtime_error("Unsupported parameter type : "s + string(msg::toString(codedType)));
         }
     }
 };
-- 
2.43.0


From 04bc91691b980773e8d05b7baeb5c4fecafc3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 20/36] fix: refuse numbers which do not fit in the integer
 parameter

Converting an out of range double (or NaN) received from the client to an integer is undefined.
---
 include/weblink/Messages.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 6152dc0..7ecc178 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -5,7 +5,9 @@
 
 #include <array>
 #include <bit>
+#include <cmath>
 #include <cstddef>
+#include <limits>
 #include <span>
 #include <stdexcept>
 #include <string>
@@ -329,6 +331,9 @@ public:
                 if (data.size() < 1u + sizeof(value))
                     throw runtime_error("Erroneous 'number' data feeded to msg::FunctionCall::decodeParameter");
                 copy_n(&data[1], sizeof(value), reinterpret_cast<byte*>(&value));
+                if constexpr (is_integral_v<T> and not is_same_v<T, bool>)
+                    if (not(value >= static_cast<double>(numeric_limits<T>::min()) and value < ldexp(1.0, numeric_limits<T>::digits)))
+                        throw runtime_error("Number out of the range of the parameter received");
                 param = static_cast<T>(value);
                 data = data.subspan(1 + sizeof(value));
             }
-- 
2.43.0


From 94cd670dbbf9e0044fa2e3900baf98830f607c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 21/36] fix: refuse to encode more parameters than a message
 can hold

The encoding buffer was written past its end after about a hundred parameters and the 8-bit parameters
count wrapped.
---
 include/weblink/Messages.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 7ecc178..48c6cae 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -206,6 +206,8 @@ public:
     void encodeParameter(T&& t, WebSocketFrame& frame) {
         using namespace std;
         using ParamType = remove_cvref_t<T>;
+        if (getParametersCount() == numeric_limits<uint8_t>::max() or buffer.size() - encodeBufferIndex < 1 + sizeof(double))
+            throw length_error("Too many parameters for a msg::FunctionCall");
         setParametersCount(getParametersCount() + 1);
 
         if constexpr (is_printable<T>::value) {
-- 
2.43.0


From 452bd80b5fc5b06e0ca53fd9154ea88a23c16caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 22/36] fix: never announce a truncated text size

The 16-bit sizes of strings, exceptions and text commands wrapped for the texts of 64 kB and more, the
client decoded the remainder of the text as something else. They are refused (logs and exceptions: cut).
---
 include/weblink/Messages.hpp | 10 ++++++++--
 include/weblink/WebLink.hpp  |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 48c6cae..8d5e2df 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -3,6 +3,7 @@
 /// @brief Messages exchanged between webfront clients and server
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <bit>
 #include <cmath>
@@ -148,11 +149,15 @@ class TextCommand : public MessageBase<TextCommand> {
     friend class MessageBase<TextCommand>;
 
 public:
+    static constexpr size_t maxTextSize = std::numeric_limits<uint16_t>::max();
+
     TextCommand(TxtOpcode opcode, std::string_view text)
         : head{.opcode = opcode,
                .lengthHi = static_cast<uint8_t>(text.size() >> 8),
                .lengthLo = static_cast<uint8_t>(text.size())},
-          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {}
+          payloadSpan{reinterpret_cast<const std::byte*>(text.data()), text.size()} {
+        if (text.size() > maxTextSize) throw std::length_error("Text too long for a msg::TextCommand");
+    }
 
     [[nodiscard]] std::span<const std::byte> payload() const { return payloadSpan; }
     [[nodiscard]] size_t getPayloadSize() const { return static_cast<uint16_t>(256 * head.lengthHi + head.lengthLo); }
@@ -223,6 +228,7 @@ public:
         };
 
         [[maybe_unused]] auto encodeString = [&](const char* str, size_t size) constexpr {
+            if (size > numeric_limits<uint16_t>::max()) throw length_error("String too long for a msg::FunctionCall");
             if (size < 256)
                 encodeType(msg::CodedType::smallString, static_cast<uint8_t>(size), frame);
             else
@@ -278,7 +284,7 @@ public:
 
         else if constexpr (is_base_of_v<std::exception, ParamType>) {
             std::cout << "Exception : " << t.what() << '\n';
-            auto textSize = char_traits<char>::length(t.what());
+            auto textSize = min(char_traits<char>::length(t.what()), size_t{numeric_limits<uint16_t>::max()});
             encodeType(msg::CodedType::exception, static_cast<uint16_t>(textSize), frame);
             frame.addBuffer(span(reinterpret_cast<const std::byte*>(t.what()), textSize));
             incrementPayloadSize(textSize);
diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index fb4f54d..144b34d 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -52,7 +52,7 @@ public:
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 logSink =
-                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t)); });
+                  log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
                              (std::endian::native == std::endian::big &&
-- 
2.43.0


From 1a7982e9cfe22f307eb2690f1fa85debd41d2997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:45 +0000
Subject: [PATCH 23/36] fix: send function returns with the functionReturn
 command

FunctionReturn's own header was never sent: header() is inherited from FunctionCall, whose header says
callFunction.
---
 include/weblink/Messages.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 8d5e2df..1876b5a 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -193,6 +193,7 @@ class FunctionCall : public MessageBase<FunctionCall> {
     }
 
 public:
+    FunctionCall() = default;
     void setParametersCount(uint8_t parametersCount) { head.parametersCount = parametersCount; }
     void setPayloadSize(uint32_t size) { head.parametersDataSize = size; }
     [[nodiscard]] uint8_t getParametersCount() const { return head.parametersCount; }
@@ -371,18 +372,15 @@ public:
         default: throw runtime_error("Unsupported parameter type : "s + string(msg::toString(codedType)));
         }
     }
+
+protected:
+    explicit FunctionCall(Command command) { head.command = command; }
 };
 
 /// Encodes FunctionCall return values (or exceptions)
 class FunctionReturn : public FunctionCall {
-    struct Header {
-        Command command = Command::functionReturn;
-        uint8_t parametersCount = 0;
-        std::array<uint8_t, 2> padding{};
-        uint32_t parametersDataSize = 0;
-    } head;
-    static_assert(sizeof(Header) == 8, "FunctionReturn header has to be 8 bytes long");
-    friend class MessageBase<FunctionReturn>;
+public:
+    FunctionReturn() : FunctionCall(Command::functionReturn) {}
 };
 
 } // namespace webfront::msg
-- 
2.43.0


From 7a31dc12e7e22e6305ca86093570bcee63fb7e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 24/36] fix: keep the registered C++ functions

cppFunction() stored a reference to its argument, usually a temporary, called when it was gone.
---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index e63f5b5..75762ec 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -90,7 +90,7 @@ public:
      */
     template<typename R, typename... Args>
     void cppFunction(std::string functionName, auto&& function) {
-        cppFunctions.try_emplace(functionName, [&function](std::span<const std::byte> data) -> void {
+        cppFunctions.try_emplace(functionName, [function = std::forward<decltype(function)>(function)](std::span<const std::byte> data) mutable -> void {
             std::tuple<Args...> parameters;
             auto deserializeAndCall = [&]<std::size_t... Is>(std::tuple<Args...> & tuple, std::index_sequence<Is...>) {
                 (msg::FunctionCall::decodeParameter(std::get<Is>(tuple), data), ...);
-- 
2.43.0


From 7a0b04937a89e74342b7606f2fc4aafffb0ce233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:02 +0000
Subject: [PATCH 25/36] fix: accept clients when no UI handler is set

The handshake of a client called an empty std::function, which threw out of the event loop.
---
 include/WebFront.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/WebFront.hpp b/include/WebFront.hpp
index 75762ec..2736362 100644
--- a/include/WebFront.hpp
+++ b/include/WebFront.hpp
@@ -111,7 +111,7 @@ private:
 private:
     void onEvent(WebLinkEvent event) {
         switch (event.code) {
-        case WebLinkEvent::Code::linked: uiStartedHandler(UI{*this, event.webLinkId}); break;
+        case WebLinkEvent::Code::linked: if (uiStartedHandler) uiStartedHandler(UI{*this, event.webLinkId}); break;
         case WebLinkEvent::Code::closed: webLinks.erase(event.webLinkId); break;
         case WebLinkEvent::Code::cppFunctionCalled: cppFunctions.at(event.text)(event.data); break;
         }
-- 
2.43.0


From a48f38e47fca2ad4d3b27ea31306d5ba4b482d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:14 +0000
Subject: [PATCH 26/36] fix: register one log sink per client

Each handshake message added a sink, only the last of them was removed with the link: the others kept
writing to a destroyed object.
---
 include/weblink/WebLink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index 144b34d..aa67ad7 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -51,7 +51,7 @@ public:
             case msg::Command::handshake: {
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
-                logSink =
+                if (!logSink) logSink =
                   log::addSinks([this](std::string_view t) { sendCommand(msg::TextCommand(msg::TxtOpcode::debugLog, t.substr(0, msg::TextCommand::maxTextSize))); });
                 sameEndian = (std::endian::native == std::endian::little &&
                               static_cast<msg::JSEndian>(command->getEndian()) == msg::JSEndian::little) ||
-- 
2.43.0


From 9535252d3c7adbbb206fd3fc3ba0ad1503fb1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 27/36] fix: forget the connections which became WebSockets

An upgraded connection stayed in the connections list for ever, and a connection whose upgrade response
could not be sent was upgraded nevertheless.
---
 include/http/HTTPServer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index 45b599c..db7ecf2 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -411,9 +411,10 @@ private:
     void write() {
         auto self(this->shared_from_this());
         Net::AsyncWrite(socket, response.toBuffers<Net>(), [this, self](std::error_code ec, std::size_t /*bytesTransferred*/) {
-            if (protocol == Protocol::HTTPUpgrading) {
+            if (protocol == Protocol::HTTPUpgrading && !ec) {
                 protocol = Protocol::WebSocket;
                 if (onUpgrade) onUpgrade(std::move(socket), protocol);
+                connections.stop(self);
             }
             else {
                 if (!ec) socket.shutdown(Net::Socket::shutdown_both);
-- 
2.43.0


From 84e6d7f180df68657f555e42112bc787d8ffa5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 28/36] fix: survive malformed messages from the client

The command of an empty message was read out of bounds, truncated handshakes and function calls threw
out of the event loop.
---
 include/weblink/WebLink.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/weblink/WebLink.hpp b/include/weblink/WebLink.hpp
index aa67ad7..bd4b273 100644
--- a/include/weblink/WebLink.hpp
+++ b/include/weblink/WebLink.hpp
@@ -47,8 +47,10 @@ public:
         ws.onMessage([this](std::span<const std::byte> data) {
             log::infoHex("onMessage(binary) :", data);
 
+            if (data.empty()) return;
             switch (static_cast<msg::Command>(data[0])) {
             case msg::Command::handshake: {
+                if (data.size() < sizeof(msg::Handshake)) break;
                 auto command = msg::Handshake::castFromRawData(data);
                 sendCommand(msg::Ack{});
                 if (!logSink) logSink =
@@ -62,9 +64,9 @@ public:
 
             case msg::Command::callFunction: {
                 log::info("Function called !");
-                auto command = msg::FunctionCall::castFromRawData(data);
-                auto [functionName, paramData] = command->getFunctionName();
                 try {
+                    auto command = msg::FunctionCall::castFromRawData(data);
+                    auto [functionName, paramData] = command->getFunctionName();
                     eventsHandler(WebLinkEvent(WebLinkEvent::Code::cppFunctionCalled, id, functionName, paramData));
                 }
                 catch (const std::out_of_range& e) {
-- 
2.43.0


From 6bee12a6fe25ad52be3a2a26c4cc9c5bb32b5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:45 +0000
Subject: [PATCH 29/36] fix: encode every size in BASE64

Inputs of less than two bytes were read (and written) out of bounds, multiples of three bytes got a
trailing NUL character.
---
 include/http/Encodings.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 44ab149..4295137 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -111,10 +111,10 @@ namespace detail {
                                     'W', 'X', 'Y', 'Z', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r',
                                     's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '+', '/'};
 
-    std::string output((4 * (size + 2) / 3), '\0');
+    std::string output(4 * ((size + 2) / 3), '\0');
     auto coded = output.begin();
     size_t i = 0;
-    for (; i < size - 2; i += 3) {
+    for (; i + 2 < size; i += 3) {
         *coded++ = code[(input[i] >> 2) & 0x3Fu];
         *coded++ = code[((input[i] & 0x3u) << 4) | ((input[i + 1] & 0xF0u) >> 4)];
         *coded++ = code[((input[i + 1] & 0xFu) << 2) | ((input[i + 2] & 0xC0u) >> 6)];
@@ -132,7 +132,6 @@ namespace detail {
         }
         *coded++ = '=';
     }
-    if (coded != output.end()) output.erase(coded);
 
     return output;
 }
-- 
2.43.0


From d621673c866c7423a7eb67c33415886f78a50b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:05 +0000
Subject: [PATCH 30/36] fix: classify the characters above 127 safely

Negative chars were given to the <cctype> functions, and used as an index by uri::encode().
---
 include/http/Encodings.hpp  | 7 ++++---
 include/http/HTTPServer.hpp | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/http/Encodings.hpp b/include/http/Encodings.hpp
index 4295137..8beedd6 100644
--- a/include/http/Encodings.hpp
+++ b/include/http/Encodings.hpp
@@ -21,9 +21,9 @@ namespace uri {
 [[nodiscard]] inline std::string encode(std::string_view uri) {
     std::string encoded;
     static std::array digits{'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B', 'C', 'D', 'E', 'F'};
-    for (auto c : uri) {
+    for (unsigned char c : uri) {
         if (std::isalnum(c) || c == '-' || c == '_' || c == '.' || c == '~')
-            encoded += c;
+            encoded += static_cast<char>(c);
         else {
             encoded += "%";
             encoded += digits[static_cast<size_t>(c >> 4)];
@@ -37,9 +37,10 @@ namespace uri {
     std::string decoded;
     decoded.reserve(uri.size());
     for (std::size_t index = 0; index < uri.size(); ++index) {
+        auto isHex = [](char c) { return std::isxdigit(static_cast<unsigned char>(c)) != 0; };
         switch (uri[index]) {
         case '%':
-            if (index + 3 <= uri.size() && std::isxdigit(uri[index + 1]) && std::isxdigit(uri[index + 2])) {
+            if (index + 3 <= uri.size() && isHex(uri[index + 1]) && isHex(uri[index + 2])) {
                 auto hexToValue = [](char c) -> uint8_t {
                     if (c >= '0' && c <= '9') return uint8_t(c - '0');
                     if (c >= 'A' && c <= 'F') return uint8_t(c - 'A' + 10);
diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index db7ecf2..b10ffb0 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -53,7 +53,7 @@ public:
     /// @return true if text is contained in the value field of headerName (case insensitive)
     [[nodiscard]] bool headersContain(std::string_view headerName, std::string_view text) const {
         for (auto header : getHeadersValues(headerName)) {
-            if (std::search(header.cbegin(), header.cend(), text.cbegin(), text.cend(), [](char c1, char c2) {
+            if (std::search(header.cbegin(), header.cend(), text.cbegin(), text.cend(), [](unsigned char c1, unsigned char c2) {
                     return (c1 == c2 || std::toupper(c1) == std::toupper(c2));
                 }) != header.cend())
                 return true;
@@ -65,7 +65,7 @@ public:
 
 private:
     [[nodiscard]] static constexpr bool caseInsensitiveEqual(std::string_view s1, std::string_view s2) {
-        return ((s1.size() == s2.size()) && std::equal(s1.begin(), s1.end(), s2.begin(), [](char c1, char c2) {
+        return ((s1.size() == s2.size()) && std::equal(s1.begin(), s1.end(), s2.begin(), [](unsigned char c1, unsigned char c2) {
                     return (c1 == c2 || std::toupper(c1) == std::toupper(c2));
                 }));
     }
-- 
2.43.0


From 29fff1d4263ad0dab5ca489c6dd63b18be662a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:24 +0000
Subject: [PATCH 31/36] fix: read embedded files by chunks of any size

A read starting in the middle of a 64-bit word returned the bytes of an uninitialized variable.
---
 include/system/FileSystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/system/FileSystem.hpp b/include/system/FileSystem.hpp
index ea7fed2..143307d 100644
--- a/include/system/FileSystem.hpp
+++ b/include/system/FileSystem.hpp
@@ -73,7 +73,7 @@ private:
         for (size_t index = 0; (index < buffer.size()); ++index) {
             if (eof()) return index;
 
-            if (readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
+            if (index == 0 || readIndex % bytesPerInt == 0) chunk = convert(data[readIndex / bytesPerInt]);
 
             buffer[index] = static_cast<char>(chunk.byte[readIndex % bytesPerInt]);
             readIndex++;
-- 
2.43.0


From 3997f18ca805646db382e4eaae2f3a8b177e0d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 32/36] fix: make buffers of empty strings

front() of an empty string is undefined.
---
 include/networking/BasicNetworking.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/networking/BasicNetworking.hpp b/include/networking/BasicNetworking.hpp
index 6edd8f4..e2d140b 100644
--- a/include/networking/BasicNetworking.hpp
+++ b/include/networking/BasicNetworking.hpp
@@ -101,12 +101,12 @@ public:
 
     template<typename CharT, typename Traits, typename Alloc>
     static MutableBuffer Buffer(std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToMutableBuffer(&d.front(), d.size());
+        return ToMutableBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits, typename Alloc>
     static ConstBuffer Buffer(const std::basic_string<CharT, Traits, Alloc>& d) noexcept {
-        return ToConstBuffer(&d.front(), d.size());
+        return ToConstBuffer(d.data(), d.size());
     }
 
     template<typename CharT, typename Traits>
-- 
2.43.0


From 498b736ba4c5e6407567c9323061d2c8ac31085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 33/36] fix: logging a frame header does not read length bytes
 the chunk may not have

---
 include/http/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index f1cd9eb..7b59a73 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -72,7 +72,7 @@ struct Header {
 
     void dump() const {
         log::debug("FIN:{} RSV1:{} RSV2:{} RSV3:{} opcode:{}", FIN(), RSV1(), RSV2(), RSV3(), static_cast<int>(opcode()));
-        log::debug("-> MASK:{} payloadLenField:{} extendedLenField:{}", MASK(), +payloadLenField(), extendedLenField());
+        log::debug("-> MASK:{} payloadLenField:{} extendedLenField:{}", MASK(), +payloadLenField(), payloadLenField() < 126 ? 0 : extendedLenField());
         auto k = maskingKey();
         log::debug("-> maskingKey:0x{:02x}{:02x}{:02x}{:02x} getPayloadSize:{} headerSize:{}", std::to_integer<int>(k[0]), std::to_integer<int>(k[1]),
                    std::to_integer<int>(k[2]), std::to_integer<int>(k[3]), payloadSize(), headerSize());
-- 
2.43.0


From f6331f3b1e5bec7226c82833f88f896e7fd30516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 34/36] fix: decoding an empty text at the end of a message
 does not index past it

---
 include/weblink/Messages.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/weblink/Messages.hpp b/include/weblink/Messages.hpp
index 1876b5a..4f5cbd6 100644
--- a/include/weblink/Messages.hpp
+++ b/include/weblink/Messages.hpp
@@ -315,7 +315,7 @@ public:
                 if (data.size() < 2u) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
                 auto size = static_cast<size_t>(data[1]);
                 if (data.size() < 2u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[2]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 2), size);
                 data = data.subspan(2 + size);
             }
             else
@@ -328,7 +328,7 @@ public:
                 uint16_t size;
                 copy_n(&data[1], 2, reinterpret_cast<byte*>(&size));
                 if (data.size() < 3u + size) throw runtime_error("Erroneous data feeded to msg::FunctionCall::decodeParameter");
-                param = string(reinterpret_cast<const char*>(&data[3]), size);
+                param = string(reinterpret_cast<const char*>(data.data() + 3), size);
                 data = data.subspan(3 + size);
             }
             else
-- 
2.43.0


From ce6a920d049290e2f54225c4cb53738527fffa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 35/36] fix: a websocket reports its closing to the close
 handler only once

---
 include/http/WebSocket.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/http/WebSocket.hpp b/include/http/WebSocket.hpp
index 7b59a73..8314cd0 100644
--- a/include/http/WebSocket.hpp
+++ b/include/http/WebSocket.hpp
@@ -304,7 +304,7 @@ private:
                 }
                 if (started) read();
             }
-            else {
+            else if (started) {
                 log::error("Error in websocket::read() : {}:{}", ec.value(), ec.message());
                 if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
                 stop();
@@ -327,7 +327,7 @@ private:
                 if (started) {
                     log::error("Error during write : ec.value() = {}", ec.value());
                     if (closeHandler) closeHandler(CloseEvent{static_cast<uint16_t>(ec.value()), ec.message()});
-                    if (ec != Net::Error::OperationAborted) stop();
+                    stop();
                 }
             }
         });
-- 
2.43.0


From 9b68a9f0df6cf37475132a5f204551e2987a32b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 36/36] fix: a client that disconnects before the shutdown of
 its connection does not stop the server

---
 include/http/HTTPServer.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/http/HTTPServer.hpp b/include/http/HTTPServer.hpp
index b10ffb0..1cb3f91 100644
--- a/include/http/HTTPServer.hpp
+++ b/include/http/HTTPServer.hpp
@@ -22,6 +22,7 @@
 #include <set>
 #include <string>
 #include <string_view>
+#include <system_error>
 #include <vector>
 
 namespace webfront::http {
@@ -417,7 +418,14 @@ private:
                 connections.stop(self);
             }
             else {
-                if (!ec) socket.shutdown(Net::Socket::shutdown_both);
+                if (!ec) {
+                    try {
+                        socket.shutdown(Net::Socket::shutdown_both);
+                    }
+                    catch (const std::system_error& e) { // the client may already have disconnected
+                        log::debug("Error during shutdown : {}", e.what());
+                    }
+                }
                 if (ec != Net::Error::OperationAborted) connections.stop(self);
             }
         });
-- 
2.43.0

