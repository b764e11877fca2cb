From 54074fe6a4ad61748f39d75ff500edb8ee16f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 001/107] fix: read pipelined and fragmented HTTP requests
 correctly

awaitNext() waited for new bytes even when the next request was already
buffered, subtracted the buffered size from the body size without checking
for underflow, expected the rest of the body from a single recv() call and
used an iterator invalidated by erase() to compute the request size.
---
 core/http/transport_v1.cpp | 63 ++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 19 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 28b5d39..5647d77 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -22,6 +22,8 @@ static const std::map<ContentEncodings, std::string> contentEncodingMap = {
 	{ ContentEncodings::Deflate, "deflate" },
 };
 
+static const size_t bodyReadChunk = 64 * 1024;
+
 static const std::initializer_list<std::string> compressibleTypes = {
 	"text", "html", "json", "xml", "javascript"
 };
@@ -42,27 +44,49 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	static const std::string patternEndHeader = "\r\n\r\n";
-	auto headerEnded = this->m_readbuff.end();
 
-	while (this->m_conn.isOpen() && headerEnded == this->m_readbuff.end()) {
+	//	a complete header could've been already received with the previous request
+	size_t headerSize = 0;
+	size_t searchFrom = 0;
 
-		auto newBytes = this->m_conn.read();
-		if (!newBytes.size()) break;
+	while (true) {
 
-		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
-		headerEnded = std::search(this->m_readbuff.begin(), this->m_readbuff.end(), patternEndHeader.begin(), patternEndHeader.end());
+		const auto headerEnded = std::search(
+			this->m_readbuff.begin() + searchFrom, this->m_readbuff.end(),
+			patternEndHeader.begin(), patternEndHeader.end()
+		);
+
+		if (headerEnded != this->m_readbuff.end()) {
+			headerSize = std::distance(this->m_readbuff.begin(), headerEnded) + patternEndHeader.size();
+		}
 
-		if (this->m_readbuff.size() > this->m_topts.maxRequestSize) {
+		if ((headerSize ? headerSize : this->m_readbuff.size()) > this->m_topts.maxRequestSize) {
 			throw ProtocolError("Request header too large", 413);
 		}
+
+		if (headerSize || !this->m_conn.isOpen()) break;
+
+		//	the pattern itself can be split between two chunks
+		searchFrom = this->m_readbuff.size() < patternEndHeader.size() ?
+			0 : this->m_readbuff.size() - patternEndHeader.size() + 1;
+
+		const auto newBytes = this->m_conn.read();
+		if (!newBytes.size()) break;
+
+		this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
 	}
 
-	if (!this->m_readbuff.size() || headerEnded == this->m_readbuff.end()) {
+	if (!headerSize) {
 		return false;
 	}
 
-	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerEnded), "\r\n");
-	this->m_readbuff.erase(this->m_readbuff.begin(), headerEnded + patternEndHeader.size());
+	const auto headerTextEnd = this->m_readbuff.begin() + (headerSize - patternEndHeader.size());
+	auto headerFields = Strings::split(std::string(this->m_readbuff.begin(), headerTextEnd), "\r\n");
+	this->m_readbuff.erase(this->m_readbuff.begin(), this->m_readbuff.begin() + headerSize);
+
+	if (!headerFields.size()) {
+		throw ProtocolError("Invalid HTTP request");
+	}
 
 	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
 	if (headerStartLine.size() < 2) {
@@ -180,21 +204,22 @@ bool TransportContextV1::awaitNext() {
 
 	if (bodySize) {
 
-		const auto totalRequestSize = std::distance(this->m_readbuff.begin(), headerEnded) + bodySize;
-
-		if (totalRequestSize > this->m_topts.maxRequestSize) {
+		if (bodySize > this->m_topts.maxRequestSize - headerSize) {
 			throw ProtocolError("Total request size is too large", 413);
 		}
 
-		auto bodyRemaining = bodySize - this->m_readbuff.size();
-		if (bodyRemaining) {
-	
-			auto temp = this->m_conn.read(bodyRemaining);
-			if (temp.size() != bodyRemaining) {
+		//	the body can arrive in any number of segments,
+		//	and the buffer can already have some of it (or even more than that)
+		while (this->m_readbuff.size() < bodySize) {
+
+			const auto chunkSize = std::min(bodySize - this->m_readbuff.size(), bodyReadChunk);
+			const auto newBytes = this->m_conn.isOpen() ? this->m_conn.read(chunkSize) : std::vector<uint8_t>();
+
+			if (!newBytes.size()) {
 				throw NetworkError("Incomplete request body");
 			}
 
-			this->m_readbuff.insert(this->m_readbuff.end(), temp.begin(), temp.end());
+			this->m_readbuff.insert(this->m_readbuff.end(), newBytes.begin(), newBytes.end());
 		}
 
 		next.body = std::vector<uint8_t>(this->m_readbuff.begin(), this->m_readbuff.begin() + bodySize);
-- 
2.43.0


From 7a4b5f23b901cb207ae23e52edf482196cd77ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 002/107] fix: make query parameters with uppercase names or
 question marks reachable

Parameter names were stored as they are while every lookup lowercases the
name, and everything before the last question mark was dropped.
---
 core/http/transport_v1.cpp    | 7 +++----
 core/http/urlsearchparams.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 5647d77..0a1ed7b 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -132,10 +132,9 @@ bool TransportContextV1::awaitNext() {
 		(pathnameEndPos ? requestUrlString.substr(0, pathnameEndPos) : "/");
 
 	if (urlSearchPos != std::string::npos) {
-		auto trimSize = urlHashPos != std::string::npos ? (urlHashPos - urlSearchPos - 1) : 0;
-		next.url.searchParams = trimSize ?
-			requestUrlString.substr(urlSearchPos + 1, trimSize) :
-			requestUrlString.substr(urlSearchPos + 1);
+		//	passing it with the question mark as the query itself can have more of them
+		next.url.searchParams = requestUrlString.substr(urlSearchPos, urlHashPos != std::string::npos ?
+			urlHashPos - urlSearchPos : std::string::npos);
 	}
 
 	const auto hostHeader = next.headers.get("host");
diff --git a/core/http/urlsearchparams.cpp b/core/http/urlsearchparams.cpp
index 67baeb4..f60c3cd 100644
--- a/core/http/urlsearchparams.cpp
+++ b/core/http/urlsearchparams.cpp
@@ -5,7 +5,8 @@ using namespace Lambda::HTTP;
 
 URLSearchParams::URLSearchParams(const std::string& queries) {
 
-	auto qmark = queries.find_last_of('?');
+	//	only the first question mark starts the query, all others are a part of it
+	auto qmark = queries.find('?');
 	auto entries = Strings::split(qmark != std::string::npos ? queries.substr(qmark + 1) : queries, '&');
 	
 	for (const auto& entry : entries) {
@@ -18,6 +19,8 @@ URLSearchParams::URLSearchParams(const std::string& queries) {
 
 		if (!key.size() || !value.size()) continue;
 
+		//	all the lookups are case-insensitive so the keys must be normalized too
+		Strings::toLowerCase(key);
 		this->m_data[key] = { value };
 	}
 }
-- 
2.43.0


From e722fc72c376cae0ad43b5619a696ebd8bc2740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 003/107] fix: announce and perform connection persistence
 consistently

With reuseConnections disabled and after protocol errors the announced state
didn't match what was done with the connection, and the connection header
value was compared case-sensitively.
---
 core/http/transport_v1.cpp | 7 +++++--
 core/server/worker.cpp     | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 0a1ed7b..9fb8119 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -166,7 +166,7 @@ bool TransportContextV1::awaitNext() {
 
 	if (this->m_topts.reuseConnections) {
 
-		const auto connectionHeader = next.headers.get("connection");
+		const auto connectionHeader = Strings::toLowerCase(next.headers.get("connection"));
 
 		switch (this->m_keepalive) {
 
@@ -182,6 +182,9 @@ bool TransportContextV1::awaitNext() {
 			
 			default: break;
 		}
+
+	} else {
+		this->m_keepalive = KeepAliveStatus::Close;
 	}
 
 	auto acceptEncodingHeader = next.headers.get("accept-encoding");
@@ -324,7 +327,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	responseHeaders.set("x-request-id", this->m_id.toString() + '-' + responsectx.id.toString());
 
 	//	set connection header to acknowledge keep-alive mode
-	const auto responseConnectionHeader = responseHeaders.get("connection");
+	const auto responseConnectionHeader = Strings::toLowerCase(responseHeaders.get("connection"));
 	if (responseConnectionHeader.size()) {
 		this->m_keepalive = Strings::includes(responseConnectionHeader, "close") ?
 			KeepAliveStatus::Close : KeepAliveStatus::KeepAlive;
diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 17aad3d..9c9d8e3 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -43,12 +43,14 @@ void Server::connectionWorker(
 			return;
 		}
 
-		const auto errorResponse = Pages::renderErrorPage(
+		auto errorResponse = Pages::renderErrorPage(
 			error.respondStatus.value(),
 			error.message(),
 			config.errorResponseType
 		);
 
+		errorResponse.headers.set("connection", "close");
+
 		try {
 
 			//	Request ID is generated here.
-- 
2.43.0


From ab9efa88d72f5da0a694ea94065caf3e8bb694cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 004/107] fix: compress only what the request accepts and the
 handler didn't encode

The encoding of an earlier request was kept for later ones on the same
connection, bodies with a handler-provided content-encoding were encoded
again, and empty bodies (of a 101 or 204 response too) got encoder output.
---
 core/http/transport_v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 9fb8119..84ddee1 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -187,6 +187,9 @@ bool TransportContextV1::awaitNext() {
 		this->m_keepalive = KeepAliveStatus::Close;
 	}
 
+	//	content encoding is negotiated for each request separately
+	this->m_compress = ContentEncodings::None;
+
 	auto acceptEncodingHeader = next.headers.get("accept-encoding");
 	if (this->m_topts.useCompression && acceptEncodingHeader.size()) {
 
@@ -289,6 +292,11 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 		std::vector<uint8_t> responseBodyBuffer;
 		const auto& responseBody = responsectx.response.body.buffer();
 
+		//	don't touch empty bodies and the ones that are already encoded by the handler
+		if (!responseBody.size() || responseHeaders.has("content-encoding")) {
+			applyEncoding = ContentEncodings::None;
+		}
+
 		switch (applyEncoding) {
 
 			case ContentEncodings::Brotli: {
-- 
2.43.0


From 1337325100e82cb819ab7c01bf949518e7372e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 005/107] fix: don't send a body in response to HEAD requests

---
 core/http/transport_impl.hpp | 1 +
 core/http/transport_v1.cpp   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_impl.hpp b/core/http/transport_impl.hpp
index 756c7a0..8c9a7b5 100644
--- a/core/http/transport_impl.hpp
+++ b/core/http/transport_impl.hpp
@@ -28,6 +28,7 @@ namespace Lambda::HTTP::Transport {
 			KeepAliveStatus m_keepalive = KeepAliveStatus::Unknown;
 			ContentEncodings m_compress = ContentEncodings::None;
 			IncomingRequest* m_next = nullptr;
+			bool m_omitBody = false;
 
 		public:
 			TransportContextV1(Network::TCP::Connection& connInit, const TransportOptions& optsInit);
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 84ddee1..dc803f7 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -250,6 +250,8 @@ IncomingRequest TransportContextV1::nextRequest() {
 	delete this->m_next;
 	this->m_next = nullptr;
 
+	this->m_omitBody = tempNext.request.method == Methods::HEAD;
+
 	return tempNext;
 }
 
@@ -378,7 +380,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize) this->m_conn.write(responseBodyBuffer);
+	if (bodyBufferSize && !this->m_omitBody) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From 934607e88719ea9152a7eebe0c1496e208da1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 006/107] fix: don't let SIGPIPE kill the process when a client
 disconnects

---
 core/network/sysnetw.hpp        | 3 +++
 core/network/tcp/connection.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/network/sysnetw.hpp b/core/network/sysnetw.hpp
index 00e1a83..9a4f105 100644
--- a/core/network/sysnetw.hpp
+++ b/core/network/sysnetw.hpp
@@ -16,6 +16,9 @@
 		#include <ws2tcpip.h>
 		#include <stdexcept>
 
+		//	there's no SIGPIPE on windows
+		#define MSG_NOSIGNAL	(0)
+
 		#define GetOSErrorCode() (static_cast<int32_t>(GetLastError()))
 
 		inline bool wsaWakeUp() {
diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 16e45de..8005f9e 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -74,7 +74,7 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), 0);
+	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
 
 	if (static_cast<size_t>(bytesSent) != data.size())
 		throw NetworkError("Network error while writing data");
-- 
2.43.0


From 42581d24a192d30b4ad1451611f5974466be3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 007/107] fix: don't access empty strings out of bounds in
 Strings::trim

---
 core/polyfill/strings.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index a9cd738..42fd381 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -66,6 +66,9 @@ bool Strings::startsWith(const std::string& str, const std::string& substr) {
 
 void Strings::trim(std::string& str) {
 
+	//	there's nothing to trim in an empty string
+	if (!str.size()) return;
+
 	//	list of characters to remove
 	static const std::set<char> whitespaceChars = { '\r', '\n', '\t', ' ' };
 
-- 
2.43.0


From d1e7e3a90fe056daa79985d398e43967a47a1193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 008/107] fix: check the actual end of the string in
 Strings::endsWith

---
 core/polyfill/strings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 42fd381..78299c9 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -58,7 +58,7 @@ bool Strings::includes(const std::string& str, const std::vector <std::string>&
 }
 
 bool Strings::endsWith(const std::string& str, const std::string& substr) {
-	return str.find(substr) == (str.size() - substr.size());
+	return str.size() >= substr.size() && str.compare(str.size() - substr.size(), substr.size(), substr) == 0;
 }
 bool Strings::startsWith(const std::string& str, const std::string& substr) {
 	return str.find(substr) == 0;
-- 
2.43.0


From 85b52a0454d512228fba159f6fdd432546e7a715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 009/107] fix: keep leading empty items in Strings::join

---
 core/polyfill/strings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 78299c9..3ac0dfb 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -152,9 +152,9 @@ std::string Strings::join(const std::vector<std::string>& strs, const char* toke
 
 	std::string result;
 
-	for(auto& str : strs) {
-		if (result.size() > 0) result += token;
-		result += str;
+	for (size_t i = 0; i < strs.size(); i++) {
+		if (i > 0) result += token;
+		result += strs[i];
 	}
 
 	return result;
-- 
2.43.0


From dd95da1edbf43b5537376d0efd76f1069e19f9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 010/107] fix: don't loop forever replacing an empty substring
 in Strings::replaceAll

---
 core/polyfill/strings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 3ac0dfb..0cab475 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -173,6 +173,10 @@ std::string Strings::replace(const std::string& base, const std::string& sub, co
 }
 
 void Strings::replaceAll(std::string& base, const std::string& sub, const std::string& replacement) {
+
+	//	an empty substring matches everywhere, so it would never end
+	if (!sub.size()) return;
+
 	size_t index = base.find(sub);
 	while (index != std::string::npos) {
 		base.replace(index, sub.size(), replacement);
-- 
2.43.0


From 12d34f459f640690866eeb7f0cbd71e45e88e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 011/107] fix: don't access memory out of bounds decoding empty
 and unpadded base64

---
 core/encoding/base64.cpp | 53 +++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/core/encoding/base64.cpp b/core/encoding/base64.cpp
index 7b50fad..1baa68a 100644
--- a/core/encoding/base64.cpp
+++ b/core/encoding/base64.cpp
@@ -43,18 +43,31 @@ static const uint8_t base64DecodeTable[] = {
 
 std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 
+	//	padding can only be present at the end of the last block
+	size_t paddLength = 0;
+	while (paddLength < 2 && paddLength < data.size() && data[data.size() - paddLength - 1] == '=') {
+		paddLength++;
+	}
+
+	const size_t encodedSize = data.size() - paddLength;
+	const size_t incompleteBlockSize = encodedSize % 4;
+
+	if ((paddLength && data.size() % 4) || incompleteBlockSize == 1) {
+		throw std::runtime_error("Invalid base64 sequence length");
+	}
+
 	//	check base64 string validity real quick
-	for (size_t i = 0; i < data.size(); i++) {
-		auto symbol = data[i];
-		if (!isalnum(symbol) && symbol != '+' && symbol != '/' && symbol != '=')
+	for (size_t i = 0; i < encodedSize; i++) {
+		const auto symbol = static_cast<uint8_t>(data[i]);
+		if (!isalnum(symbol) && symbol != '+' && symbol != '/')
 			throw std::runtime_error("Invalid symbol in base64 sequence at position " + std::to_string(i));
 	}
 
-	size_t encodedCompleteBlocks = ((data.size() / 4) * 4);
-	size_t outputCompleteBlocks = ((data.size() / 4) * 3);
+	const size_t encodedCompleteBlocks = encodedSize - incompleteBlockSize;
+	const size_t outputCompleteBlocks = (encodedCompleteBlocks / 4) * 3;
 
 	std::vector<uint8_t> result;
-	result.resize(outputCompleteBlocks);
+	result.resize(outputCompleteBlocks + (incompleteBlockSize ? incompleteBlockSize - 1 : 0));
 
 	for (size_t encIdx = 0, dataIdx = 0; encIdx < encodedCompleteBlocks; encIdx += 4, dataIdx += 3) {
 		decB1(result, dataIdx, data[encIdx], data[encIdx + 1]);
@@ -62,34 +75,14 @@ std::vector<uint8_t> Encoding::fromBase64(const std::string& data) {
 		decB3(result, dataIdx, data[encIdx + 2], data[encIdx + 3]);
 	}
 
-	size_t incompleteBlockSize = (data.size() - encodedCompleteBlocks);
-
-	if (incompleteBlockSize > 0) {
-
-		result.resize(result.size() + 1);
-
-		if (incompleteBlockSize == 3) {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
-		} else if (incompleteBlockSize == 2) {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
-			decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], 0);
-		} else {
-			decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], 0);
-		}
-
-		return result;
+	if (incompleteBlockSize > 1) {
+		decB1(result, outputCompleteBlocks, data[encodedCompleteBlocks], data[encodedCompleteBlocks + 1]);
 	}
 
-	uint8_t paddLength = 0;
-	for (uint8_t i = 1; i <= 2; i++) {
-		if (data[data.size() - i] == '=')
-			paddLength++;
+	if (incompleteBlockSize > 2) {
+		decB2(result, outputCompleteBlocks, data[encodedCompleteBlocks + 1], data[encodedCompleteBlocks + 2]);
 	}
 
-	if (paddLength > 0) 
-		result.resize(result.size() - paddLength);
-
 	return result;
 }
 
-- 
2.43.0


From 6bb46c3deba701aa36dc808084a825eabad7a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 012/107] fix: reject non-hex characters decoding hex strings

---
 core/encoding/hex.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/encoding/hex.cpp b/core/encoding/hex.cpp
index 800fda2..c496a5c 100644
--- a/core/encoding/hex.cpp
+++ b/core/encoding/hex.cpp
@@ -41,9 +41,11 @@ uint8_t Encoding::hexToByte(HexByte hexbyte) {
 	HexByte temp;
 
 	for (size_t i = 0; i < 2; i++) {
-		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
-		if (charcode >= (int)sizeof(hex_decode_table) || charcode < 0)
+
+		if (!isxdigit(static_cast<uint8_t>(hexbyte.string[i])))
 			throw std::runtime_error("Invalid character in hex string" + std::string(hexbyte.string));
+
+		int charcode = hexbyte.string[i] - (hexbyte.string[i] > 0x5a ? 0x50 : 0x30);
 		temp.string[i] = hex_decode_table[charcode];
 	}
 
-- 
2.43.0


From 916fc85fb140a0aa2a987c6399fa6a32a8b5117f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 013/107] fix: escape control and non-ascii characters in
 encodeURIComponent

---
 core/encoding/url.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/encoding/url.cpp b/core/encoding/url.cpp
index 9051e05..d8f1a5d 100644
--- a/core/encoding/url.cpp
+++ b/core/encoding/url.cpp
@@ -18,7 +18,10 @@ std::string Encoding::encodeURIComponent(const std::string& input) {
 
 	for (auto symbol : input) {
 
-		if (escapeChars.contains(symbol)) {
+		//	control and non-ascii characters must always be escaped
+		const auto charcode = static_cast<uint8_t>(symbol);
+
+		if (charcode < 0x20 || charcode > 0x7E || escapeChars.contains(symbol)) {
 			result.push_back('%');
 			result.append(byteToHex(symbol).string);
 			continue;
-- 
2.43.0


From 059fed7f218e8fbb056e6a92e3c70e9eae5042f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 014/107] fix: parse basic auth credentials exactly and ignore
 malformed ones

---
 core/http/auth.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index fe1e612..866ca09 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -8,28 +8,35 @@ using namespace Lambda::HTTP::Auth;
 
 std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header) {
 
-	if (!Strings::includes(Strings::toLowerCase(header), "basic")) {
+	static const std::string schemePrefix = "basic ";
+
+	if (!Strings::startsWith(Strings::toLowerCase(header), schemePrefix)) {
 		return std::nullopt;
 	}
 
-	const auto authStringStart = header.find_last_of(' ');
-	if (authStringStart == std::string::npos) {
+	const auto authString = Strings::trim(header.substr(schemePrefix.size()));
+	if (!authString.size()) {
 		return std::nullopt;
 	}
 
-	const auto authString = header.substr(authStringStart + 1);
-	if (!authString.size()) {
+	std::vector<uint8_t> authStringDecoded;
+
+	try {
+		authStringDecoded = Encoding::fromBase64(authString);
+	} catch (...) {
 		return std::nullopt;
 	}
 
-	const auto authStringDecoded = Encoding::fromBase64(authString);
-	const auto authComponents = Strings::split(std::string(authStringDecoded.begin(), authStringDecoded.end()), ":");
-	if (authComponents.size() < 2) {
+	const auto authText = std::string(authStringDecoded.begin(), authStringDecoded.end());
+
+	//	a password can have colons too, a username can't
+	const auto separator = authText.find(':');
+	if (separator == std::string::npos) {
 		return std::nullopt;
 	}
 
 	return BasicCredentials {
-		authComponents[0],
-		authComponents[1]
+		authText.substr(0, separator),
+		authText.substr(separator + 1)
 	};
 }
-- 
2.43.0


From acc704e87e132edac98692e2be4d0bbc3cc1b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 015/107] fix: refuse requests with invalid content length

---
 core/http/transport_v1.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index dc803f7..482d84b 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -10,6 +10,8 @@
 
 #include <set>
 #include <algorithm>
+#include <limits>
+#include <optional>
 
 using namespace Lambda;
 using namespace Lambda::HTTP;
@@ -204,8 +206,25 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
-	auto bodySizeHeader = next.headers.get("content-length");
-	size_t bodySize = bodySizeHeader.size() ? std::stoull(bodySizeHeader) : 0;
+	size_t bodySize = 0;
+	std::optional<std::string> bodySizeHeader;
+
+	for (const auto& item : next.headers.getAll("content-length")) {
+
+		const auto isNumber = std::all_of(item.begin(), item.end(), [](char c) { return c >= '0' && c <= '9'; });
+
+		if (!isNumber || bodySizeHeader.value_or(item) != item) {
+			throw ProtocolError("Invalid content length", 400);
+		}
+
+		//	a number this long wouldn't fit into size_t
+		if (item.size() > std::numeric_limits<size_t>::digits10) {
+			throw ProtocolError("Total request size is too large", 413);
+		}
+
+		bodySizeHeader = item;
+		bodySize = std::stoull(item);
+	}
 
 	if (bodySize) {
 
-- 
2.43.0


From 5c80907fdb4b667434461c8eea17e8e2f332a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 016/107] fix: refuse requests with transfer encodings instead
 of parsing their bodies as requests

---
 core/http/transport_v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 482d84b..242f6e8 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -206,6 +206,11 @@ bool TransportContextV1::awaitNext() {
 		}
 	}
 
+	//	it's impossible to tell where a request body in an unknown encoding ends
+	if (next.headers.has("transfer-encoding")) {
+		throw ProtocolError("Transfer encoding is not supported", 501);
+	}
+
 	size_t bodySize = 0;
 	std::optional<std::string> bodySizeHeader;
 
-- 
2.43.0


From b0a2340a9b7a8c6ec43d9d23579f5f0942ca799c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 017/107] fix: escape strings and property names when
 serializing JSON as the format requires

---
 core/json/stringify.cpp | 63 +++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index 3049991..ec497f3 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -1,4 +1,5 @@
 #include "./json.hpp"
+#include "../encoding/encoding.hpp"
 
 #include <map>
 #include <stdexcept>
@@ -7,12 +8,43 @@ using namespace Lambda;
 using namespace Lambda::JSON;
 
 static const std::map<char, std::string> stringEscapeTable = {
-	{ '\n', "\\\\n" },
-	{ '\r', "\\\\r" },
-	{ '\t', "\\\\t" },
-	{ '\"', "\\\"" }
+	{ '\n', "\\n" },
+	{ '\r', "\\r" },
+	{ '\t', "\\t" },
+	{ '\b', "\\b" },
+	{ '\f', "\\f" },
+	{ '\"', "\\\"" },
+	{ '\\', "\\\\" }
 };
 
+static std::string stringifyText(const std::string& text) {
+
+	std::string temp = "\"";
+	temp.reserve(text.size() + 2);
+
+	for (auto symbol : text) {
+
+		auto escaped = stringEscapeTable.find(symbol);
+		if (escaped != stringEscapeTable.end()) {
+			temp.append(escaped->second);
+			continue;
+		}
+
+		//	the rest of control characters don't have short escape sequences
+		const auto charcode = static_cast<uint8_t>(symbol);
+		if (charcode < 0x20) {
+			temp.append("\\u00").append(Encoding::byteToHex(charcode).string);
+			continue;
+		}
+
+		temp.push_back(symbol);
+	}
+
+	temp.push_back('\"');
+
+	return temp;
+}
+
 std::string JSON::stringify(const Property& data) {
 
 	switch (data.type()) {
@@ -26,25 +58,8 @@ std::string JSON::stringify(const Property& data) {
 		case JSTypes::Boolean:
 			return data.asBool() ? "true" : "false";
 
-		case JSTypes::String: {
-
-			auto textcontent = data.asString();
-			std::string temp;
-			temp.reserve(textcontent.size());
-
-			for (auto symbol : textcontent) {
-
-				auto escaped = stringEscapeTable.find(symbol);
-				if (escaped != stringEscapeTable.end()) {
-					temp.append(escaped->second);
-					continue;
-				}
-
-				temp.push_back(symbol);
-			}
-
-			return '\"' + temp + '\"';
-		}
+		case JSTypes::String:
+			return stringifyText(data.asString());
 
 		case JSTypes::Null:
 			return "null";
@@ -67,7 +82,7 @@ std::string JSON::stringify(const Property& data) {
 
 			for (const auto& entry : data.asMap()) {
 				if (temp.size()) temp.push_back(',');
-				temp.append('\"' + entry.first + "\":");
+				temp.append(stringifyText(entry.first) + ':');
 				temp.append(stringify(entry.second));
 			}
 
-- 
2.43.0


From c62883c7c13c5f02e9bafc5265e9f78efcddedf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 018/107] fix: release the previous value when assigning JSON
 properties

---
 core/json/json.hpp     |  2 +-
 core/json/property.cpp | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/json/json.hpp b/core/json/json.hpp
index 15c6ea2..806bdab 100644
--- a/core/json/json.hpp
+++ b/core/json/json.hpp
@@ -58,7 +58,7 @@ namespace Lambda::JSON {
 
 			Property(const Property& other);
 			Property(Property&& other);
-			Property operator=(const Property& other);
+			Property& operator=(const Property& other);
 
 			JSTypes type() const;
 			bool isUndefined() const;
diff --git a/core/json/property.cpp b/core/json/property.cpp
index ea9bcce..9dc8961 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -1,6 +1,7 @@
 #include "./json.hpp"
 
 #include <stdexcept>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -91,8 +92,19 @@ Property::Property(Property&& other) {
 	this->clone(other);
 }
 
-Property Property::operator=(const Property& other) {
-	this->clone(other);
+Property& Property::operator=(const Property& other) {
+
+	//	making a copy first as the other value can be a part of this one
+	Property temp(other);
+
+	std::swap(this->internalType, temp.internalType);
+	std::swap(this->internalDataFloat, temp.internalDataFloat);
+	std::swap(this->internalDataInt, temp.internalDataInt);
+	std::swap(this->internalDataBool, temp.internalDataBool);
+	std::swap(this->internalDataStr, temp.internalDataStr);
+	std::swap(this->internalDataArray, temp.internalDataArray);
+	std::swap(this->internalDataMap, temp.internalDataMap);
+
 	return *this;
 }
 
-- 
2.43.0


From 85ee8ee6a31d7fce351cad7553ae69cae25751f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 019/107] fix: parse JSON strings, escapes, numbers and empty
 containers as the format requires

---
 core/json/parse.cpp | 205 +++++++++++++++++++++++++++++++++++++-------
 1 file changed, 174 insertions(+), 31 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 52593b5..dcd96b6 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -2,43 +2,174 @@
 #include "../../core/polyfill/polyfill.hpp"
 
 #include <array>
+#include <map>
 #include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
 
-static const std::array<std::pair<std::string, std::string>, 4> stringUnescapeTable = {
-	std::make_pair("\\\\n", "\n"),
-	std::make_pair("\\\\r", "\r"),
-	std::make_pair("\\\\t", "\t"),
-	std::make_pair("\\\"", "\"")
+//	limits recursion so that a document can't cause a stack overflow
+static const size_t maxNestingDepth = 512;
+
+static const std::map<char, char> stringUnescapeTable = {
+	{ 'n', '\n' },
+	{ 'r', '\r' },
+	{ 't', '\t' },
+	{ 'b', '\b' },
+	{ 'f', '\f' },
+	{ '/', '/' },
+	{ '\"', '\"' },
+	{ '\\', '\\' }
 };
 
-Property JSON::parse(const std::string& text) {
+/**
+ * Finds a double quote that closes the string opened at a given position
+*/
+static size_t findStringEnd(const std::string& text, size_t openPos) {
 
-	auto objectText = Strings::trim(text);
-	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
+	size_t backslashes = 0;
 
-	auto isArray = objectText.starts_with('[');
+	for (size_t i = openPos + 1; i < text.size(); i++) {
 
-	if (!isArray && !objectText.starts_with('{')) {
-		
-		if (objectText.starts_with('\"')) {
+		if (text[i] == '\\') {
+			backslashes++;
+			continue;
+		}
+
+		if (text[i] == '\"' && backslashes % 2 == 0) {
 
-			auto textcontent = objectText.substr(1, objectText.size() - 2);
+			if (!backslashes) return i;
 
-			auto illegalQuotePos = textcontent.find('\"');
+			//	double escaped quotes are tolerated as long as there's something else in the string
+			const auto next = text.find_first_not_of(" \t\r\n", i + 1);
+			if (next == std::string::npos || std::string(",:]}").find(text[next]) != std::string::npos) {
+				return i;
+			}
+		}
 
-			if (illegalQuotePos != std::string::npos && (illegalQuotePos == 0 || textcontent.at(illegalQuotePos - 1) != '\\'))
-				throw std::runtime_error("Invalid JSON: unescaped double quote");
+		backslashes = 0;
+	}
+
+	throw std::runtime_error("Invalid JSON: unterminated string");
+}
 
-			for (const auto& symbol : stringUnescapeTable)
-				Strings::replaceAll(textcontent, symbol.first, symbol.second);
+static uint32_t parseUnicodeEscape(const std::string& text, size_t pos) {
 
-			return Property(textcontent);
+	uint32_t result = 0;
+
+	for (size_t i = pos; i < pos + 4; i++) {
+
+		const auto digit = i < text.size() ? text[i] : '\0';
+
+		if (digit >= '0' && digit <= '9') result = (result << 4) | (digit - '0');
+		else if (digit >= 'a' && digit <= 'f') result = (result << 4) | (digit - 'a' + 10);
+		else if (digit >= 'A' && digit <= 'F') result = (result << 4) | (digit - 'A' + 10);
+		else throw std::runtime_error("Invalid JSON: invalid unicode escape sequence");
+	}
+
+	return result;
+}
+
+static void appendUtf8(std::string& text, uint32_t codepoint) {
+
+	if (codepoint < 0x80) {
+		text.push_back(codepoint);
+	} else if (codepoint < 0x800) {
+		text.push_back(0xC0 | (codepoint >> 6));
+		text.push_back(0x80 | (codepoint & 0x3F));
+	} else if (codepoint < 0x10000) {
+		text.push_back(0xE0 | (codepoint >> 12));
+		text.push_back(0x80 | ((codepoint >> 6) & 0x3F));
+		text.push_back(0x80 | (codepoint & 0x3F));
+	} else {
+		text.push_back(0xF0 | (codepoint >> 18));
+		text.push_back(0x80 | ((codepoint >> 12) & 0x3F));
+		text.push_back(0x80 | ((codepoint >> 6) & 0x3F));
+		text.push_back(0x80 | (codepoint & 0x3F));
+	}
+}
+
+static std::string unescapeString(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (size_t i = 0; i < text.size(); i++) {
+
+		if (text[i] != '\\' || i + 1 >= text.size()) {
+			result.push_back(text[i]);
+			continue;
+		}
+
+		const auto symbol = text[++i];
+
+		if (symbol == 'u') {
+
+			auto codepoint = parseUnicodeEscape(text, i + 1);
+			i += 4;
+
+			//	characters outside of the BMP are encoded as a pair of sequences
+			if (codepoint >= 0xD800 && codepoint < 0xDC00 && text.compare(i + 1, 2, "\\u") == 0) {
+				const auto lowpart = parseUnicodeEscape(text, i + 3);
+				if (lowpart >= 0xDC00 && lowpart < 0xE000) {
+					codepoint = 0x10000 + ((codepoint - 0xD800) << 10) + (lowpart - 0xDC00);
+					i += 6;
+				}
+			}
 
-		} else if (isdigit(objectText.at(0))) {
-			return objectText.find('.') == std::string::npos ? Property(std::stoi(objectText)) : Property(std::stold(objectText));
+			const auto isLoneSurrogate = codepoint >= 0xD800 && codepoint < 0xE000;
+			appendUtf8(result, isLoneSurrogate ? 0xFFFD : codepoint);
+			continue;
+		}
+
+		const auto unescaped = stringUnescapeTable.find(symbol);
+		if (unescaped == stringUnescapeTable.end()) {
+			result.push_back('\\');
+			result.push_back(symbol);
+			continue;
+		}
+
+		result.push_back(unescaped->second);
+	}
+
+	return result;
+}
+
+static std::string parseString(const std::string& text) {
+
+	if (findStringEnd(text, 0) != text.size() - 1)
+		throw std::runtime_error("Invalid JSON: unescaped double quote");
+
+	return unescapeString(text.substr(1, text.size() - 2));
+}
+
+static Property parseNumber(const std::string& text) {
+
+	size_t parsedSize = 0;
+
+	const auto result = text.find_first_of(".eE") == std::string::npos ?
+		Property(std::stoi(text, &parsedSize)) :
+		Property(std::stold(text, &parsedSize));
+
+	if (parsedSize != text.size()) throw std::runtime_error("Invalid JSON: invalid number");
+
+	return result;
+}
+
+static Property parseValue(const std::string& text, size_t depth) {
+
+	auto objectText = Strings::trim(text);
+	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
+	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: too many nested values");
+
+	auto isArray = objectText.starts_with('[');
+
+	if (!isArray && !objectText.starts_with('{')) {
+		
+		if (objectText.starts_with('\"')) {
+			return Property(parseString(objectText));
+		} else if (isdigit(static_cast<uint8_t>(objectText.at(0))) || objectText.starts_with('-')) {
+			return parseNumber(objectText);
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
@@ -46,12 +177,15 @@ Property JSON::parse(const std::string& text) {
 		}
 	}
 
+	if (objectText.size() < 2 || !objectText.ends_with(isArray ? ']' : '}')) {
+		throw std::runtime_error("Invalid JSON: unexpected end of text");
+	}
+
 	std::vector<std::string> entries;
 
 	//	split this shit into segments between commas
 	size_t ptnss_object = 0;
 	size_t ptnss_array = 0;
-	bool ptnss_string = 0;
 
 	size_t segmentStart = 1;
 
@@ -71,18 +205,24 @@ Property JSON::parse(const std::string& text) {
 				ptnss_array--;
 				break;
 			case '\"':
-				ptnss_string = !ptnss_string;
+				//	skip strings entirely, they can have any of these characters inside
+				i = findStringEnd(objectText, i);
 				break;
 			default: break;
 		}
 
-		if (!ptnss_object && !ptnss_array && !ptnss_string && objectText[i] == ',') {
+		if (!ptnss_object && !ptnss_array && objectText[i] == ',') {
 			entries.push_back(objectText.substr(segmentStart, i - segmentStart));
 			segmentStart = i + 1;
 		}
 	}
 
-	entries.push_back(objectText.substr(segmentStart, objectText.size() - segmentStart - 1));
+	const auto lastEntry = objectText.substr(segmentStart, objectText.size() - segmentStart - 1);
+
+	//	the only case when an entry is allowed to be empty is an empty object or array
+	if (entries.size() || Strings::trim(lastEntry).size()) {
+		entries.push_back(lastEntry);
+	}
 
 	if (isArray) {
 
@@ -91,7 +231,7 @@ Property JSON::parse(const std::string& text) {
 		for (const auto& entry : entries) {
 			auto entryTrimmed = Strings::trim(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
-			temp.push_back(parse(entryTrimmed));
+			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
 
 		return Property(temp);
@@ -106,12 +246,11 @@ Property JSON::parse(const std::string& text) {
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 
 			auto keyEnded = std::string::npos;
-			bool insideString = false;
 
 			for (size_t i = 0; i < entryTrimmed.size(); i++) {
 				if (entryTrimmed[i] == '\"') {
-					insideString = !insideString;
-				} else if (!insideString && entryTrimmed[i] == ':') {
+					i = findStringEnd(entryTrimmed, i);
+				} else if (entryTrimmed[i] == ':') {
 					keyEnded = i;
 					break;
 				}
@@ -121,11 +260,15 @@ Property JSON::parse(const std::string& text) {
 
 			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
 			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? key.substr(1, key.size() - 2) : key;
+			auto useKey = key.starts_with('\"') ? parseString(key) : key;
 
-			temp[useKey] = parse(value);
+			temp[useKey] = parseValue(value, depth + 1);
 		}
 
 		return Property(temp);
 	}
 }
+
+Property JSON::parse(const std::string& text) {
+	return parseValue(text, 0);
+}
-- 
2.43.0


From 940865dc4b32c6ec870aa0f63e9a066f51eafcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:01 +0000
Subject: [PATCH 020/107] fix: escape error messages on html error pages

---
 core/server/errorpage.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/server/errorpage.cpp b/core/server/errorpage.cpp
index 87d66e1..c47be72 100644
--- a/core/server/errorpage.cpp
+++ b/core/server/errorpage.cpp
@@ -9,6 +9,25 @@ using namespace Lambda::HTML;
 using namespace Lambda::Server;
 using namespace Lambda::Server::Pages;
 
+static std::string escapeHtml(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (auto symbol : text) {
+		switch (symbol) {
+			case '&': result += "&amp;"; break;
+			case '<': result += "&lt;"; break;
+			case '>': result += "&gt;"; break;
+			case '\"': result += "&quot;"; break;
+			case '\'': result += "&#39;"; break;
+			default: result.push_back(symbol); break;
+		}
+	}
+
+	return result;
+}
+
 HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& message) {
 	return renderErrorPage(code, message, ErrorResponseType::HTML);
 }
@@ -23,7 +42,7 @@ HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& mess
 			errorResponse.body = renderTemplate(Templates::servicePage, {
 				{ "svcpage_statuscode", std::to_string(code.code()) },
 				{ "svcpage_statustext", code.text() },
-				{ "svcpage_message_text", message }
+				{ "svcpage_message_text", escapeHtml(message) }
 			});
 			errorResponse.headers.set("content-type", "text/html");
 		} break;
-- 
2.43.0


From b6b130a97b4ca6c3bc086418ddf1939a38063e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 021/107] fix: don't use or close connection sockets that are
 being used or closed by other threads

---
 core/network/tcp/connection.cpp | 78 +++++++++++++++++++++------------
 core/network/tcp/connection.hpp |  9 +++-
 2 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 8005f9e..cbfb45a 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -28,34 +28,56 @@ Connection::Connection(
 ) : hSocket(handleInit), m_info(infoInit) {}
 
 Connection& Connection::operator= (Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
+
+	if (this == &other) return *this;
+
+	//	don't leave the current socket hanging around
+	this->end();
+
 	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
+	this->flags = other.flags;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
+
 	return *this;
 }
 
-Connection::Connection(Connection&& other) noexcept {
-	this->hSocket = other.hSocket;
-	this->m_info = other.m_info;
-	other.hSocket = INVALID_SOCKET;
-}
+Connection::Connection(Connection&& other) noexcept :
+	hSocket(other.hSocket.exchange(INVALID_SOCKET)),
+	m_info(other.m_info),
+	flags(other.flags) {}
 
 Connection::~Connection() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->end();
 }
 
 void Connection::end() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
+	//	make pending reads and writes return
+	{
+		std::lock_guard<std::mutex> lock(this->m_shutdown_mtx);
+		const SockHandle handle = this->hSocket;
+		if (handle == INVALID_SOCKET) return;
+		shutdown(handle, SD_BOTH);
+	}
+
+	std::lock_guard<std::mutex> lock(this->m_read_mtx);
+	this->endLocked();
+}
+
+void Connection::endLocked() noexcept {
 
-	//	swapping handle to a temp variable so that
-	//	no race condition can occur further down the chain
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	SockHandle tempHandle = INVALID_SOCKET;
 
-	shutdown(tempHandle, SD_BOTH);
+	{
+		std::lock_guard<std::mutex> lock(this->m_shutdown_mtx);
+		tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+		if (tempHandle == INVALID_SOCKET) return;
+		shutdown(tempHandle, SD_BOTH);
+	}
+
+	//	a handle can be given to another connection as soon as it's closed,
+	//	so make sure that nobody is still using it
+	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 	closesocket(tempHandle);
 }
 
@@ -69,12 +91,13 @@ bool Connection::isOpen() const noexcept {
 
 void Connection::write(const std::vector<uint8_t>& data) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Cann't write to a closed connection");
-
 	std::lock_guard<std::mutex> lock(this->m_write_mtx);
 
-	const auto bytesSent = send(this->hSocket, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Cann't write to a closed connection");
+
+	const auto bytesSent = send(handle, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
 
 	if (static_cast<size_t>(bytesSent) != data.size())
 		throw NetworkError("Network error while writing data");
@@ -86,18 +109,19 @@ std::vector<uint8_t> Connection::read() {
 
 std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
-	if (this->hSocket == INVALID_SOCKET)
-		throw Lambda::Error("Can't read from a closed connection");
-
 	std::lock_guard<std::mutex> lock(this->m_read_mtx);
 
+	const SockHandle handle = this->hSocket;
+	if (handle == INVALID_SOCKET)
+		throw Lambda::Error("Can't read from a closed connection");
+
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	const auto bytesReceived = recv(this->hSocket, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	const auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
 
 	if (bytesReceived == 0) {
 
-		this->end();
+		this->endLocked();
 		return {};
 
 	} else if (bytesReceived < 0) {
@@ -107,7 +131,7 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 		if (blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
-				this->end();
+				this->endLocked();
 			}
 
 			return {};
@@ -115,7 +139,7 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 		if (disconnectedCodes.contains(osError)) {
 
-			this->end();
+			this->endLocked();
 
 			if (!this->flags.throwOnDisconnect) {
 				return {};
diff --git a/core/network/tcp/connection.hpp b/core/network/tcp/connection.hpp
index 5abac63..5e13b99 100644
--- a/core/network/tcp/connection.hpp
+++ b/core/network/tcp/connection.hpp
@@ -6,6 +6,7 @@
 #include <vector>
 #include <string>
 #include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -24,10 +25,16 @@ namespace Lambda::Network::TCP {
 
 	class Connection {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
 			ConnectionInfo m_info;
 			std::mutex m_read_mtx;
 			std::mutex m_write_mtx;
+			std::mutex m_shutdown_mtx;
+
+			/**
+			 * Must be called with the read mutex locked
+			*/
+			void endLocked() noexcept;
 
 		public:
 
-- 
2.43.0


From 7ba99abcb20b5fad48d29447cb699e3d97d379f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 022/107] fix: don't fail or use closed sockets when listener
 is stopped while accepting connections

---
 core/network/tcp/listener.cpp | 47 +++++++++++++++++++++--------------
 core/network/tcp/listener.hpp |  5 +++-
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 03cd221..95a05ae 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -48,35 +48,40 @@ ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 }
 
 ListenSocket::~ListenSocket() {
-	if (this->hSocket == INVALID_SOCKET) return;
-	shutdown(this->hSocket, SD_BOTH);
-	closesocket(this->hSocket);
+	this->stop();
 }
 
-ListenSocket::ListenSocket(ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
-	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
-}
+ListenSocket::ListenSocket(ListenSocket&& other) noexcept :
+	hSocket(other.hSocket.exchange(INVALID_SOCKET)),
+	config(other.config) {}
 
 ListenSocket& ListenSocket::operator= (ListenSocket&& other) noexcept {
-	this->hSocket = other.hSocket;
+
+	if (this == &other) return *this;
+
+	//	don't leave the current socket hanging around
+	this->stop();
+
 	this->config = other.config;
-	other.hSocket = INVALID_SOCKET;
+	this->hSocket = other.hSocket.exchange(INVALID_SOCKET);
+
 	return *this;
 }
 
 std::optional<Connection> ListenSocket::acceptConnection() {
 
-	//	check that we have a valid socket
-	if (this->hSocket == INVALID_SOCKET) {
-		throw NetworkError("Cannot accept anything from a closed socket");
+	std::lock_guard<std::mutex> lock(this->m_accept_mtx);
+
+	//	check that we have a valid socket, it could've been just stopped by another thread
+	const SockHandle listenHandle = this->hSocket;
+	if (listenHandle == INVALID_SOCKET) {
+		return std::nullopt;
 	}
 
 	//	accept network connection
 	sockaddr_in peerAddr;
 	socklen_t clientAddrLen = sizeof(peerAddr);
-	auto nextSocket = accept(this->hSocket, (sockaddr*)&peerAddr, &clientAddrLen);
+	auto nextSocket = accept(listenHandle, (sockaddr*)&peerAddr, &clientAddrLen);
 
 	//	verify that we have a valid socket
 	if (nextSocket == INVALID_SOCKET) {
@@ -121,11 +126,17 @@ const ListenConfig& ListenSocket::getConfig() const noexcept {
 
 void ListenSocket::stop() noexcept {
 
-	if (this->hSocket == INVALID_SOCKET) return;
-
-	const auto tempHandle = this->hSocket;
-	this->hSocket = INVALID_SOCKET;
+	const auto tempHandle = this->hSocket.exchange(INVALID_SOCKET);
+	if (tempHandle == INVALID_SOCKET) return;
 
 	shutdown(tempHandle, SD_BOTH);
+
+	//	shutdown makes pending accept() calls return, wait for that as a handle
+	//	can be given to something else as soon as it's closed.
+	//	doesn't work like that on windows tho, only closing a socket does that
+	#ifndef _WIN32
+		std::lock_guard<std::mutex> lock(this->m_accept_mtx);
+	#endif
+
 	closesocket(tempHandle);
 }
diff --git a/core/network/tcp/listener.hpp b/core/network/tcp/listener.hpp
index 361881a..dd8d9d3 100644
--- a/core/network/tcp/listener.hpp
+++ b/core/network/tcp/listener.hpp
@@ -5,6 +5,8 @@
 #include "./connection.hpp"
 
 #include <optional>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda::Network::TCP {
 
@@ -16,7 +18,8 @@ namespace Lambda::Network::TCP {
 
 	class ListenSocket {
 		protected:
-			SockHandle hSocket;
+			std::atomic<SockHandle> hSocket;
+			std::mutex m_accept_mtx;
 			ListenConfig config;
 
 		public:
-- 
2.43.0


From d208e999897bbf1fee86647ce5079906945988be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 023/107] fix: don't drop sub-second part of connection
 timeouts

---
 core/network/tcp/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index cbfb45a..11157bc 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -164,7 +164,7 @@ void Connection::setTimeouts(uint32_t valueMs, SetTimeoutsDirection direction) {
 	#else
 		timeval timeoutValue;
 		timeoutValue.tv_sec = valueMs / 1000;
-		timeoutValue.tv_usec = 0;
+		timeoutValue.tv_usec = (valueMs % 1000) * 1000;
 	#endif
 
 	const auto timeouValuePtr = reinterpret_cast<const char*>(&timeoutValue);
-- 
2.43.0


From b25bbdcd4a12214357220f44bb8afd747fbcfed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 024/107] fix: synchronize instance state between service,
 connection and controlling threads

---
 core/server/instance.cpp | 16 +++++++++-------
 core/server/server.hpp   |  6 +++++-
 core/server/worker.hpp   |  5 +++--
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 8f65942..6ea3f91 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -56,15 +56,17 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = this->listener.acceptConnection();
 				if (!nextConn.has_value()) break;
 
+				//	don't let any new connections slip through while the instance is being terminated
+				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
+				if (this->m_terminated) break;
+
 				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
 					nextConn.value().end();
 					this->m_connections.remove_if(workerJoinFilter);
 					continue;
 				}
 
-				this->m_connections.push_front({
-					std::move(nextConn.value())
-				});
+				this->m_connections.emplace_front(std::move(nextConn.value()));
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
@@ -85,11 +87,10 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = this->listener.acceptConnection();
 				if (!nextConn.has_value()) break;
 
-				std::thread([&](WorkerContext&& worker) {
+				std::thread([&](Network::TCP::Connection&& conn) {
+					WorkerContext worker { std::move(conn) };
 					connectionWorker(worker, this->config, this->httpHandler);
-				}, WorkerContext {
-					std::move(nextConn.value())
-				}).detach();
+				}, std::move(nextConn.value())).detach();
 			}
 		}
 	});
@@ -114,6 +115,7 @@ void LambdaInstance::terminate() {
 
 	//	Request all connection workers to exit
 	if (this->config.service.useThreadList) {
+		std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 		for (auto& worker : this->m_connections) {
 			worker.shutdownFlag = true;
 		}
diff --git a/core/server/server.hpp b/core/server/server.hpp
index 4bd0509..9588159 100644
--- a/core/server/server.hpp
+++ b/core/server/server.hpp
@@ -8,6 +8,9 @@
 #include "../network/tcp/listener.hpp"
 
 #include <forward_list>
+#include <future>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda {
 
@@ -21,8 +24,9 @@ namespace Lambda {
 			RequestCallback httpHandler;
 
 			std::future<void> serviceWorker;
-			bool m_terminated = false;
+			std::atomic<bool> m_terminated = false;
 
+			std::mutex m_connections_mtx;
 			std::forward_list<WorkerContext> m_connections;
 			size_t m_connections_count = 0;
 
diff --git a/core/server/worker.hpp b/core/server/worker.hpp
index 1c8c86b..98dc192 100644
--- a/core/server/worker.hpp
+++ b/core/server/worker.hpp
@@ -4,14 +4,15 @@
 #include "../network/tcp/connection.hpp"
 
 #include <thread>
+#include <atomic>
 
 namespace Lambda {
 
 	struct WorkerContext {
 		Network::TCP::Connection conn;
 		std::thread worker;
-		bool shutdownFlag = false;
-		bool finished = false;
+		std::atomic<bool> shutdownFlag = false;
+		std::atomic<bool> finished = false;
 	};
 };
 
-- 
2.43.0


From c33c3ea0a81288ae4bd4c1b4c0b8067f26826a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 025/107] fix: close connections as soon as their workers are
 done

---
 core/server/instance.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 6ea3f91..73fafc1 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -72,6 +72,8 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto& nextWorker = this->m_connections.front();
 				nextWorker.worker = std::thread([&](WorkerContext& worker) {
 					connectionWorker(worker, this->config, this->httpHandler);
+					//	the context itself can stay in the list for as long as there are no new connections
+					worker.conn.end();
 					worker.finished = true;
 				}, std::ref(nextWorker));
 
-- 
2.43.0


From c324c33e66d4e1090ba65802bd6f0590944b803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 026/107] fix: enforce the connection limit exactly and allow
 it to be disabled

---
 core/server/instance.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 73fafc1..6cc36bc 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -27,7 +27,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		syncout.log("[Service] Warning: fast port reuse enabled");
 	}
 
-	if (init.service.maxConnections < ServiceOptions::minConnections) {
+	if (init.service.maxConnections && init.service.maxConnections < ServiceOptions::minConnections) {
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
@@ -60,9 +60,12 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				std::lock_guard<std::mutex> lock(this->m_connections_mtx);
 				if (this->m_terminated) break;
 
-				if (svcmaxconn && (this->m_connections_count > svcmaxconn)) {
-					nextConn.value().end();
+				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
 					this->m_connections.remove_if(workerJoinFilter);
+				}
+
+				if (svcmaxconn && (this->m_connections_count >= svcmaxconn)) {
+					nextConn.value().end();
 					continue;
 				}
 
@@ -76,10 +79,6 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 					worker.conn.end();
 					worker.finished = true;
 				}, std::ref(nextWorker));
-
-				if (!svcmaxconn || this->m_connections_count > gcThreshold) {
-					this->m_connections.remove_if(workerJoinFilter);
-				}
 			}
 
 		} else {
-- 
2.43.0


From 04ba6da77b1470d774d7de836b3efb622421e3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 027/107] fix: keep accepting connections after a transient
 accept failure

---
 core/network/tcp/listener.cpp | 41 +++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/core/network/tcp/listener.cpp b/core/network/tcp/listener.cpp
index 95a05ae..572b01d 100644
--- a/core/network/tcp/listener.cpp
+++ b/core/network/tcp/listener.cpp
@@ -2,9 +2,34 @@
 #include "./connection.hpp"
 #include "../sysnetw.hpp"
 
+#include <set>
+#include <thread>
+#include <chrono>
+
 using namespace Lambda::Network;
 using namespace Lambda::Network::TCP;
 
+//	These errors belong to a single connection that's already gone
+static const std::set<int> peerErrorCodes = {
+	#ifdef _WIN32
+		WSAECONNRESET, WSAEINTR
+	#else
+		ECONNABORTED, EINTR, EAGAIN, EWOULDBLOCK, EPROTO, EPERM, ENETDOWN, ENETUNREACH,
+		EHOSTDOWN, EHOSTUNREACH, ENOPROTOOPT, ETIMEDOUT
+	#endif
+};
+
+//	And these mean that it'll be possible to accept more connections a bit later
+static const std::set<int> outOfResourcesCodes = {
+	#ifdef _WIN32
+		WSAEMFILE, WSAENOBUFS
+	#else
+		EMFILE, ENFILE, ENOBUFS, ENOMEM
+	#endif
+};
+
+static const auto outOfResourcesDelay = std::chrono::milliseconds(50);
+
 ListenSocket::ListenSocket(const ListenConfig& init) : config(init) {
 
 	//	special threatment for windows and it's fucking WSA
@@ -84,9 +109,21 @@ std::optional<Connection> ListenSocket::acceptConnection() {
 	auto nextSocket = accept(listenHandle, (sockaddr*)&peerAddr, &clientAddrLen);
 
 	//	verify that we have a valid socket
-	if (nextSocket == INVALID_SOCKET) {
+	while (nextSocket == INVALID_SOCKET) {
+
+		const auto osError = GetOSErrorCode();
 		if (this->hSocket == INVALID_SOCKET) return std::nullopt;
-		throw NetworkError("Socket accept() failed");
+
+		if (outOfResourcesCodes.contains(osError)) {
+			std::this_thread::sleep_for(outOfResourcesDelay);
+		} else if (!peerErrorCodes.contains(osError)) {
+			throw NetworkError("Socket accept() failed", osError);
+		}
+
+		if (this->hSocket == INVALID_SOCKET) return std::nullopt;
+
+		clientAddrLen = sizeof(peerAddr);
+		nextSocket = accept(listenHandle, (sockaddr*)&peerAddr, &clientAddrLen);
 	}
 
 	//	try getting peer host name
-- 
2.43.0


From fb3e4e5ae58b003d34f5621f4a4fd20a96396ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 028/107] fix: keep serving when a connection worker thread
 cannot be created

---
 core/server/instance.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 6cc36bc..33c46c2 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -5,6 +5,7 @@
 
 #include <cstdio>
 #include <thread>
+#include <system_error>
 
 using namespace Lambda;
 using namespace Lambda::Server;
@@ -33,6 +34,11 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 
 	this->serviceWorker = std::async([&]() {
 
+		//	having no resources to serve one connection is not a reason to stop serving all of them
+		const auto handleThreadError = [](const std::system_error& error) {
+			syncout.error({ "[Service] Failed to create a connection worker:", error.what() });
+		};
+
 		if (this->config.service.useThreadList) {
 
 			const auto workerJoinFilter = [&](WorkerContext& node) -> bool {
@@ -73,12 +79,19 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				this->m_connections_count++;
 
 				auto& nextWorker = this->m_connections.front();
-				nextWorker.worker = std::thread([&](WorkerContext& worker) {
-					connectionWorker(worker, this->config, this->httpHandler);
-					//	the context itself can stay in the list for as long as there are no new connections
-					worker.conn.end();
-					worker.finished = true;
-				}, std::ref(nextWorker));
+
+				try {
+					nextWorker.worker = std::thread([&](WorkerContext& worker) {
+						connectionWorker(worker, this->config, this->httpHandler);
+						//	the context itself can stay in the list for as long as there are no new connections
+						worker.conn.end();
+						worker.finished = true;
+					}, std::ref(nextWorker));
+				} catch (const std::system_error& err) {
+					handleThreadError(err);
+					this->m_connections.pop_front();
+					this->m_connections_count--;
+				}
 			}
 
 		} else {
@@ -88,10 +101,14 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 				auto nextConn = this->listener.acceptConnection();
 				if (!nextConn.has_value()) break;
 
-				std::thread([&](Network::TCP::Connection&& conn) {
-					WorkerContext worker { std::move(conn) };
-					connectionWorker(worker, this->config, this->httpHandler);
-				}, std::move(nextConn.value())).detach();
+				try {
+					std::thread([&](Network::TCP::Connection&& conn) {
+						WorkerContext worker { std::move(conn) };
+						connectionWorker(worker, this->config, this->httpHandler);
+					}, std::move(nextConn.value())).detach();
+				} catch (const std::system_error& err) {
+					handleThreadError(err);
+				}
 			}
 		}
 	});
-- 
2.43.0


From 187535d9d75f199d2e6fb42cd373e66cf97b7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 029/107] fix: don't make the JSON serializer depend on the
 encoding library

---
 core/json/stringify.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/json/stringify.cpp b/core/json/stringify.cpp
index ec497f3..9c90c4e 100644
--- a/core/json/stringify.cpp
+++ b/core/json/stringify.cpp
@@ -1,5 +1,4 @@
 #include "./json.hpp"
-#include "../encoding/encoding.hpp"
 
 #include <map>
 #include <stdexcept>
@@ -17,6 +16,8 @@ static const std::map<char, std::string> stringEscapeTable = {
 	{ '\\', "\\\\" }
 };
 
+static const char hexDigits[] = "0123456789abcdef";
+
 static std::string stringifyText(const std::string& text) {
 
 	std::string temp = "\"";
@@ -33,7 +34,9 @@ static std::string stringifyText(const std::string& text) {
 		//	the rest of control characters don't have short escape sequences
 		const auto charcode = static_cast<uint8_t>(symbol);
 		if (charcode < 0x20) {
-			temp.append("\\u00").append(Encoding::byteToHex(charcode).string);
+			temp.append("\\u00");
+			temp.push_back(hexDigits[charcode >> 4]);
+			temp.push_back(hexDigits[charcode & 0x0F]);
 			continue;
 		}
 
-- 
2.43.0


From 5efd1e10b9f553931deda2fa3608d8f8343d2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 030/107] fix: synchronize id generation between threads

---
 core/crypto/uid.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/crypto/uid.cpp b/core/crypto/uid.cpp
index 02511de..87fc0b1 100644
--- a/core/crypto/uid.cpp
+++ b/core/crypto/uid.cpp
@@ -3,6 +3,7 @@
 #include "../polyfill/polyfill.hpp"
 
 #include <random>
+#include <mutex>
 
 using namespace Lambda;
 using namespace Lambda::Crypto;
@@ -10,6 +11,9 @@ using namespace Lambda::Crypto;
 static auto rng_gen = std::mt19937(std::random_device{}());
 static auto rng_dist = std::uniform_int_distribution<int32_t>(1, std::numeric_limits<int32_t>::max());
 
+//	ids are generated by many connection threads at the same time
+static std::mutex rng_mtx;
+
 ShortID::ShortID() {
 	this->update();
 }
@@ -35,7 +39,12 @@ ShortID& ShortID::operator=(const ShortID& other) noexcept {
 }
 
 void ShortID::update() noexcept {
-	this->m_id.u32 = rng_dist(rng_gen);
+
+	{
+		std::lock_guard<std::mutex> lock(rng_mtx);
+		this->m_id.u32 = rng_dist(rng_gen);
+	}
+
 	this->m_serialize();
 }
 
-- 
2.43.0


From 4b58a40b91b3225829aa9851eefc3b4af9ca497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:17 +0000
Subject: [PATCH 031/107] fix: don't let slow clients delay the shutdown
 forever

---
 core/http/transport.hpp    | 4 ++++
 core/http/transport_v1.cpp | 9 +++++++--
 core/server/worker.cpp     | 1 +
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/http/transport.hpp b/core/http/transport.hpp
index 36f0d23..35c00c8 100644
--- a/core/http/transport.hpp
+++ b/core/http/transport.hpp
@@ -11,6 +11,7 @@
 #include <unordered_map>
 #include <map>
 #include <optional>
+#include <atomic>
 
 namespace Lambda::HTTP::Transport {
 
@@ -52,6 +53,9 @@ namespace Lambda::HTTP::Transport {
 	struct TransportFlags {
 		bool forceContentLength = true;
 		bool autocompress = true;
+
+		//	when set and true, no more data is awaited from the client
+		const std::atomic<bool>* readCancelled = nullptr;
 	};
 
 	class TransportContext {
diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 242f6e8..bb3ed82 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -47,6 +47,11 @@ bool TransportContextV1::awaitNext() {
 
 	static const std::string patternEndHeader = "\r\n\r\n";
 
+	//	a slow client can keep a request incomplete for as long as it wants to
+	const auto canRead = [&]() {
+		return this->m_conn.isOpen() && !(this->flags.readCancelled != nullptr && *this->flags.readCancelled);
+	};
+
 	//	a complete header could've been already received with the previous request
 	size_t headerSize = 0;
 	size_t searchFrom = 0;
@@ -66,7 +71,7 @@ bool TransportContextV1::awaitNext() {
 			throw ProtocolError("Request header too large", 413);
 		}
 
-		if (headerSize || !this->m_conn.isOpen()) break;
+		if (headerSize || !canRead()) break;
 
 		//	the pattern itself can be split between two chunks
 		searchFrom = this->m_readbuff.size() < patternEndHeader.size() ?
@@ -242,7 +247,7 @@ bool TransportContextV1::awaitNext() {
 		while (this->m_readbuff.size() < bodySize) {
 
 			const auto chunkSize = std::min(bodySize - this->m_readbuff.size(), bodyReadChunk);
-			const auto newBytes = this->m_conn.isOpen() ? this->m_conn.read(chunkSize) : std::vector<uint8_t>();
+			const auto newBytes = canRead() ? this->m_conn.read(chunkSize) : std::vector<uint8_t>();
 
 			if (!newBytes.size()) {
 				throw NetworkError("Incomplete request body");
diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 9c9d8e3..0ee278f 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -18,6 +18,7 @@ void Server::connectionWorker(
 
 	auto handlerMode = HandlerMode::HTTP;
 	auto transport = TransportContextV1(workerctx.conn, config.transport);
+	transport.flags.readCancelled = &workerctx.shutdownFlag;
 	
 	const auto& contextID = transport.contextID();
 	const auto& conninfo = workerctx.conn.info();
-- 
2.43.0


From d8d415b40e3b42deee755b204bedb6160ac9d7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 032/107] fix: read websocket frames correctly no matter how
 they are split into chunks

---
 core/websocket/transport.cpp | 84 ++++++++++++++++++------------------
 core/websocket/transport.hpp |  2 +-
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index f65bfc2..3d7e436 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -1,6 +1,8 @@
 #include "./websocket.hpp"
 #include "./transport.hpp"
 
+#include <algorithm>
+
 using namespace Lambda;
 using namespace Lambda::Websocket;
 using namespace Lambda::Websocket::Transport;
@@ -11,6 +13,7 @@ static const std::string wsPingString = "ping/lambda/ws";
 static const time_t wsActTimeout = 5000;
 static const unsigned short wsMaxSkippedAttempts = 3;
 static const size_t wsReadChunk = 256;
+static const size_t wsMaxReadChunk = 64 * 1024;
 
 static const std::initializer_list<OpCode> supportedWsOpcodes = {
 	OpCode::Binary,
@@ -31,33 +34,37 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 	this->m_transport.writeRaw(writeBuff);
 }
 
-FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
+
+	if (buffer.size() < FrameHeader::min_size) {
+		return std::nullopt;
+	}
 
 	FrameHeader header {
 		static_cast<FrameControlBits>(buffer.at(0) & 0xF0),
 		static_cast<OpCode>(buffer.at(0) & 0x0F),
-		static_cast<size_t>(2),
+		FrameHeader::min_size,
 		static_cast<size_t>(buffer.at(1) & 0x7F)
 	};
 
-	if (header.payloadSize == 126) {
-		header.size += 2;
-		header.payloadSize = (buffer.at(2) << 8) | buffer.at(3);
-	} else if (header.payloadSize == 127) {
-		header.size += 8;
+	const size_t extendedSize = header.payloadSize == 127 ? 8 : (header.payloadSize == 126 ? 2 : 0);
+	const bool maskUsed = (buffer.at(1) & 0x80) >> 7;
+
+	//	the header itself can arrive in parts
+	if (buffer.size() < header.size + extendedSize + (maskUsed ? FrameHeader::mask_size : 0)) {
+		return std::nullopt;
+	}
+
+	if (extendedSize) {
 		header.payloadSize = 0;
-		for (int i = 0; i < 8; i++) {
-			header.payloadSize |= (buffer.at(2 + i) << ((7 - i) * 8));
+		for (size_t i = 0; i < extendedSize; i++) {
+			header.payloadSize = (header.payloadSize << 8) | buffer.at(header.size + i);
 		}
+		header.size += extendedSize;
 	}
 
-	bool maskUsed = (buffer.at(1) & 0x80) >> 7;
 	if (maskUsed) {
 
-		if (buffer.size() < header.size + FrameHeader::mask_size) {
-			throw std::runtime_error("invalid websocket frame: not enough data to read mask");
-		}
-
 		std::array<uint8_t, FrameHeader::mask_size> mask;
 
 		for (size_t i = 0; i < mask.size(); i++) {
@@ -65,7 +72,7 @@ FrameHeader Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 		}
 
 		header.mask = mask;
-		header.size += 4;
+		header.size += FrameHeader::mask_size;
 	}
 
 	return header;
@@ -143,18 +150,28 @@ void WebsocketContext::asyncWorker() {
 			lastPing = std::chrono::steady_clock::now();
 		}
 
-		const auto nextChunk = this->m_transport.readRaw(wsReadChunk);
-		if (!nextChunk.size()) continue;
-
-		downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
-		if (downloadBuff.size() < FrameHeader::min_size) continue;
+		//	there can be more than one frame in the buffer, so don't wait for new data until it's needed
+		const auto frameHeaderOpt = parseFrameHeader(downloadBuff);
+		const auto frameHeaderSize = frameHeaderOpt.has_value() ? frameHeaderOpt.value().size : FrameHeader::min_size;
+		const auto frameSizeLimit = this->m_topts.maxRequestSize - std::min(this->m_topts.maxRequestSize, frameHeaderSize);
 
-		if (downloadBuff.size() > this->m_topts.maxRequestSize) {
+		if (frameHeaderOpt.has_value() && frameHeaderOpt.value().payloadSize > frameSizeLimit) {
 			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("Expected frame size too large");
+			throw std::runtime_error("frame size too large");
+		}
+
+		const auto frameSize = frameHeaderSize + (frameHeaderOpt.has_value() ? frameHeaderOpt.value().payloadSize : 0);
+
+		if (!frameHeaderOpt.has_value() || downloadBuff.size() < frameSize) {
+
+			const auto bytesMissing = frameSize > downloadBuff.size() ? frameSize - downloadBuff.size() : 0;
+			const auto nextChunk = this->m_transport.readRaw(std::clamp(bytesMissing, wsReadChunk, wsMaxReadChunk));
+
+			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
+			continue;
 		}
 
-		auto frameHeader = parseFrameHeader(downloadBuff);
+		auto frameHeader = frameHeaderOpt.value();
 
 		bool opcodeValid = false;
 		for (const auto& item : supportedWsOpcodes) {
@@ -169,27 +186,8 @@ void WebsocketContext::asyncWorker() {
 			throw std::runtime_error("received an invalid opcode (" + std::to_string(opcodeInt) + ")");
 		}
 
-		const auto frameSize = frameHeader.size + frameHeader.payloadSize;
 		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
 
-		if (frameSize > this->m_topts.maxRequestSize) {
-			this->close(CloseReason::MessageTooBig);
-			throw std::runtime_error("frame size too large");
-		}
-
-		if (frameHeader.payloadSize + frameHeader.payloadSize < downloadBuff.size()) {
-
-			auto expectedSize = frameHeader.payloadSize - payloadBuff.size();
-			auto payloadChunk = this->m_transport.readRaw(expectedSize);
-
-			if (payloadChunk.size() < expectedSize) {
-				this->close(CloseReason::ProtocolError);
-				throw std::runtime_error("failed to read websocket frame: not enough data");
-			}
-
-			payloadBuff.insert(payloadBuff.end(), payloadChunk.begin(), payloadChunk.end());
-		}
-
 		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
 			this->close(CloseReason::ProtocolError);
 			throw std::runtime_error("received unmasked data from the client");
@@ -267,6 +265,6 @@ void WebsocketContext::asyncWorker() {
 			multipartCtx = std::nullopt;
 		}
 
-		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameHeader.size + frameHeader.payloadSize);
+		downloadBuff.erase(downloadBuff.begin(), downloadBuff.begin() + frameSize);
 	}
 }
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index f9e300f..79b3e7f 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -40,7 +40,7 @@ namespace Lambda::Websocket::Transport {
 		bool binary = false;
 	};
 
-	FrameHeader parseFrameHeader(const std::vector<uint8_t>& buffer);
+	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
 	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
-- 
2.43.0


From cf50186bcb3fe22870fe2095b66fa8d68256a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 033/107] fix: handle fragmented websocket messages as the
 protocol requires

---
 core/websocket/transport.cpp | 39 +++++++++++++++++++++++++++---------
 core/websocket/transport.hpp |  2 +-
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 3d7e436..5f5d978 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -188,22 +188,43 @@ void WebsocketContext::asyncWorker() {
 
 		auto payloadBuff = std::vector<uint8_t>(downloadBuff.begin() + frameHeader.size, downloadBuff.begin() + frameSize);
 
-		if (!(frameHeader.mask.has_value() || multipartCtx.has_value())) {
+		if (!frameHeader.mask.has_value()) {
 			this->close(CloseReason::ProtocolError);
 			throw std::runtime_error("received unmasked data from the client");
 		}
 
-		if (frameHeader.finbit != FrameControlBits::BitFinal) {
+		const auto isFinal = frameHeader.finbit == FrameControlBits::BitFinal;
 
-			if (!multipartCtx.has_value()) {
+		if (!isFinal && frameHeader.finbit != FrameControlBits::BitContinue) {
+			this->close(CloseReason::ProtocolError);
+			throw std::runtime_error("received a frame with unsupported flags");
+		}
+
+		const auto isControl = frameHeader.opcode == OpCode::Close ||
+			frameHeader.opcode == OpCode::Ping ||
+			frameHeader.opcode == OpCode::Pong;
+
+		if (isControl) {
+
+			//	these can be sent in between of message fragments, but can't be fragmented themselves
+			if (!isFinal || frameHeader.payloadSize > FrameHeader::max_control_payload) {
+				this->close(CloseReason::ProtocolError);
+				throw std::runtime_error("received an invalid control frame");
+			}
 
+		} else {
+
+			const auto isContinuation = frameHeader.opcode == OpCode::Continue;
+
+			if (isContinuation != multipartCtx.has_value()) {
+				this->close(CloseReason::ProtocolError);
+				throw std::runtime_error("received an unexpected message fragment");
+			}
+
+			if (!isContinuation && !isFinal) {
 				multipartCtx = MultipartMessageContext({
-					frameHeader.mask.value(),
 					frameHeader.opcode == OpCode::Binary
 				});
-
-			} else {
-				frameHeader.mask = multipartCtx.value().mask;
 			}
 		}
 
@@ -256,12 +277,12 @@ void WebsocketContext::asyncWorker() {
 				this->m_queue.push({
 					payloadBuff,
 					isBinary,
-					frameHeader.finbit == FrameControlBits::BitFinal
+					!isFinal
 				});
 			}
 		}
 
-		if (frameHeader.finbit == FrameControlBits::BitFinal && multipartCtx.has_value()) {
+		if (isFinal && !isControl) {
 			multipartCtx = std::nullopt;
 		}
 
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index 79b3e7f..56196e8 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -32,11 +32,11 @@ namespace Lambda::Websocket::Transport {
 		size_t payloadSize;
 		static const size_t mask_size = 4;
 		static const size_t min_size = 2;
+		static const size_t max_control_payload = 125;
 		std::optional<std::array<uint8_t, mask_size>> mask;
 	};
 
 	struct MultipartMessageContext {
-		std::array<uint8_t, FrameHeader::mask_size> mask;
 		bool binary = false;
 	};
 
-- 
2.43.0


From 56dc55260efc1bbe94def8769da1d94836790e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 034/107] fix: don't let websocket messages get in the middle
 of ping and pong frames

---
 core/websocket/transport.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 5f5d978..20abf3a 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -137,15 +137,16 @@ void WebsocketContext::asyncWorker() {
 
 		} else if ((std::chrono::steady_clock::now() - lastPing) > std::chrono::milliseconds(wsActTimeout)) {
 
-			auto pingHeader = serializeFrameHeader({
+			auto pingFrame = serializeFrameHeader({
 				FrameControlBits::BitFinal,
 				OpCode::Ping,
 				static_cast<size_t>(0),
 				wsPingString.size()
 			});
 
-			this->m_transport.writeRaw(pingHeader);
-			this->m_transport.writeRaw(std::vector<uint8_t>(wsPingString.begin(), wsPingString.end()));
+			//	a frame must be written at once, there may be other threads sending messages
+			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
+			this->m_transport.writeRaw(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
@@ -243,15 +244,15 @@ void WebsocketContext::asyncWorker() {
 
 			case OpCode::Ping: {
 
-				const auto pongHeader = serializeFrameHeader({
+				auto pongFrame = serializeFrameHeader({
 					FrameControlBits::BitFinal,
 					OpCode::Pong,
 					static_cast<size_t>(0),
 					frameHeader.payloadSize
 				});
 
-				this->m_transport.writeRaw(pongHeader);
-				this->m_transport.writeRaw(payloadBuff);
+				pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
+				this->m_transport.writeRaw(pongFrame);
 
 			} break;
 
-- 
2.43.0


From 0e75c573155ab9ef875f46b34dc39b192d6aacfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:44 +0000
Subject: [PATCH 035/107] fix: don't drop websocket clients for unsolicited
 pongs

---
 core/websocket/transport.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 20abf3a..8cac512 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -258,12 +258,9 @@ void WebsocketContext::asyncWorker() {
 
 			case OpCode::Pong: {
 
-				//	check that pong payload matches the ping's one
+				//	clients are allowed to send pongs that nobody asked for
 				if (std::equal(payloadBuff.begin(), payloadBuff.end(), wsPingString.begin(), wsPingString.end())) {
 					lastPingResponse = std::chrono::steady_clock::now();
-				} else {
-					this->close(CloseReason::ProtocolError);
-					throw std::runtime_error("invalid pong reponse");
 				}
 
 			} break;
-- 
2.43.0


From b6e34cf713bf7de72287e0c5daa2c33f38362998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 036/107] fix: synchronize websocket message queue and state
 between threads

---
 core/websocket/websocket.cpp | 16 +++++++++++-----
 core/websocket/websocket.hpp |  6 ++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index c110519..da80b29 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -101,17 +101,18 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 }
 
 bool WebsocketContext::hasMessage() const noexcept {
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
 	return this->m_queue.size() > 0;
 }
 
 Message WebsocketContext::nextMessage() {
 
+	std::lock_guard<std::mutex>lock(this->m_read_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("Message queue is empty");
 	}
 
-	std::lock_guard<std::mutex>lock(this->m_read_mtx);
-
 	Message temp = this->m_queue.front();
 	this->m_queue.pop();
 
@@ -121,19 +122,24 @@ Message WebsocketContext::nextMessage() {
 bool WebsocketContext::awaitMessage() {
 
 	if (!this->m_reader.valid() || this->m_worker.shutdownFlag) {
-		return this->m_queue.size();
+		return this->hasMessage();
 	}
 
 	auto readerDone = false;
-	while (!readerDone && !this->m_queue.size() && !this->m_worker.shutdownFlag) {
+	while (!readerDone && !this->hasMessage() && !this->m_worker.shutdownFlag) {
 		readerDone = this->m_reader.wait_for(std::chrono::milliseconds(1)) == std::future_status::ready;
 	}
 
+	//	the reader could've received something just before it was done
+	if (this->hasMessage()) {
+		return true;
+	}
+
 	if (readerDone) {
 		this->m_reader.get();
 	}
 
-	return this->m_queue.size();
+	return false;
 }
 
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 28f2439..67227ba 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -9,6 +9,8 @@
 #include <vector>
 #include <future>
 #include <queue>
+#include <mutex>
+#include <atomic>
 
 namespace Lambda::Websocket {
 
@@ -57,8 +59,8 @@ namespace Lambda::Websocket {
 
 			std::future<void> m_reader;
 			std::queue<Websocket::Message> m_queue;
-			std::mutex m_read_mtx;
-			bool m_stopped = false;
+			mutable std::mutex m_read_mtx;
+			std::atomic<bool> m_stopped = false;
 			void asyncWorker();
 
 		public:
-- 
2.43.0


From 9a5449e206a00ddb1736a4280121f18608ca5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:09 +0000
Subject: [PATCH 037/107] fix: don't fail or terminate closing websockets that
 are already closed

---
 core/websocket/transport.cpp | 11 +++++++++--
 core/websocket/websocket.cpp | 10 +++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 8cac512..b5db785 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -166,7 +166,15 @@ void WebsocketContext::asyncWorker() {
 		if (!frameHeaderOpt.has_value() || downloadBuff.size() < frameSize) {
 
 			const auto bytesMissing = frameSize > downloadBuff.size() ? frameSize - downloadBuff.size() : 0;
-			const auto nextChunk = this->m_transport.readRaw(std::clamp(bytesMissing, wsReadChunk, wsMaxReadChunk));
+			std::vector<uint8_t> nextChunk;
+
+			try {
+				nextChunk = this->m_transport.readRaw(std::clamp(bytesMissing, wsReadChunk, wsMaxReadChunk));
+			} catch (...) {
+				//	the connection was just closed from our side
+				if (this->m_stopped) return;
+				throw;
+			}
 
 			downloadBuff.insert(downloadBuff.end(), nextChunk.begin(), nextChunk.end());
 			continue;
@@ -238,7 +246,6 @@ void WebsocketContext::asyncWorker() {
 		switch (frameHeader.opcode) {
 
 			case OpCode::Close: {
-				this->m_stopped = true;
 				this->close(CloseReason::Normal);
 			} break;
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index da80b29..61b15ab 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -66,7 +66,7 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 
 WebsocketContext::~WebsocketContext() {
 
-	if (!this->m_stopped && this->m_transport.isConnected()) {
+	if (this->m_transport.isConnected()) {
 		this->close(CloseReason::GoingAway);
 	}
 
@@ -80,7 +80,8 @@ WebsocketContext::~WebsocketContext() {
 
 void WebsocketContext::close(Websocket::CloseReason reason) {
 
-	this->m_stopped = true;
+	//	both sides can decide to close the connection at the same time
+	if (this->m_stopped.exchange(true)) return;
 
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
 
@@ -96,7 +97,10 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 
 	closeMessageBuff.insert(closeMessageBuff.end(), closeReasonBuff.begin(), closeReasonBuff.end());	
 
-	this->m_transport.writeRaw(closeMessageBuff);
+	//	it's not an error if the client is already gone
+	try { this->m_transport.writeRaw(closeMessageBuff); }
+		catch (...) {}
+
 	this->m_transport.close();
 }
 
-- 
2.43.0


From dfe25e7ae38ae465289d9b26310ae03146c202d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:36 +0000
Subject: [PATCH 038/107] fix: send fragments of websocket messages as
 continuation frames

---
 core/websocket/transport.cpp | 11 ++++++++---
 core/websocket/transport.hpp |  2 +-
 core/websocket/websocket.hpp |  2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index b5db785..1e088f6 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -26,12 +26,16 @@ static const std::initializer_list<OpCode> supportedWsOpcodes = {
 
 void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 
+	std::lock_guard<std::mutex>lock(this->m_write_mtx);
+
 	if (this->m_stopped) {
 		throw Lambda::Error("Cannot send websocket message: connection was closed");
 	}
 
-	auto writeBuff = serializeMessage(msg);
+	auto writeBuff = serializeMessage(msg, this->m_sending_partial);
 	this->m_transport.writeRaw(writeBuff);
+
+	this->m_sending_partial = msg.partial;
 }
 
 std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
@@ -103,12 +107,13 @@ std::vector <uint8_t> Transport::serializeFrameHeader(const FrameHeader& header)
 	return resultBuffer;
 }
 
-std::vector<uint8_t> Transport::serializeMessage(const Message& message) {
+std::vector<uint8_t> Transport::serializeMessage(const Message& message, bool isContinuation) {
 
 	//	create frame buffer
+	//	note that only the first fragment of a message carries it's type
 	FrameHeader header {
 		message.partial ? FrameControlBits::BitContinue : FrameControlBits::BitFinal,
-		message.binary ? OpCode::Binary : OpCode::Text,
+		isContinuation ? OpCode::Continue : (message.binary ? OpCode::Binary : OpCode::Text),
 		static_cast<size_t>(0),
 		message.size(),
 	};
diff --git a/core/websocket/transport.hpp b/core/websocket/transport.hpp
index 56196e8..2fab05d 100644
--- a/core/websocket/transport.hpp
+++ b/core/websocket/transport.hpp
@@ -41,7 +41,7 @@ namespace Lambda::Websocket::Transport {
 	};
 
 	std::optional<FrameHeader> parseFrameHeader(const std::vector<uint8_t>& buffer);
-	std::vector <uint8_t> serializeMessage(const Websocket::Message& message);
+	std::vector <uint8_t> serializeMessage(const Websocket::Message& message, bool isContinuation);
 	std::vector <uint8_t> serializeFrameHeader(const FrameHeader& header);
 };
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 67227ba..3f9b8ee 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -61,6 +61,8 @@ namespace Lambda::Websocket {
 			std::queue<Websocket::Message> m_queue;
 			mutable std::mutex m_read_mtx;
 			std::atomic<bool> m_stopped = false;
+			std::mutex m_write_mtx;
+			bool m_sending_partial = false;
 			void asyncWorker();
 
 		public:
-- 
2.43.0


From 69af63b1d564f029ad19d77b7185eab24dc21b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 039/107] fix: don't send websocket frames after the close
 frame

---
 core/websocket/transport.cpp | 10 ++++++++--
 core/websocket/websocket.cpp |  5 ++++-
 core/websocket/websocket.hpp |  1 +
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/websocket/transport.cpp b/core/websocket/transport.cpp
index 1e088f6..c070bd5 100644
--- a/core/websocket/transport.cpp
+++ b/core/websocket/transport.cpp
@@ -38,6 +38,12 @@ void WebsocketContext::sendMessage(const Websocket::Message& msg) {
 	this->m_sending_partial = msg.partial;
 }
 
+void WebsocketContext::sendControlFrame(const std::vector<uint8_t>& frame) {
+	std::lock_guard<std::mutex>lock(this->m_write_mtx);
+	if (this->m_stopped) return;
+	this->m_transport.writeRaw(frame);
+}
+
 std::optional<FrameHeader> Transport::parseFrameHeader(const std::vector<uint8_t>& buffer) {
 
 	if (buffer.size() < FrameHeader::min_size) {
@@ -151,7 +157,7 @@ void WebsocketContext::asyncWorker() {
 
 			//	a frame must be written at once, there may be other threads sending messages
 			pingFrame.insert(pingFrame.end(), wsPingString.begin(), wsPingString.end());
-			this->m_transport.writeRaw(pingFrame);
+			this->sendControlFrame(pingFrame);
 
 			lastPing = std::chrono::steady_clock::now();
 		}
@@ -264,7 +270,7 @@ void WebsocketContext::asyncWorker() {
 				});
 
 				pongFrame.insert(pongFrame.end(), payloadBuff.begin(), payloadBuff.end());
-				this->m_transport.writeRaw(pongFrame);
+				this->sendControlFrame(pongFrame);
 
 			} break;
 
diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 61b15ab..2a148fd 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -80,7 +80,9 @@ WebsocketContext::~WebsocketContext() {
 
 void WebsocketContext::close(Websocket::CloseReason reason) {
 
-	//	both sides can decide to close the connection at the same time
+	//	both sides can decide to close the connection at the same time,
+	//	and nothing can be sent after a close frame
+	std::unique_lock<std::mutex>lock(this->m_write_mtx);
 	if (this->m_stopped.exchange(true)) return;
 
 	const auto closeReasonCode = Bits::netwnormx(static_cast<std::underlying_type_t<CloseReason>>(reason));
@@ -101,6 +103,7 @@ void WebsocketContext::close(Websocket::CloseReason reason) {
 	try { this->m_transport.writeRaw(closeMessageBuff); }
 		catch (...) {}
 
+	lock.unlock();
 	this->m_transport.close();
 }
 
diff --git a/core/websocket/websocket.hpp b/core/websocket/websocket.hpp
index 3f9b8ee..38acabb 100644
--- a/core/websocket/websocket.hpp
+++ b/core/websocket/websocket.hpp
@@ -64,6 +64,7 @@ namespace Lambda::Websocket {
 			std::mutex m_write_mtx;
 			bool m_sending_partial = false;
 			void asyncWorker();
+			void sendControlFrame(const std::vector<uint8_t>& frame);
 
 		public:
 			WebsocketContext(WebsocketInit init);
-- 
2.43.0


From 50bd928d406ef632f5fd05ff0bf0addb217c7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:39 +0000
Subject: [PATCH 040/107] fix: don't write anything after partially sent data

---
 core/network/tcp/connection.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index 11157bc..b4074db 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -99,8 +99,13 @@ void Connection::write(const std::vector<uint8_t>& data) {
 
 	const auto bytesSent = send(handle, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
 
-	if (static_cast<size_t>(bytesSent) != data.size())
+	if (static_cast<size_t>(bytesSent) != data.size()) {
+
+		//	whatever gets written next would look like a continuation of the data that was sent partially
+		if (bytesSent > 0) shutdown(handle, SD_BOTH);
+
 		throw NetworkError("Network error while writing data");
+	}
 }
 
 std::vector<uint8_t> Connection::read() {
-- 
2.43.0


From 2fc16bbb5d38fa7c3f3444d1cdc28b3f22363d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 041/107] fix: send each line of multiline SSE data as its own
 field

---
 core/sse/writer.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/core/sse/writer.cpp b/core/sse/writer.cpp
index fa8033f..492fb61 100644
--- a/core/sse/writer.cpp
+++ b/core/sse/writer.cpp
@@ -36,6 +36,13 @@ void Writer::push(const EventMessage& event) {
 
 	std::vector<std::pair<std::string, std::string>> messageFields;
 
+	//	there's no way to have a line break in these
+	for (const auto& item : { event.event, event.id }) {
+		if (item.has_value() && item.value().find_first_of("\r\n") != std::string::npos) {
+			throw Lambda::Error("SSE event name and id cannot contain line breaks");
+		}
+	}
+
 	if (event.event.has_value()) {
 		messageFields.push_back({ "event", event.event.value() });
 	}
@@ -44,7 +51,16 @@ void Writer::push(const EventMessage& event) {
 		messageFields.push_back({ "id", event.id.value() });
 	}
 
-	messageFields.push_back({ "data", event.data });
+	//	each line of the data must have it's own field
+	size_t lineStart = 0;
+	size_t lineEnd = 0;
+
+	while ((lineEnd = event.data.find_first_of("\r\n", lineStart)) != std::string::npos) {
+		messageFields.push_back({ "data", event.data.substr(lineStart, lineEnd - lineStart) });
+		lineStart = lineEnd + (event.data.compare(lineEnd, 2, "\r\n") == 0 ? 2 : 1);
+	}
+
+	messageFields.push_back({ "data", event.data.substr(lineStart) });
 
 	if (event.retry.has_value()) {
 		messageFields.push_back({ "retry", std::to_string(event.retry.value()) });
-- 
2.43.0


From 086fbfbd5ae4a6e129cd0eaceb0273df4c700f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 042/107] fix: don't terminate on static file paths that can't
 be looked up

---
 extra/staticserver/staticserver.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 34deef5..bf9dcf1 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -74,8 +74,10 @@ std::optional<std::string> StaticServer::resolvePath(const std::string& pathname
 
 	auto basePath = this->m_root + (pathname.starts_with('/') ? pathname : ('/' + pathname));
 
+	//	paths come from clients, so errors (like too long names) just mean that there's no such file
 	auto checkAvailability = [](const std::string& fspath) {
-		return std::filesystem::exists(fspath) && std::filesystem::is_regular_file(fspath);
+		std::error_code fserror;
+		return std::filesystem::is_regular_file(fspath, fserror);
 	};
 
 	if (checkAvailability(basePath)) {
@@ -128,7 +130,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	}
 
 	auto& resolvedFilePath = resolvedFile.value();
-	auto extension = std::filesystem::relative(resolvedFilePath).extension();
+	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
 	auto fileContent = readBinaryFileSync(resolvedFilePath);
-- 
2.43.0


From f7f7602caac896e803278eeb93ac2c82e6b0da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 043/107] fix: respond with 404 when a static file is removed
 before it's read

---
 extra/staticserver/staticserver.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index bf9dcf1..da6f1fb 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -12,9 +12,9 @@ using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTML;
 
-std::vector<uint8_t> readBinaryFileSync(const std::string& filepath) {
+std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
-	if (!readablefile.is_open()) return {};
+	if (!readablefile.is_open()) return std::nullopt;
 	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
 }
 
@@ -120,8 +120,11 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto normalizedPathname = flattenPathName(pathname);
 	auto resolvedFile = this->resolvePath(normalizedPathname);
 
+	//	note that the file can be removed at any moment
+	auto fileContent = resolvedFile.has_value() ? readBinaryFileSync(resolvedFile.value()) : std::nullopt;
+
 	//	return 404
-	if (!resolvedFile.has_value()) {
+	if (!fileContent.has_value()) {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
@@ -133,9 +136,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 	auto extension = std::filesystem::path(resolvedFilePath).extension();
 	auto mimetype = Content::getExtMimetype(extension.generic_string());
 
-	auto fileContent = readBinaryFileSync(resolvedFilePath);
-
 	return Response(200, {
 		{ "content-type", mimetype }
-	}, fileContent);
+	}, fileContent.value());
 }
-- 
2.43.0


From 6a3189ffbf8f74262c6d4fa2ce2e62b74b83c3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 044/107] fix: escape request paths on static server's not
 found pages

---
 core/html/html.hpp                  |  1 +
 core/html/renderer.cpp              | 19 +++++++++++++++++++
 core/server/errorpage.cpp           | 21 +--------------------
 extra/staticserver/staticserver.cpp |  2 +-
 4 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/core/html/html.hpp b/core/html/html.hpp
index 44efeab..4c5bece 100644
--- a/core/html/html.hpp
+++ b/core/html/html.hpp
@@ -12,6 +12,7 @@ namespace Lambda::HTML {
 
 	typedef std::map<std::string, std::string> TemplateProps;
 	std::string renderTemplate(const std::string& templateSource, const TemplateProps& props);
+	std::string escapeText(const std::string& text);
 };
 
 #endif
diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 5fe5613..7c81ceb 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -104,3 +104,22 @@ std::optional<std::string> getTemplateVariableFromSlice(const std::string& sourc
 	auto varnameLength = ((varnameEnd != std::string::npos ? varnameEnd : endpost) - varnameStart);
 	return source.substr(varnameStart, varnameLength);
 }
+
+std::string HTML::escapeText(const std::string& text) {
+
+	std::string result;
+	result.reserve(text.size());
+
+	for (auto symbol : text) {
+		switch (symbol) {
+			case '&': result += "&amp;"; break;
+			case '<': result += "&lt;"; break;
+			case '>': result += "&gt;"; break;
+			case '\"': result += "&quot;"; break;
+			case '\'': result += "&#39;"; break;
+			default: result.push_back(symbol); break;
+		}
+	}
+
+	return result;
+}
diff --git a/core/server/errorpage.cpp b/core/server/errorpage.cpp
index c47be72..73d6f31 100644
--- a/core/server/errorpage.cpp
+++ b/core/server/errorpage.cpp
@@ -9,25 +9,6 @@ using namespace Lambda::HTML;
 using namespace Lambda::Server;
 using namespace Lambda::Server::Pages;
 
-static std::string escapeHtml(const std::string& text) {
-
-	std::string result;
-	result.reserve(text.size());
-
-	for (auto symbol : text) {
-		switch (symbol) {
-			case '&': result += "&amp;"; break;
-			case '<': result += "&lt;"; break;
-			case '>': result += "&gt;"; break;
-			case '\"': result += "&quot;"; break;
-			case '\'': result += "&#39;"; break;
-			default: result.push_back(symbol); break;
-		}
-	}
-
-	return result;
-}
-
 HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& message) {
 	return renderErrorPage(code, message, ErrorResponseType::HTML);
 }
@@ -42,7 +23,7 @@ HTTP::Response Pages::renderErrorPage(HTTP::Status code, const std::string& mess
 			errorResponse.body = renderTemplate(Templates::servicePage, {
 				{ "svcpage_statuscode", std::to_string(code.code()) },
 				{ "svcpage_statustext", code.text() },
-				{ "svcpage_message_text", escapeHtml(message) }
+				{ "svcpage_message_text", escapeText(message) }
 			});
 			errorResponse.headers.set("content-type", "text/html");
 		} break;
diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index da6f1fb..4557ea3 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -128,7 +128,7 @@ HTTP::Response StaticServer::serve(const std::string& pathname) const noexcept {
 		return Response(404, renderTemplate(Templates::servicePage, {
 			{ "svcpage_statuscode", "404" },
 			{ "svcpage_statustext", "Resource not found" },
-			{ "svcpage_message_text", '"' + pathname + "\" could not be located" }
+			{ "svcpage_message_text", escapeText('"' + pathname + "\" could not be located") }
 		}));
 	}
 
-- 
2.43.0


From f2e4d3b568564bd57ef04c99bf825e2066aaf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 045/107] fix: find media types of uppercase file extensions

---
 core/polyfill/mimetype.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/polyfill/mimetype.cpp b/core/polyfill/mimetype.cpp
index 06d855c..68527a8 100644
--- a/core/polyfill/mimetype.cpp
+++ b/core/polyfill/mimetype.cpp
@@ -1185,7 +1185,7 @@ static const std::unordered_map<std::string, std::string> mimetypeMap = {
 std::string Content::getExtMimetype(const std::string& ext) {
 
 	auto dotidx = ext.find_last_of('.');
-	auto fileExtNormalized = (dotidx == std::string::npos) ? ext : ext.substr(dotidx + 1);
+	auto fileExtNormalized = Strings::toLowerCase((dotidx == std::string::npos) ? ext : ext.substr(dotidx + 1));
 
 	if (!mimetypeMap.contains(fileExtNormalized))
 		return "application/octet-stream";
-- 
2.43.0


From a71e2f62fea6036aaeaa07283298397316b8d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 046/107] fix: respond with 404 when a static file cannot be
 read

---
 extra/staticserver/staticserver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 4557ea3..58df7f3 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -15,7 +15,12 @@ using namespace Lambda::HTML;
 std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepath) {
 	auto readablefile = std::fstream(filepath, std::ios::in | std::ios::binary);
 	if (!readablefile.is_open()) return std::nullopt;
-	return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	try {
+		return std::vector<uint8_t>(std::istreambuf_iterator<char>(readablefile), {});
+	} catch (const std::ios_base::failure&) {
+		//	it's not readable, that can be a directory that took place of the file
+		return std::nullopt;
+	}
 }
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
-- 
2.43.0


From 4fb4041adffc5b348a86da1ccf8b1279991e62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:44 +0000
Subject: [PATCH 047/107] fix: keep IPv6 addresses in one piece when splitting
 host name and port

---
 core/http/transport_v1.cpp | 3 ++-
 core/http/url.cpp          | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index bb3ed82..8e53978 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -145,7 +145,8 @@ bool TransportContextV1::awaitNext() {
 	}
 
 	const auto hostHeader = next.headers.get("host");
-	const auto hostHeaderSem = hostHeader.size() ? hostHeader.find(':') : std::string::npos;
+	//	note that IPv6 addresses have colons inside of their brackets
+	const auto hostHeaderSem = hostHeader.find(':', hostHeader.starts_with('[') ? std::min(hostHeader.find(']'), hostHeader.size()) : 0);
 
 	const auto& conninfo = this->m_conn.info();
 
diff --git a/core/http/url.cpp b/core/http/url.cpp
index 102c389..e1c345a 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -2,6 +2,7 @@
 #include "../polyfill/polyfill.hpp"
 
 #include <stdexcept>
+#include <algorithm>
 
 using namespace Lambda::HTTP;
 using namespace Lambda::Strings;
@@ -64,7 +65,8 @@ void URL::parse(const std::string& href) {
 			this->host = addrString;
 
 			//	get hostname and port
-			cursor = addrString.find(':');
+			//	note that IPv6 addresses have colons inside of their brackets
+			cursor = addrString.find(':', addrString.starts_with('[') ? std::min(addrString.find(']'), addrString.size()) : 0);
 			if (cursor != std::string::npos) {
 				this->port = addrString.substr(cursor + 1);
 				this->hostname = addrString.substr(0, cursor);
-- 
2.43.0


From 72f3128298484c1315eb25842084c508d32186ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 048/107] fix: make request cookies with uppercase names
 accessible

---
 core/http/cookies.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index e588f68..7c34111 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -14,7 +14,8 @@ Cookies::Cookies(const std::string& cookiestring) {
 		auto kvSeparatorIdx = entry.find('=');
 		if (kvSeparatorIdx == std::string::npos || kvSeparatorIdx == 0 || kvSeparatorIdx == entry.size() - 1) continue;
 
-		auto key = Strings::trim(entry.substr(0, kvSeparatorIdx));
+		//	all the lookups are case-insensitive so the keys must be normalized too
+		auto key = Strings::toLowerCase(Strings::trim(entry.substr(0, kvSeparatorIdx)));
 		auto value = Strings::trim(entry.substr(kvSeparatorIdx + 1));
 
 		if (!key.size() || !value.size()) continue;
-- 
2.43.0


From fe1ca936a8e4f131b4e6d0e4b2f8de9d34455c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 049/107] fix: preserve set cookies when copying and moving
 cookie containers

---
 core/http/cookies.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 7c34111..2ec44c1 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -26,19 +26,23 @@ Cookies::Cookies(const std::string& cookiestring) {
 
 Cookies::Cookies(const Cookies& other) {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 }
 
 Cookies::Cookies(Cookies&& other) {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 }
 
 Cookies& Cookies::operator=(const Cookies& other) noexcept {
 	this->m_data = other.m_data;
+	this->m_set_queue = other.m_set_queue;
 	return *this;
 }
 
 Cookies& Cookies::operator=(Cookies&& other) noexcept {
 	this->m_data = std::move(other.m_data);
+	this->m_set_queue = std::move(other.m_set_queue);
 	return *this;
 }
 
-- 
2.43.0


From 89373e05ed8db3b035bc66cdc577c784c3c5dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 050/107] fix: serialize expiration of deleted cookies as an
 attribute

---
 core/http/cookies.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/cookies.cpp b/core/http/cookies.cpp
index 2ec44c1..31b5666 100644
--- a/core/http/cookies.cpp
+++ b/core/http/cookies.cpp
@@ -74,7 +74,7 @@ void Cookies::del(const std::string& key) {
 	const auto keyNormalized = Strings::toLowerCase(key);
 	if (!this->m_data.contains(keyNormalized)) return;
 	this->m_data.erase(keyNormalized);
-	this->m_set_queue[keyNormalized] = { "", { "expires", "Thu, Jan 01 1970 00:00:00 UTC" } };
+	this->m_set_queue[keyNormalized] = { "", { { "expires", "Thu, 01 Jan 1970 00:00:00 GMT" } } };
 }
 
 std::vector<KVpair> Cookies::entries() const {
-- 
2.43.0


From 39efd1aabd95549f859c8c96086c06ba3d11709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 051/107] fix: don't copy and rescan JSON text at each nesting
 level

---
 core/json/parse.cpp | 46 +++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index dcd96b6..1c13334 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -1,9 +1,9 @@
 #include "./json.hpp"
-#include "../../core/polyfill/polyfill.hpp"
 
 #include <array>
 #include <map>
 #include <stdexcept>
+#include <string_view>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -11,6 +11,8 @@ using namespace Lambda::JSON;
 //	limits recursion so that a document can't cause a stack overflow
 static const size_t maxNestingDepth = 512;
 
+static const std::string_view whitespaceChars = " \t\r\n";
+
 static const std::map<char, char> stringUnescapeTable = {
 	{ 'n', '\n' },
 	{ 'r', '\r' },
@@ -25,7 +27,7 @@ static const std::map<char, char> stringUnescapeTable = {
 /**
  * Finds a double quote that closes the string opened at a given position
 */
-static size_t findStringEnd(const std::string& text, size_t openPos) {
+static size_t findStringEnd(std::string_view text, size_t openPos) {
 
 	size_t backslashes = 0;
 
@@ -42,7 +44,7 @@ static size_t findStringEnd(const std::string& text, size_t openPos) {
 
 			//	double escaped quotes are tolerated as long as there's something else in the string
 			const auto next = text.find_first_not_of(" \t\r\n", i + 1);
-			if (next == std::string::npos || std::string(",:]}").find(text[next]) != std::string::npos) {
+			if (next == std::string_view::npos || std::string_view(",:]}").find(text[next]) != std::string_view::npos) {
 				return i;
 			}
 		}
@@ -53,7 +55,7 @@ static size_t findStringEnd(const std::string& text, size_t openPos) {
 	throw std::runtime_error("Invalid JSON: unterminated string");
 }
 
-static uint32_t parseUnicodeEscape(const std::string& text, size_t pos) {
+static uint32_t parseUnicodeEscape(std::string_view text, size_t pos) {
 
 	uint32_t result = 0;
 
@@ -89,7 +91,7 @@ static void appendUtf8(std::string& text, uint32_t codepoint) {
 	}
 }
 
-static std::string unescapeString(const std::string& text) {
+static std::string unescapeString(std::string_view text) {
 
 	std::string result;
 	result.reserve(text.size());
@@ -135,7 +137,7 @@ static std::string unescapeString(const std::string& text) {
 	return result;
 }
 
-static std::string parseString(const std::string& text) {
+static std::string parseString(std::string_view text) {
 
 	if (findStringEnd(text, 0) != text.size() - 1)
 		throw std::runtime_error("Invalid JSON: unescaped double quote");
@@ -156,9 +158,17 @@ static Property parseNumber(const std::string& text) {
 	return result;
 }
 
-static Property parseValue(const std::string& text, size_t depth) {
+static std::string_view trimText(std::string_view text) {
+
+	const auto start = text.find_first_not_of(whitespaceChars);
+	if (start == std::string_view::npos) return {};
+
+	return text.substr(start, text.find_last_not_of(whitespaceChars) - start + 1);
+}
+
+static Property parseValue(std::string_view text, size_t depth) {
 
-	auto objectText = Strings::trim(text);
+	const auto objectText = trimText(text);
 	if (!objectText.size()) throw std::runtime_error("Invalid JSON: empty text");
 	if (depth > maxNestingDepth) throw std::runtime_error("Invalid JSON: too many nested values");
 
@@ -169,7 +179,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 		if (objectText.starts_with('\"')) {
 			return Property(parseString(objectText));
 		} else if (isdigit(static_cast<uint8_t>(objectText.at(0))) || objectText.starts_with('-')) {
-			return parseNumber(objectText);
+			return parseNumber(std::string(objectText));
 		} else if ((objectText.starts_with('t') || objectText.starts_with('f')) && objectText.ends_with('e')) {
 			return Property(objectText == "true");
 		} else {
@@ -181,7 +191,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 		throw std::runtime_error("Invalid JSON: unexpected end of text");
 	}
 
-	std::vector<std::string> entries;
+	std::vector<std::string_view> entries;
 
 	//	split this shit into segments between commas
 	size_t ptnss_object = 0;
@@ -211,6 +221,10 @@ static Property parseValue(const std::string& text, size_t depth) {
 			default: break;
 		}
 
+		//	there's no point in going any deeper if it's known that the limit will be reached
+		if (depth + ptnss_object + ptnss_array > maxNestingDepth)
+			throw std::runtime_error("Invalid JSON: too many nested values");
+
 		if (!ptnss_object && !ptnss_array && objectText[i] == ',') {
 			entries.push_back(objectText.substr(segmentStart, i - segmentStart));
 			segmentStart = i + 1;
@@ -220,7 +234,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 	const auto lastEntry = objectText.substr(segmentStart, objectText.size() - segmentStart - 1);
 
 	//	the only case when an entry is allowed to be empty is an empty object or array
-	if (entries.size() || Strings::trim(lastEntry).size()) {
+	if (entries.size() || trimText(lastEntry).size()) {
 		entries.push_back(lastEntry);
 	}
 
@@ -229,7 +243,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 		std::vector<Property> temp;
 
 		for (const auto& entry : entries) {
-			auto entryTrimmed = Strings::trim(entry);
+			auto entryTrimmed = trimText(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
@@ -242,7 +256,7 @@ static Property parseValue(const std::string& text, size_t depth) {
 
 		for (const auto& entry : entries) {
 
-			auto entryTrimmed = Strings::trim(entry);
+			auto entryTrimmed = trimText(entry);
 			if (!entryTrimmed.size()) throw std::runtime_error("Invalid JSON: trailing comma has been found");
 
 			auto keyEnded = std::string::npos;
@@ -258,9 +272,9 @@ static Property parseValue(const std::string& text, size_t depth) {
 
 			if (keyEnded == std::string::npos) throw std::runtime_error("Invalid JSON: no separator after property name");
 
-			auto key = Strings::trim(entryTrimmed.substr(0, keyEnded));
-			auto value = Strings::trim(entryTrimmed.substr(keyEnded + 1));
-			auto useKey = key.starts_with('\"') ? parseString(key) : key;
+			auto key = trimText(entryTrimmed.substr(0, keyEnded));
+			auto value = trimText(entryTrimmed.substr(keyEnded + 1));
+			auto useKey = key.starts_with('\"') ? parseString(key) : std::string(key);
 
 			temp[useKey] = parseValue(value, depth + 1);
 		}
-- 
2.43.0


From b29e1808ef074e35e47fe2bd2938f58ec735d734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 052/107] fix: don't treat exhausted buffers as errors in
 one-shot zlib functions

---
 core/compression/zlib_oneshot.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/compression/zlib_oneshot.cpp b/core/compression/zlib_oneshot.cpp
index 5d6e453..191d8b5 100644
--- a/core/compression/zlib_oneshot.cpp
+++ b/core/compression/zlib_oneshot.cpp
@@ -77,7 +77,9 @@ std::vector<uint8_t> Compress::zlibCompressBuffer(const std::vector<uint8_t>& in
 				zlib.stream.next_out = compressed.data() + cursor_out;
 
 				opres = deflate(&zlib.stream, eob ? Z_FINISH : Z_NO_FLUSH);
-				if (opres < 0) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
+
+				//	buffer error isn't fatal and only means that there's nothing more to process at this point
+				if (opres < 0 && opres != Z_BUF_ERROR) throw std::runtime_error("deflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
@@ -126,7 +128,9 @@ std::vector<uint8_t> Compress::zlibDecompressBuffer(const std::vector<uint8_t>&
 				zlib.stream.next_out = decompressed.data() + cursor_out;
 
 				opres = inflate(&zlib.stream, Z_NO_FLUSH);
-				if (opres < Z_OK || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
+
+				//	buffer error isn't fatal and only means that there's nothing more to process at this point
+				if ((opres < Z_OK && opres != Z_BUF_ERROR) || opres > Z_STREAM_END) throw std::runtime_error("inflate stream error: code " + std::to_string(opres));
 
 				cursor_out += zlib.chunk - zlib.stream.avail_out;
 
-- 
2.43.0


From 709366127e13b91b060118d592325f410290c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 053/107] fix: reject any unused data after brotli streams

---
 core/compression/brotli.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 83b9ead..7da70fe 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -115,7 +115,7 @@ std::vector<uint8_t> Compress::brotliDecompressBuffer(const std::vector<uint8_t>
 		bool eob = false;
 
 		auto next_in = input.data() + cursor_in;
-		size_t available_in = br.chunk;
+		size_t available_in = 0;
 
 		auto next_out = decompressed.data() + cursor_out;
 		size_t available_out = 0;
@@ -152,10 +152,7 @@ std::vector<uint8_t> Compress::brotliDecompressBuffer(const std::vector<uint8_t>
 					decompressed.resize(cursor_out - available_out);
 					decompressed.shrink_to_fit();
 
-					available_in = 0;
-					available_out = 0;
-
-					if (cursor_in < input.size()) {
+					if (available_in || cursor_in < input.size()) {
 						throw std::runtime_error("Unused data after brotli stream");
 					}
 
-- 
2.43.0


From cbdc51a9c6500b0ae4953704af8e6f16c1974cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 054/107] fix: don't treat exhausted buffers as errors in gzip
 streams

---
 core/compression/zlib_stream_compress.cpp   | 4 ++--
 core/compression/zlib_stream_decompress.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index c05e567..0c96dd0 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -70,13 +70,13 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next,
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
 				this->m_stage = Stage::Ended;
 			} break;
 
+			//	Z_BUF_ERROR also goes here, it's not fatal and only means that there's nothing more to process yet
 			default: break;
 		}
 
@@ -120,8 +120,8 @@ std::vector<uint8_t> GzipStreamCompressor::end() {
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
+			//	Z_BUF_ERROR also goes here, it's not fatal and only means that there's nothing more to process yet
 			default: break;
 		}
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index f3ba8c8..9ba7bfd 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -68,13 +68,13 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_STREAM_ERROR: throw std::runtime_error("inflate error: stream error");
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
-			case Z_BUF_ERROR: throw std::runtime_error("inflate error: buffer error");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
 
 			case Z_STREAM_END: {
 				this->m_stage = Stage::Done;
 			} break;
 
+			//	Z_BUF_ERROR also goes here, it's not fatal and only means that there's nothing more to process yet
 			default: break;
 		}
 
-- 
2.43.0


From 7b8108310124361437d434367237387814b911e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 055/107] fix: release all of the gzip stream compressor's
 memory

---
 core/compression/zlib_stream_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 0c96dd0..0d5b1ce 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -37,7 +37,7 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 
 GzipStreamCompressor::~GzipStreamCompressor() {
 	if (this->m_stream == nullptr) return;
-	(void)inflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
+	(void)deflateEnd(reinterpret_cast<z_stream*>(this->m_stream));
 	delete reinterpret_cast<z_stream*>(this->m_stream);
 }
 
-- 
2.43.0


From 15a17dbb65fc274cd1fefb3edcf77b75ed7148c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 056/107] fix: release previous streams when move assigning
 gzip streams

---
 core/compression/zlib_stream_compress.cpp   | 7 ++++---
 core/compression/zlib_stream_decompress.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 0d5b1ce..fe3ca2e 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamCompressor::GzipStreamCompressor(GzipStreamCompressor&& other) {
 }
 
 GzipStreamCompressor& GzipStreamCompressor::operator=(GzipStreamCompressor&& other) {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	the other object will dispose of the previous stream
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 9ba7bfd..57c276e 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -4,6 +4,7 @@
 #include <zlib.h>
 #include <stdexcept>
 #include <array>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::Compress;
@@ -15,9 +16,9 @@ GzipStreamDecompressor::GzipStreamDecompressor(GzipStreamDecompressor&& other) {
 }
 
 GzipStreamDecompressor& GzipStreamDecompressor::operator=(GzipStreamDecompressor&& other) noexcept {
-	this->m_stage = other.m_stage;
-	this->m_stream = other.m_stream;
-	other.m_stream = nullptr;
+	//	the other object will dispose of the previous stream
+	std::swap(this->m_stage, other.m_stage);
+	std::swap(this->m_stream, other.m_stream);
 	return *this;
 }
 
-- 
2.43.0


From e51cd5e8ee393d511af0d7d0fc3054fc0e3e8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 057/107] fix: don't leak gzip stream memory when it can't be
 initialized

---
 core/compression/zlib_stream_compress.cpp   | 1 +
 core/compression/zlib_stream_decompress.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index fe3ca2e..4af49b7 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -32,6 +32,7 @@ GzipStreamCompressor::GzipStreamCompressor(Quality quality) {
 	auto initResult = deflateInit2(reinterpret_cast<z_stream*>(this->m_stream), qualityAsInt, Z_DEFLATED, winbitsAsInt, 8, Z_DEFAULT_STRATEGY);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 57c276e..92104f7 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -30,6 +30,7 @@ GzipStreamDecompressor::GzipStreamDecompressor() {
 	auto initResult = inflateInit2(reinterpret_cast<z_stream*>(this->m_stream), 32);
 	
 	if (initResult != Z_OK) {
+		delete reinterpret_cast<z_stream*>(this->m_stream);
 		throw std::runtime_error("Could not initialize deflate (zlib error code " + std::to_string(initResult) + ')');
 	}
 }
-- 
2.43.0


From 4154c1b504bde0849cea4ecc9fccff8af1de494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 058/107] fix: allow to end gzip streams that don't have any
 data

---
 core/compression/zlib_stream_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compression/zlib_stream_compress.cpp b/core/compression/zlib_stream_compress.cpp
index 4af49b7..49f8b67 100644
--- a/core/compression/zlib_stream_compress.cpp
+++ b/core/compression/zlib_stream_compress.cpp
@@ -96,7 +96,7 @@ std::vector<uint8_t> GzipStreamCompressor::nextChunk(std::vector<uint8_t>& next)
 
 std::vector<uint8_t> GzipStreamCompressor::end() {
 
-	if (this->m_stage != Stage::Progress) {
+	if (this->m_stage == Stage::Ended) {
 		throw std::runtime_error("Cannot end a stream that has been already ended");
 	}
 
-- 
2.43.0


From 38a234a9f4b839e667341ab36893046174186ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 059/107] fix: open storage files that are in the current
 directory

---
 extra/kvstorage/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index d157c41..f1474e2 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -120,7 +120,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	auto dbfileParentDir = std::filesystem::path(this->m_filename).remove_filename();
-	if (!std::filesystem::exists(dbfileParentDir)) {
+	if (!dbfileParentDir.empty() && !std::filesystem::exists(dbfileParentDir)) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-- 
2.43.0


From a83cfa47901bb64ef8f08237a404857aa193ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 060/107] fix: don't leak storage data when the file cannot be
 loaded

---
 extra/kvstorage/driver.cpp | 18 ++++--------------
 extra/kvstorage/driver.hpp |  2 +-
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index f1474e2..a40e1e5 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -38,7 +38,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
-		this->m_init_data = new Container();
+		this->m_init_data.emplace();
 
 		while (this->m_stream.is_open() && !this->m_stream.eof()) {
 
@@ -135,7 +135,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 	this->m_stream.write((const char*)&dbHeader, sizeof(dbHeader));
 
-	if (this->m_init_data != nullptr) {
+	if (this->m_init_data.has_value()) {
 		for (const auto& entry : *this->m_init_data) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
@@ -146,22 +146,12 @@ Driver::~Driver() {
 
 	this->m_stream.flush();
 	this->m_stream.close();
-	
-	if (this->m_init_data) {
-		delete this->m_init_data;
-	}
 }
 
 std::optional<Container> Driver::sync() {
 
-	if (this->m_init_data == nullptr) {
-		return std::nullopt;
-	}
-
-	auto temp = std::move(*this->m_init_data);
-
-	delete this->m_init_data;
-	this->m_init_data = nullptr;
+	auto temp = std::move(this->m_init_data);
+	this->m_init_data.reset();
 
 	return temp;
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index a586969..b8b5fae 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -15,7 +15,7 @@ namespace Lambda::Storage::KVStorage {
 
 			const std::string m_filename;
 			std::fstream m_stream;
-			Container* m_init_data = nullptr;
+			std::optional<Container> m_init_data;
 
 			struct DBBasicHeader {
 				char magic[sizeof(magicstring) - 1];
-- 
2.43.0


From 56b6f6e945822afeb4c0af7f8b9c15d5439cb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 061/107] fix: open storage files with an incomplete record at
 the end

---
 extra/kvstorage/driver.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index a40e1e5..ef4397a 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -3,6 +3,7 @@
 #include "./kvstorage.hpp"
 #include "../../core/utils/utils.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <vector>
 #include <iterator>
@@ -20,21 +21,21 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			throw std::runtime_error("Could not open \"" + this->m_filename + "\" for read");
 		}
 
+		const auto fileSize = static_cast<uint64_t>(std::filesystem::file_size(this->m_filename));
+
 		DBBasicHeader dbHeader;
+		memset(&dbHeader, 0, sizeof(dbHeader));
 		this->m_stream.read((char*)&dbHeader, sizeof(dbHeader));
 		dbHeader.version = Bits::storenormx(dbHeader.version);
 
 		//	check if a file is even our db
-		if (memcmp(dbHeader.magic, this->magicstring, sizeof(dbHeader.magic))) {
+		const auto dbHeaderSize = static_cast<size_t>(this->m_stream.gcount());
+		if (memcmp(dbHeader.magic, this->magicstring, std::min(dbHeaderSize, sizeof(dbHeader.magic)))) {
 			throw std::runtime_error("File \"" + this->m_filename + "\" is not recognized as a db file");
 		}
 
-		if (this->m_stream.gcount() != sizeof(dbHeader)) {
-			throw std::runtime_error("Corrupt db file: cound not read db version");
-		}
-
 		//	replace it later with proper version handling
-		if (dbHeader.version != this->version) {
+		if (dbHeaderSize == sizeof(dbHeader) && dbHeader.version != this->version) {
 			throw std::runtime_error("Unsupported db version");
 		}
 
@@ -44,17 +45,18 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 			RecordHeader recordHeader;
 			this->m_stream.read((char*)&recordHeader, sizeof(recordHeader));
-			auto lastRead = this->m_stream.gcount();
-			
-			if (lastRead != sizeof(recordHeader)) {
-				if (!lastRead) break;
-				throw std::runtime_error("Corrupt db file: incomplete record header");
-			}
+
+			//	an incomplete record at the end of the file means that the process has died writing it,
+			//	everything that was written before that is still usable
+			if (this->m_stream.gcount() != sizeof(recordHeader)) break;
 
 			auto opationType = static_cast<TransactionType>(Bits::storenormx(recordHeader.type));
 			recordHeader.keySize = Bits::storenormx(recordHeader.keySize);
 			recordHeader.valueSize = Bits::storenormx(recordHeader.valueSize);
 
+			const auto recordDataSize = static_cast<uint64_t>(recordHeader.keySize) + recordHeader.valueSize;
+			if (recordDataSize > fileSize - static_cast<uint64_t>(this->m_stream.tellg())) break;
+
 			switch (opationType) {
 
 				case TransactionType::Put: {
-- 
2.43.0


From 621ec6c58a86917ed7c1b2b03550cc69058fbe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 062/107] fix: replace storage files atomically when opening
 them

---
 extra/kvstorage/driver.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index ef4397a..2a54b90 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -126,9 +126,12 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		std::filesystem::create_directories(dbfileParentDir);
 	}
 
-	this->m_stream = std::fstream(this->m_filename, std::ios::out | std::ios::binary);
+	//	writing to a temporary file first so that there's always a usable one in case the process dies
+	const auto tempFilename = this->m_filename + ".tmp";
+
+	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary | std::ios::trunc);
 	if (!this->m_stream.is_open()) {
-		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+		throw std::runtime_error("Failed to open db file for write: " + tempFilename);
 	}
 
 	DBBasicHeader dbHeader;
@@ -142,6 +145,18 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 			this->handleTransaction({ TransactionType::Put, &entry.first, &entry.second });
 		}
 	}
+
+	this->m_stream.close();
+	if (this->m_stream.fail()) {
+		throw std::runtime_error("Failed to write db file: " + tempFilename);
+	}
+
+	std::filesystem::rename(tempFilename, this->m_filename);
+
+	this->m_stream.open(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	if (!this->m_stream.is_open()) {
+		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
+	}
 }
 
 Driver::~Driver() {
-- 
2.43.0


From 63ba1121ed51a10779d1503306677615844756fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 063/107] fix: reject keys and values that are too long to be
 stored

---
 extra/kvstorage/driver.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 2a54b90..6531567 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -7,6 +7,7 @@
 #include <filesystem>
 #include <vector>
 #include <iterator>
+#include <limits>
 #include <memory.h>
 
 using namespace Lambda::Storage;
@@ -175,6 +176,22 @@ std::optional<Container> Driver::sync() {
 
 void Driver::handleTransaction(const Transaction& tractx) {
 
+	if (tractx.type != TransactionType::Clear && tractx.key == nullptr) {
+		throw std::runtime_error("a transaction should specify a key to operate on");
+	}
+
+	if (tractx.type == TransactionType::Put && tractx.value == nullptr) {
+		throw std::runtime_error("a write transaction should provida a value");
+	}
+
+	if (tractx.key && tractx.key->size() > std::numeric_limits<uint16_t>::max()) {
+		throw std::runtime_error("a key is too long to be stored");
+	}
+
+	if (tractx.value && tractx.value->size() > std::numeric_limits<uint32_t>::max()) {
+		throw std::runtime_error("a value is too long to be stored");
+	}
+
 	Driver::RecordHeader recordHeader {
 		Bits::storenormx(static_cast<std::underlying_type_t<TransactionType>>(tractx.type)),
 		Bits::storenormx(static_cast<uint16_t>(tractx.key ? tractx.key->size() : 0)),
@@ -184,20 +201,10 @@ void Driver::handleTransaction(const Transaction& tractx) {
 	this->m_stream.write((const char*)&recordHeader, sizeof(recordHeader));
 
 	if (tractx.type != TransactionType::Clear) {
-
-		if (tractx.key == nullptr) {
-			throw std::runtime_error("a transaction should specify a key to operate on");
-		}
-
 		this->m_stream.write(tractx.key->data(), tractx.key->size());
 	}
 
 	if (tractx.type == TransactionType::Put) {
-
-		if (tractx.value == nullptr) {
-			throw std::runtime_error("a write transaction should provida a value");
-		}
-
 		this->m_stream.write(tractx.value->data(), tractx.value->size());
 	}
 
-- 
2.43.0


From 04dcd8c59d18543a739bb145c770ee59267e5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 064/107] fix: report failed storage writes and leave stored
 data unchanged

---
 extra/kvstorage/driver.cpp    | 28 ++++++++++++++++++++++++++++
 extra/kvstorage/driver.hpp    |  6 ++++++
 extra/kvstorage/interface.cpp |  7 ++++---
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 6531567..74daafe 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -129,6 +129,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 
 	//	writing to a temporary file first so that there's always a usable one in case the process dies
 	const auto tempFilename = this->m_filename + ".tmp";
+	this->m_activeFile = tempFilename;
 
 	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary | std::ios::trunc);
 	if (!this->m_stream.is_open()) {
@@ -140,6 +141,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	dbHeader.version = Bits::storenormx(this->version);
 
 	this->m_stream.write((const char*)&dbHeader, sizeof(dbHeader));
+	this->m_size = sizeof(dbHeader);
 
 	if (this->m_init_data.has_value()) {
 		for (const auto& entry : *this->m_init_data) {
@@ -153,6 +155,7 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	std::filesystem::rename(tempFilename, this->m_filename);
+	this->m_activeFile = this->m_filename;
 
 	this->m_stream.open(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
 	if (!this->m_stream.is_open()) {
@@ -198,6 +201,11 @@ void Driver::handleTransaction(const Transaction& tractx) {
 		Bits::storenormx(static_cast<uint32_t>(tractx.value ? tractx.value->size() : 0))
 	};
 
+	//	a previous write might have failed without a possibility to recover at that time
+	if (!this->m_stream.is_open()) {
+		this->rollback();
+	}
+
 	this->m_stream.write((const char*)&recordHeader, sizeof(recordHeader));
 
 	if (tractx.type != TransactionType::Clear) {
@@ -209,4 +217,24 @@ void Driver::handleTransaction(const Transaction& tractx) {
 	}
 
 	this->m_stream.flush();
+
+	if (this->m_stream.fail()) {
+		this->rollback();
+		throw std::runtime_error("Failed to write db file: " + this->m_filename);
+	}
+
+	this->m_size += sizeof(recordHeader) + (tractx.key ? tractx.key->size() : 0) + (tractx.value ? tractx.value->size() : 0);
+}
+
+void Driver::rollback() {
+
+	//	get rid of whatever was left of the failed record
+	this->m_stream.close();
+	this->m_stream.clear();
+
+	std::error_code error;
+	std::filesystem::resize_file(this->m_activeFile, this->m_size, error);
+	if (error) return;
+
+	this->m_stream.open(this->m_activeFile, std::ios::out | std::ios::app | std::ios::binary);
 }
diff --git a/extra/kvstorage/driver.hpp b/extra/kvstorage/driver.hpp
index b8b5fae..74dcdad 100644
--- a/extra/kvstorage/driver.hpp
+++ b/extra/kvstorage/driver.hpp
@@ -15,6 +15,12 @@ namespace Lambda::Storage::KVStorage {
 
 			const std::string m_filename;
 			std::fstream m_stream;
+
+			//	path and size of the file that's being written to, excluding any failed writes
+			std::string m_activeFile;
+			uint64_t m_size = 0;
+
+			void rollback();
 			std::optional<Container> m_init_data;
 
 			struct DBBasicHeader {
diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 9f4ecd4..2cff243 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -56,22 +56,23 @@ void StorageInterface::removeItem(const std::string& key) {
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
 	if (!this->data.contains(key)) return;
-	this->data.erase(key);
 
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Remove, &key });
 	}
+
+	this->data.erase(key);
 }
 
 void StorageInterface::clear() {
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	this->data.clear();
-
 	if (this->driver != nullptr) {
 		this->driver->handleTransaction({ TransactionType::Clear });
 	}
+
+	this->data.clear();
 }
 
 size_t StorageInterface::size() const noexcept {
-- 
2.43.0


From ef2d4015c721ab17559402624d44f1c9760da33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:36 +0000
Subject: [PATCH 065/107] fix: lock storage when checking for items and
 counting them

---
 extra/kvstorage/interface.cpp | 2 ++
 extra/kvstorage/kvstorage.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 2cff243..61322c5 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -30,6 +30,7 @@ StorageInterface::~StorageInterface() {
 }
 
 bool StorageInterface::hasItem(const std::string& key) const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.contains(key);
 }
 
@@ -76,5 +77,6 @@ void StorageInterface::clear() {
 }
 
 size_t StorageInterface::size() const noexcept {
+	std::lock_guard <std::mutex> lock(this->mtlock);
 	return this->data.size();
 }
diff --git a/extra/kvstorage/kvstorage.hpp b/extra/kvstorage/kvstorage.hpp
index 56e18b7..b971b76 100644
--- a/extra/kvstorage/kvstorage.hpp
+++ b/extra/kvstorage/kvstorage.hpp
@@ -27,7 +27,7 @@ namespace Lambda::Storage {
 		class StorageInterface {
 			protected:
 				Container data;
-				std::mutex mtlock;
+				mutable std::mutex mtlock;
 				Driver* driver = nullptr;
 
 			public:
-- 
2.43.0


From 5e9fe99a477f48239410267aac65989dfeded003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 066/107] fix: preserve links to storage files and their
 permissions

---
 extra/kvstorage/driver.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/extra/kvstorage/driver.cpp b/extra/kvstorage/driver.cpp
index 74daafe..cb7badc 100644
--- a/extra/kvstorage/driver.cpp
+++ b/extra/kvstorage/driver.cpp
@@ -128,7 +128,9 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 	}
 
 	//	writing to a temporary file first so that there's always a usable one in case the process dies
-	const auto tempFilename = this->m_filename + ".tmp";
+	const auto replaceExisting = std::filesystem::exists(this->m_filename);
+	const auto dbfile = replaceExisting ? std::filesystem::canonical(this->m_filename).string() : this->m_filename;
+	const auto tempFilename = dbfile + ".tmp";
 	this->m_activeFile = tempFilename;
 
 	this->m_stream = std::fstream(tempFilename, std::ios::out | std::ios::binary | std::ios::trunc);
@@ -154,10 +156,14 @@ Driver::Driver(const std::string& filename) : m_filename(filename) {
 		throw std::runtime_error("Failed to write db file: " + tempFilename);
 	}
 
-	std::filesystem::rename(tempFilename, this->m_filename);
-	this->m_activeFile = this->m_filename;
+	if (replaceExisting) {
+		std::filesystem::permissions(tempFilename, std::filesystem::status(dbfile).permissions());
+	}
+
+	std::filesystem::rename(tempFilename, dbfile);
+	this->m_activeFile = dbfile;
 
-	this->m_stream.open(this->m_filename, std::ios::out | std::ios::app | std::ios::binary);
+	this->m_stream.open(dbfile, std::ios::out | std::ios::app | std::ios::binary);
 	if (!this->m_stream.is_open()) {
 		throw std::runtime_error("Failed to open db file for write: " + this->m_filename);
 	}
-- 
2.43.0


From ca6a28ada5551dcd8b8db18d3ae5ce43177f8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 067/107] fix: keep VFS files moved onto themselves and update
 VFS stats when moving files

---
 extra/vfs/interface.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c1161d5..2ddcce3 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -84,8 +84,6 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
 	const auto newPathNormalized = Strings::toLowerCase(newPath);
 
-	this->m_info.totalSize += (newPath.size() - oldPath.size());
-	
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
 	const auto itrOld = this->m_data.find(pathNormalized);
@@ -93,8 +91,20 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		throw std::filesystem::filesystem_error("Virtual file not found", oldPath, std::error_code(2L, std::generic_category()));
 	}
 
-	this->m_data[newPathNormalized] = itrOld->second;
-	this->m_data.erase(itrOld);
+	if (pathNormalized == newPathNormalized) return;
+
+	const auto itrReplaced = this->m_data.find(newPathNormalized);
+	if (itrReplaced != this->m_data.end()) {
+		this->m_info.totalSize -= (itrReplaced->first.size() + itrReplaced->second.buffer.size());
+		this->m_info.totalFiles--;
+		this->m_data.erase(itrReplaced);
+	}
+
+	auto entry = this->m_data.extract(itrOld);
+	entry.key() = newPathNormalized;
+	this->m_data.insert(std::move(entry));
+
+	this->m_info.totalSize += (newPathNormalized.size() - pathNormalized.size());
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From 1f13add3d71367dca96e6dba775c4e22272ec4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 068/107] fix: don't swap creation and modification time in VFS
 file info

---
 extra/vfs/interface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 2ddcce3..8f6a5d1 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -116,8 +116,8 @@ std::vector<VirtualFileInfo> Interface::listAll() noexcept {
 	for (const auto& entry : this->m_data) {
 		result.push_back({
 			entry.first,
-			entry.second.created,
 			entry.second.modified,
+			entry.second.created,
 			entry.second.buffer.size()
 		});
 	}
@@ -138,8 +138,8 @@ std::optional<VirtualFileInfo> Interface::fileInfo(const std::string& path) noex
 
 	VirtualFileInfo info {
 		itr->first,
-		itr->second.created,
 		itr->second.modified,
+		itr->second.created,
 		itr->second.buffer.size()
 	};
 
-- 
2.43.0


From 23fc3cc25229336c36e606df4fb18188f41243ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 069/107] fix: update VFS stats when loading a snapshot

---
 extra/vfs/interface.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 8f6a5d1..c560002 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -181,6 +181,16 @@ void Interface::loadSnapshot(const std::string& path) {
 			};
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
+
+			const auto itr = this->m_data.find(pathNormalized);
+			if (itr == this->m_data.end()) {
+				this->m_info.totalSize += pathNormalized.size();
+				this->m_info.totalFiles++;
+			} else {
+				this->m_info.totalSize -= itr->second.buffer.size();
+			}
+
+			this->m_info.totalSize += vfsentry.buffer.size();
 			this->m_data[pathNormalized] = vfsentry;
 		}
 
-- 
2.43.0


From 68f43ad38013b254d81b19255862e149fff674a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 070/107] fix: don't write past the tar header version field

---
 extra/vfs/format_tar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 704e7a6..973b028 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -338,7 +338,7 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	memset(&posixHeader, 0, sizeof(posixHeader));
 
 	strcpy(posixHeader.magic, "ustar");
-	strcpy(posixHeader.version, "00");
+	memcpy(posixHeader.version, "00", sizeof(posixHeader.version));
 	posixHeader.typeflag = static_cast<std::underlying_type_t<EntryType>>(header.typeflag);
 
 	strncpy(posixHeader.mode, "0100777", sizeof(posixHeader.mode));
-- 
2.43.0


From 3e598a90106c3d00bd8fcf9b1cbbcca5a54d6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 071/107] fix: don't pad tar entries that fill their blocks
 completely

---
 extra/vfs/format_tar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 973b028..6f6a511 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -41,8 +41,8 @@ static const uint16_t tarBlockSize = 512;
 static_assert(sizeof(TarPosixHeader) == tarBlockSize);
 
 size_t getPaddingSize(size_t contentSize) {
-	if (contentSize == 0 || contentSize == tarBlockSize) return 0;
-	return (tarBlockSize * ((contentSize / tarBlockSize) + 1)) - contentSize;
+	const size_t remainder = contentSize % tarBlockSize;
+	return remainder ? tarBlockSize - remainder : 0;
 }
 
 enum struct EntryType : char {
-- 
2.43.0


From 9e33791f7befa0d88427aa3fc859ce5603ad8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 072/107] fix: calculate checksums of tar headers with
 non-ASCII names correctly

---
 extra/vfs/format_tar.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 6f6a511..be92720 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -351,19 +351,19 @@ std::vector<uint8_t> serializeHeader(const TarBasicHeader& header) {
 	encodeTarInt(posixHeader.mtime, sizeof(posixHeader.mtime), header.modified);
 
 	//	calculate header checksum
-	int64_t checksumSigned = 0;
+	size_t checksum = 0;
 
 	for (size_t i = 0; i < tarBlockSize; i++) {
 
 		if (i >= 148 && i < 156) {
-			checksumSigned += 32;
+			checksum += 32;
 			continue;
 		}
 
-		checksumSigned += *((int8_t*)(&posixHeader) + i);
+		checksum += *((uint8_t*)(&posixHeader) + i);
 	}
 
-	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksumSigned);
+	encodeTarInt(posixHeader.chksum, sizeof(posixHeader.chksum), checksum);
 
 	const auto headerDataPtr = reinterpret_cast<uint8_t*>(&posixHeader);
 	return std::vector<uint8_t>(headerDataPtr, headerDataPtr + sizeof(posixHeader));
-- 
2.43.0


From e1b1de1fd6fe605e1b65603a73caf5eb89cef2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 073/107] fix: check VFS snapshot file extensions against the
 supported ones

---
 extra/vfs/interface.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c560002..08f8fed 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -150,10 +150,9 @@ template <std::size_t N>
 bool isSupportedFileExtension(const std::string& filepath, const std::array<std::string, N>& extensions) {
 
 	const auto pathNormalized = Strings::toLowerCase(filepath);
-	const auto pathExtension = std::filesystem::path(pathNormalized).extension();
 
-	for (const auto& item : pathExtension) {
-		if (item == pathExtension) return true;
+	for (const auto& item : extensions) {
+		if (pathNormalized.ends_with(item)) return true;
 	}
 
 	return false;
-- 
2.43.0


From 0d470f0b11ce9ba6b167e19e7e78e7e578bb3884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 074/107] fix: synchronise VFS snapshot queues

---
 extra/vfs/format_tar.cpp |  6 ++++--
 extra/vfs/formats.hpp    | 27 ++++++++++++++++++-------
 extra/vfs/interface.cpp  |  6 ++----
 extra/vfs/syncqueue.cpp  | 43 +++++++++++++---------------------------
 4 files changed, 40 insertions(+), 42 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index be92720..3f838af 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -425,6 +425,8 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 
 void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
+	SyncQueueCloser closeOnExit(queue);
+
 	auto outfile = std::ofstream(path, std::ios::binary);
 	if (!outfile.is_open()) {
 		throw std::filesystem::filesystem_error("Could not open file for write", path, std::error_code(5L, std::generic_category()));
@@ -471,6 +473,8 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
+	SyncQueueCloser closeOnExit(queue);
+
 	auto infile = std::ifstream(path, std::ios::binary);
 	if (!infile.is_open()) {
 		throw std::filesystem::filesystem_error("Could not open file for read", path, std::error_code(5L, std::generic_category()));
@@ -543,6 +547,4 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 			default: break;
 		}
 	}
-
-	queue.close();
 }
diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index 75708fa..ea54888 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -6,22 +6,22 @@
 
 #include <vector>
 #include <array>
-#include <future>
-#include <shared_mutex>
+#include <mutex>
+#include <condition_variable>
 
 namespace Lambda::VFS::Formats {
 
 	class SyncQueue {
 		private:
 			std::vector<VirtualFile> m_queue;
-			std::mutex m_queue_mtx;
-			std::shared_mutex m_future_mtx;
+			mutable std::mutex m_queue_mtx;
+			std::condition_variable m_queue_update;
 			bool m_done = false;
-			std::future<void>* m_watch_future = nullptr;
 
 		public:
+			SyncQueue() = default;
+			SyncQueue(const SyncQueue& other) = delete;
 			SyncQueue& operator=(const SyncQueue& other) = delete;
-			SyncQueue& operator=(SyncQueue&& other) noexcept;
 
 			bool await();
 			bool awaitEmpty();
@@ -30,7 +30,20 @@ namespace Lambda::VFS::Formats {
 			void close() noexcept;
 			bool done() const noexcept;
 			bool empty() const noexcept;
-			void setPromiseExitWatcher(std::future<void>* watch) noexcept;
+	};
+
+	/**
+	 * Closes the queue when it's reader or writer is gone, no matter how it has exited
+	*/
+	class SyncQueueCloser {
+		private:
+			SyncQueue& m_queue;
+
+		public:
+			SyncQueueCloser(SyncQueue& queue) : m_queue(queue) {}
+			SyncQueueCloser(const SyncQueueCloser& other) = delete;
+			SyncQueueCloser& operator=(const SyncQueueCloser& other) = delete;
+			~SyncQueueCloser() { this->m_queue.close(); }
 	};
 
 	namespace Tar {
diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 08f8fed..cdf66e2 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -162,11 +162,10 @@ void Interface::loadSnapshot(const std::string& path) {
 
 	Formats::SyncQueue readerQueue;
 	std::future<void> readerPromise;
-	readerQueue.setPromiseExitWatcher(&readerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		readerPromise = std::async(Formats::Tar::importArchive, path, std::ref(readerQueue));
+		readerPromise = std::async(std::launch::async, Formats::Tar::importArchive, path, std::ref(readerQueue));
 
 		while (readerQueue.await()) {
 			
@@ -210,11 +209,10 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
-	writerQueue.setPromiseExitWatcher(&writerPromise);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-		writerPromise = std::async(Formats::Tar::exportArchive, path, std::ref(writerQueue));
+		writerPromise = std::async(std::launch::async, Formats::Tar::exportArchive, path, std::ref(writerQueue));
 
 		std::lock_guard<std::mutex> lock(this->m_mtx);
 
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index c2dd5af..177b09c 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -1,47 +1,38 @@
 #include "./formats.hpp"
 
-#include <thread>
+#include <stdexcept>
 
 using namespace Lambda;
 using namespace Lambda::VFS;
 using namespace Lambda::VFS::Formats;
 
-SyncQueue& SyncQueue::operator=(SyncQueue&& other) noexcept {
-	this->m_done = other.m_done;
-	this->m_queue = std::move(other.m_queue);
-	return *this;
-}
-
 void SyncQueue::push(VirtualFile&& item) {
 	std::lock_guard lock(this->m_queue_mtx);
-	this->m_queue.push_back(item);
+	this->m_queue.push_back(std::move(item));
+	this->m_queue_update.notify_all();
 }
 
 VirtualFile SyncQueue::next() {
 
+	std::lock_guard lock(this->m_queue_mtx);
+
 	if (!this->m_queue.size()) {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	std::lock_guard lock(this->m_queue_mtx);
-
 	VirtualFile temp = this->m_queue.front();
 	this->m_queue.erase(this->m_queue.begin());
+	this->m_queue_update.notify_all();
 
 	return temp;
 }
 
 bool SyncQueue::await() {
 
-	std::shared_lock lock(this->m_future_mtx);
+	std::unique_lock lock(this->m_queue_mtx);
 
 	while (!this->m_done && !this->m_queue.size()) {
-
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+		this->m_queue_update.wait(lock);
 	}
 
 	return this->m_queue.size();
@@ -49,33 +40,27 @@ bool SyncQueue::await() {
 
 bool SyncQueue::awaitEmpty() {
 
-	std::shared_lock lock(this->m_future_mtx);
+	std::unique_lock lock(this->m_queue_mtx);
 
 	while (!this->m_done && this->m_queue.size()) {
-
-		if (this->m_watch_future != nullptr) {
-			if (m_watch_future->wait_for(std::chrono::milliseconds(1)) == std::future_status::ready) break;
-		} else {
-			std::this_thread::sleep_for(std::chrono::milliseconds(1));
-		}
+		this->m_queue_update.wait(lock);
 	}
 
 	return !this->m_queue.size();
 }
 
 void SyncQueue::close() noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	this->m_done = true;
+	this->m_queue_update.notify_all();
 }
 
 bool SyncQueue::done() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_done;
 }
 
 bool SyncQueue::empty() const noexcept {
+	std::lock_guard lock(this->m_queue_mtx);
 	return this->m_queue.size() == 0;
 }
-
-void SyncQueue::setPromiseExitWatcher(std::future<void>* watch) noexcept {
-	std::unique_lock lock(this->m_future_mtx);
-	this->m_watch_future = watch;
-}
-- 
2.43.0


From 9fa06577c031aaa9ffa79e1f37056d48c7459cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 075/107] fix: lock VFS when getting its stats

---
 extra/vfs/interface.cpp | 3 ++-
 extra/vfs/vfs.hpp       | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index cdf66e2..c88deca 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -241,6 +241,7 @@ void Interface::saveSnapshot(const std::string& path) {
 	}
 }
 
-const VFSInfo& Interface::stats() const noexcept {
+VFSInfo Interface::stats() const noexcept {
+	std::lock_guard<std::mutex> lock(this->m_mtx);
 	return this->m_info;
 }
diff --git a/extra/vfs/vfs.hpp b/extra/vfs/vfs.hpp
index 4ae5d8b..336b2bb 100644
--- a/extra/vfs/vfs.hpp
+++ b/extra/vfs/vfs.hpp
@@ -39,7 +39,7 @@ namespace Lambda {
 		class Interface {
 			private:
 				std::unordered_map <std::string, StoredValue> m_data;
-				std::mutex m_mtx;
+				mutable std::mutex m_mtx;
 				VFSInfo m_info;
 
 			public:
@@ -89,7 +89,7 @@ namespace Lambda {
 				*/
 				void saveSnapshot(const std::string& path);
 
-				const VFSInfo& stats() const noexcept;
+				VFSInfo stats() const noexcept;
 		};
 	};
 
-- 
2.43.0


From 83b9a1bc8cff743d7ec8f5b257ed24168f9b6e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 076/107] fix: don't move the entire VFS snapshot queue for
 each file

---
 extra/vfs/formats.hpp   | 3 ++-
 extra/vfs/syncqueue.cpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/formats.hpp b/extra/vfs/formats.hpp
index ea54888..c67b518 100644
--- a/extra/vfs/formats.hpp
+++ b/extra/vfs/formats.hpp
@@ -5,6 +5,7 @@
 #include "../../buildopts.hpp"
 
 #include <vector>
+#include <deque>
 #include <array>
 #include <mutex>
 #include <condition_variable>
@@ -13,7 +14,7 @@ namespace Lambda::VFS::Formats {
 
 	class SyncQueue {
 		private:
-			std::vector<VirtualFile> m_queue;
+			std::deque<VirtualFile> m_queue;
 			mutable std::mutex m_queue_mtx;
 			std::condition_variable m_queue_update;
 			bool m_done = false;
diff --git a/extra/vfs/syncqueue.cpp b/extra/vfs/syncqueue.cpp
index 177b09c..2109c5a 100644
--- a/extra/vfs/syncqueue.cpp
+++ b/extra/vfs/syncqueue.cpp
@@ -20,8 +20,8 @@ VirtualFile SyncQueue::next() {
 		throw std::runtime_error("cannot get next item from an empty FSQueue");
 	}
 
-	VirtualFile temp = this->m_queue.front();
-	this->m_queue.erase(this->m_queue.begin());
+	VirtualFile temp = std::move(this->m_queue.front());
+	this->m_queue.pop_front();
 	this->m_queue_update.notify_all();
 
 	return temp;
-- 
2.43.0


From 51d8a94fa2c4e13851b4901e342623adb0ced131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 077/107] fix: don't leave VFS snapshot writers waiting when
 saving fails

---
 extra/vfs/interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c88deca..51f6746 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -209,6 +209,7 @@ void Interface::saveSnapshot(const std::string& path) {
 
 	Formats::SyncQueue writerQueue;
 	std::future<void> writerPromise;
+	Formats::SyncQueueCloser closeOnExit(writerQueue);
 
 	if (isSupportedFileExtension(path, Formats::Tar::Extensions)) {
 
-- 
2.43.0


From 32467b8bf8d55cb9d879f9bf5b0affbcedd6f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 078/107] fix: decompress enough data when reading tar.gz
 archives

---
 extra/vfs/format_tar.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 3f838af..05de1bc 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -72,7 +72,7 @@ class InflatableReader {
 
 		Compress::GzipStreamDecompressor* m_gz_strm = nullptr;
 
-		static const size_t bufferSize = 2 * 1024 * 1024;
+		static constexpr size_t bufferSize = 2 * 1024 * 1024;
 
 		/**
 		 * Read end decompress enough data to contain expectedSize
@@ -83,16 +83,15 @@ class InflatableReader {
 				throw std::runtime_error("InflatableReader::m_gz_strm is null");
 			}
 
-			if (this->m_buff.size() >= expectedSize || this->m_readstream.eof() || this->m_gz_strm->isDone()) {
-				return;
-			}
+			while (this->m_buff.size() < expectedSize && this->m_readstream && !this->m_gz_strm->isDone()) {
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-			tempBuff.resize(this->m_readstream.gcount());
+				std::vector<uint8_t> tempBuff(std::min(expectedSize, this->bufferSize));
+				this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
+				tempBuff.resize(this->m_readstream.gcount());
 
-			auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
-			this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+				auto nextDecompressed = this->m_gz_strm->nextChunk(tempBuff);
+				this->m_buff.insert(this->m_buff.end(), nextDecompressed.begin(), nextDecompressed.end());
+			}
 		}
 
 	public:
@@ -150,7 +149,7 @@ class InflatableReader {
 				case TarCompression::Gzip: {
 
 					this->m_decompressToContain(skipSize);
-					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + skipSize);
+					this->m_buff.erase(this->m_buff.begin(), this->m_buff.begin() + std::min(skipSize, this->m_buff.size()));
 
 				} break;
 				
-- 
2.43.0


From 4c1d4d96a7a37047b358a162b40c8a7cdeda9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 079/107] fix: don't allocate memory for tar entries before
 reading them

---
 extra/vfs/format_tar.cpp | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 05de1bc..7ec89b2 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -58,6 +58,27 @@ struct TarBasicHeader {
 	time_t modified = 0;
 };
 
+/**
+ * Reads up to expectedSize bytes. The size might come from a corrupted header,
+ * so memory is only allocated for the data that actually exists
+*/
+std::vector<uint8_t> readFromStream(std::ifstream& readstream, size_t expectedSize) {
+
+	static const size_t readSize = 2 * 1024 * 1024;
+	std::vector<uint8_t> result;
+
+	while (result.size() < expectedSize && readstream) {
+
+		const auto offset = result.size();
+		result.resize(offset + std::min(expectedSize - offset, readSize));
+
+		readstream.read(reinterpret_cast<char*>(result.data() + offset), result.size() - offset);
+		result.resize(offset + readstream.gcount());
+	}
+
+	return result;
+}
+
 #ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
 
 enum struct TarCompression {
@@ -128,11 +149,7 @@ class InflatableReader {
 						return {};
 					}
 
-					std::vector<uint8_t> tempBuff(expectedSize);
-					this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-					const auto bytesRead = this->m_readstream.gcount();
-					return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+					return readFromStream(this->m_readstream, expectedSize);
 				};
 			}
 		}
@@ -263,11 +280,7 @@ class PlainFSReader {
 				return {};
 			}
 
-			std::vector<uint8_t> tempBuff(expectedSize);
-			this->m_readstream.read(reinterpret_cast<char*>(tempBuff.data()), tempBuff.size());
-
-			const auto bytesRead = this->m_readstream.gcount();
-			return std::vector<uint8_t>(tempBuff.begin(), tempBuff.begin() + bytesRead);
+			return readFromStream(this->m_readstream, expectedSize);
 		}
 
 		std::string readTextChunk(size_t expectedSize) {
@@ -414,7 +427,12 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
 
 	//	decode file size
-	header.size = parseTarInt(posixHeader->size, sizeof(posixHeader->size));
+	const auto size = parseTarInt(posixHeader->size, sizeof(posixHeader->size));
+	if (size < 0) {
+		throw std::runtime_error("Invalid tar entry size");
+	}
+
+	header.size = size;
 
 	//	get last modification date
 	header.modified = parseTarInt(posixHeader->mtime, sizeof(posixHeader->mtime));
-- 
2.43.0


From 48435b9e28adb48c866e679a759215c2277b7c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 080/107] fix: use name prefixes when reading ustar archives

---
 extra/vfs/format_tar.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 7ec89b2..6a2dfcd 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -424,6 +424,13 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
+
+	//	longer names are split between the two fields
+	const auto prefixLength = strnlen(posixHeader->prefix, sizeof(posixHeader->prefix));
+	if (prefixLength) {
+		header.name = std::string(posixHeader->prefix, prefixLength) + '/' + header.name;
+	}
+
 	header.typeflag = static_cast<EntryType>(posixHeader->typeflag);
 
 	//	decode file size
-- 
2.43.0


From 4b67695e429c71869fdbd1ea01bfc19ef0d6f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 081/107] fix: read all kinds of regular file entries in tar
 archives

---
 extra/vfs/format_tar.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 6a2dfcd..0f8eb7f 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -47,6 +47,8 @@ size_t getPaddingSize(size_t contentSize) {
 
 enum struct EntryType : char {
 	Normal = '0',
+	NormalOld = '\0',
+	Contiguous = '7',
 	LongLink = 'L',
 	Directory = '5'
 };
@@ -543,7 +545,9 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 			} break;
 
-			case EntryType::Normal: {
+			case EntryType::Normal:
+			case EntryType::NormalOld:
+			case EntryType::Contiguous: {
 
 				const auto content = reader.readChunk(nextHeader.size);
 				if (content.size() != nextHeader.size) {
-- 
2.43.0


From f99621c8e02a736093df8598d8e2312b2a8071f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 082/107] fix: skip content of tar entries that aren't files

---
 extra/vfs/format_tar.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 0f8eb7f..1857814 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -50,7 +50,8 @@ enum struct EntryType : char {
 	NormalOld = '\0',
 	Contiguous = '7',
 	LongLink = 'L',
-	Directory = '5'
+	Directory = '5',
+	PaxHeader = 'x'
 };
 
 struct TarBasicHeader {
@@ -572,7 +573,23 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 
 			} break;
 			
-			default: break;
+			case EntryType::PaxHeader: {
+				throw std::runtime_error("Tar record is not recognized. Only ustar is supported");
+			}
+
+			default: {
+
+				reader.skipNext(nextHeader.size);
+
+				auto paddingSize = getPaddingSize(nextHeader.size);
+				if (paddingSize) {
+					reader.skipNext(paddingSize);
+				}
+
+				//	a long name belongs only to the entry that follows it
+				nextLongLink = std::nullopt;
+
+			} break;
 		}
 	}
 }
-- 
2.43.0


From 7e204dac05e880c978c57f991ef585683c55ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 083/107] fix: strip zero terminators from long tar entry names

---
 extra/vfs/format_tar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 1857814..115609f 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -542,7 +542,8 @@ void Tar::importArchive(const std::string& path, SyncQueue& queue) {
 					reader.skipNext(paddingSize);
 				}
 
-				nextLongLink = linkName;
+				//	it may be terminated with a zero byte
+				nextLongLink = linkName.substr(0, linkName.find('\0'));
 
 			} break;
 
-- 
2.43.0


From ea2d2ee410b57fff54178c717db3680cf4ec0517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 084/107] fix: report failed VFS snapshot writes

---
 extra/vfs/format_tar.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index 115609f..a844a6b 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -493,9 +493,16 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 		writer.writeChunk(serializeHeader(tarEntry));
 		writer.writeChunk(nextFile.buffer);
+
+		if (!outfile) break;
 	}
 
 	writer.endStream();
+	outfile.close();
+
+	if (!outfile) {
+		throw std::filesystem::filesystem_error("Could not write to file", path, std::error_code(5L, std::generic_category()));
+	}
 }
 
 void Tar::importArchive(const std::string& path, SyncQueue& queue) {
-- 
2.43.0


From 632163dfb60744e80f9ec7024d6521cba0f62119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 085/107] fix: report file names that cannot be saved in VFS
 snapshots

---
 extra/vfs/format_tar.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index a844a6b..e1c3bf2 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -471,6 +471,11 @@ void Tar::exportArchive(const std::string& path, SyncQueue& queue) {
 
 		auto nextFile = queue.next();
 
+		//	there's no way to tell such an entry from the end of the archive or to restore it's name
+		if (nextFile.name.empty() || nextFile.name.find('\0') != std::string::npos) {
+			throw std::runtime_error("Cannot save file to a tar archive: invalid file name");
+		}
+
 		if (nextFile.name.size() >= sizeof(TarPosixHeader::name)) {
 
 			TarBasicHeader longlinkHeader {
-- 
2.43.0


From 802e02464b0c1dc52cfc4a8c02a5f7e0490f2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 086/107] fix: end tar entry names at the first zero byte

---
 extra/vfs/format_tar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/extra/vfs/format_tar.cpp b/extra/vfs/format_tar.cpp
index e1c3bf2..fb83cfd 100644
--- a/extra/vfs/format_tar.cpp
+++ b/extra/vfs/format_tar.cpp
@@ -423,8 +423,7 @@ TarBasicHeader parseHeader(const std::vector<uint8_t>& headerBuff) {
 
 	TarBasicHeader header;
 
-	const bool nameFieldFit = posixHeader->name[sizeof(posixHeader->name) - 1] == 0;
-	const size_t nameFieldLength = nameFieldFit ? strlen(posixHeader->name) : sizeof(posixHeader->name);
+	const size_t nameFieldLength = strnlen(posixHeader->name, sizeof(posixHeader->name));
 
 	header.name = std::string(posixHeader->name, nameFieldLength);
 
-- 
2.43.0


From adbf64104f0364bce87132978b4a6e9db938e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 087/107] fix: let handlers answer requests that failed to
 become websockets

---
 core/server/worker.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/server/worker.cpp b/core/server/worker.cpp
index 0ee278f..4550b42 100644
--- a/core/server/worker.cpp
+++ b/core/server/worker.cpp
@@ -111,7 +111,13 @@ void Server::connectionWorker(
 			const std::function<WebsocketContext()> upgradeCallbackWS = [&]() {
 				handlerMode = HandlerMode::WS;
 				logConnectionUpgrade("Websocket");
-				return WebsocketContext({ workerctx, transport, next });
+				try {
+					return WebsocketContext({ workerctx, transport, next });
+				} catch (const UpgradeError&) {
+					//	it can be handled right in the handler, and then it still has to respond
+					handlerMode = HandlerMode::HTTP;
+					throw;
+				}
 			};
 
 			const RequestContext requestCTX = {
-- 
2.43.0


From 8f24ab9d6c5b5f94c62e7dc6e85d0cd8cfb8a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 088/107] fix: keep URL credentials that have just a user name
 or a password

---
 core/http/url.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/http/url.cpp b/core/http/url.cpp
index e1c345a..3f503fe 100644
--- a/core/http/url.cpp
+++ b/core/http/url.cpp
@@ -54,8 +54,8 @@ void URL::parse(const std::string& href) {
 
 				auto credentails = addrString.substr(0, cursor);
 				const auto credSep = credentails.find(':');
+				this->username = credentails.substr(0, credSep);
 				if (credSep != std::string::npos) {
-					this->username = credentails.substr(0, credSep);
 					this->password = credentails.substr(credSep + 1);
 				}
 
@@ -122,8 +122,10 @@ std::string URL::href() const {
 		}
 
 		//	add http auth
-		if (this->username.size() && this->password.size()) {
-			temp += this->username + ":" + this->password + "@";
+		if (this->username.size() || this->password.size()) {
+			temp += this->username;
+			if (this->password.size()) temp += ":" + this->password;
+			temp += "@";
 		}
 
 		//	add host name
-- 
2.43.0


From 30382dc9bfcfbadee55279757fcc0bb0e8a6077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 089/107] fix: continue socket operations that get interrupted
 by a signal

---
 core/network/tcp/connection.cpp | 53 ++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 4 deletions(-)

diff --git a/core/network/tcp/connection.cpp b/core/network/tcp/connection.cpp
index b4074db..460436e 100644
--- a/core/network/tcp/connection.cpp
+++ b/core/network/tcp/connection.cpp
@@ -2,6 +2,7 @@
 #include "../sysnetw.hpp"
 
 #include <set>
+#include <chrono>
 
 using namespace Lambda::Network;
 using namespace Lambda::Network::TCP;
@@ -22,6 +23,30 @@ static const std::set<int> disconnectedCodes = {
 	#endif
 };
 
+//	A signal handler got called while the operation was waiting, it has to be continued then.
+//	In windows it means something completely different
+static const std::set<int> interruptedCodes = {
+	#ifndef _WIN32
+		EINTR
+	#endif
+};
+
+/**
+ * An operation that gets restarted must not take more time just because of that
+*/
+class OperationTimer {
+	private:
+		const std::chrono::steady_clock::time_point m_started = std::chrono::steady_clock::now();
+		const std::chrono::milliseconds m_timeout;
+
+	public:
+		OperationTimer(uint32_t timeoutMs) : m_timeout(timeoutMs) {}
+
+		bool expired() const noexcept {
+			return this->m_timeout.count() > 0 && std::chrono::steady_clock::now() - this->m_started >= this->m_timeout;
+		}
+};
+
 Connection::Connection(
 	SockHandle handleInit,
 	const ConnectionInfo& infoInit
@@ -97,9 +122,22 @@ void Connection::write(const std::vector<uint8_t>& data) {
 	if (handle == INVALID_SOCKET)
 		throw Lambda::Error("Cann't write to a closed connection");
 
-	const auto bytesSent = send(handle, (const char*)data.data(), data.size(), MSG_NOSIGNAL);
+	const OperationTimer timer(this->m_info.timeouts.send);
+	size_t bytesSent = 0;
 
-	if (static_cast<size_t>(bytesSent) != data.size()) {
+	do {
+
+		const auto chunkSent = send(handle, (const char*)data.data() + bytesSent, data.size() - bytesSent, MSG_NOSIGNAL);
+
+		if (chunkSent > 0) {
+			bytesSent += chunkSent;
+		} else if (chunkSent < 0 && !interruptedCodes.contains(GetOSErrorCode())) {
+			break;
+		}
+
+	} while (bytesSent < data.size() && !timer.expired());
+
+	if (bytesSent != data.size()) {
 
 		//	whatever gets written next would look like a continuation of the data that was sent partially
 		if (bytesSent > 0) shutdown(handle, SD_BOTH);
@@ -122,7 +160,14 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 	auto chunk = std::vector<uint8_t>(expectedSize);
 
-	const auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	const OperationTimer timer(this->m_info.timeouts.receive);
+	auto bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+	auto interrupted = bytesReceived < 0 && interruptedCodes.contains(GetOSErrorCode());
+
+	while (interrupted && !timer.expired()) {
+		bytesReceived = recv(handle, reinterpret_cast<char*>(chunk.data()), chunk.size(), 0);
+		interrupted = bytesReceived < 0 && interruptedCodes.contains(GetOSErrorCode());
+	}
 
 	if (bytesReceived == 0) {
 
@@ -133,7 +178,7 @@ std::vector<uint8_t> Connection::read(size_t expectedSize) {
 
 		const auto osError = GetOSErrorCode();
 
-		if (blockingEndedCodes.contains(osError)) {
+		if (interrupted || blockingEndedCodes.contains(osError)) {
 
 			if (this->flags.closeOnTimeout) {
 				this->endLocked();
-- 
2.43.0


From f252690bea0a4aee838619beaa77412a52180825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 090/107] fix: refuse requests with control characters in their
 headers

---
 core/http/transport_v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 8e53978..5729cdc 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -95,6 +95,14 @@ bool TransportContextV1::awaitNext() {
 		throw ProtocolError("Invalid HTTP request");
 	}
 
+	//	there's nothing that would need a control character here, besides of making
+	//	one header, request or log entry look like a few of them
+	for (const auto& item : headerFields) {
+		if (std::any_of(item.begin(), item.end(), [](unsigned char c) { return (c < 0x20 && c != '\t') || c == 0x7F; })) {
+			throw ProtocolError("Invalid characters in request header", 400);
+		}
+	}
+
 	auto headerStartLine = Strings::split(headerFields.at(0), ' ');
 	if (headerStartLine.size() < 2) {
 		throw ProtocolError("Invalid HTTP request");
-- 
2.43.0


From 66bb07db34d176412bd100a67341a7c6ba5677f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 091/107] fix: don't let response header values start new
 headers

---
 core/http/transport_v1.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 5729cdc..0a150e5 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -398,9 +398,15 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), statusCode.begin(), statusCode.end());
 	headerBuff.push_back(0x20);
 
+	//	line breaks inside of a value would start another header (or end all of them)
+	const auto pushText = [&](const std::string& text) {
+		for (const auto chr : text) {
+			headerBuff.push_back(chr == '\r' || chr == '\n' || chr == '\0' ? 0x20 : chr);
+		}
+	};
+
 	//	push response status text
-	const auto& statusText = responseStatus.text();
-	headerBuff.insert(headerBuff.end(), statusText.begin(), statusText.end());
+	pushText(responseStatus.text());
 
 	static const std::string lineSeparator = "\r\n";
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
@@ -408,9 +414,9 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	//	serialize headers
 	static const std::string headerSeparator = ": ";
 	for (const auto& header : responseHeaders.entries()) {
-		headerBuff.insert(headerBuff.end(), header.first.begin(), header.first.end());
+		pushText(header.first);
 		headerBuff.insert(headerBuff.end(), headerSeparator.begin(), headerSeparator.end());
-		headerBuff.insert(headerBuff.end(), header.second.begin(), header.second.end());
+		pushText(header.second);
 		headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 	}
 
-- 
2.43.0


From 4a7733ce4ac6b38202bdf03eda26e60485052c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:09 +0000
Subject: [PATCH 092/107] fix: don't send a body with statuses that can't have
 one

---
 core/http/transport_v1.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index 0a150e5..cc2778c 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -424,7 +424,9 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 	headerBuff.insert(headerBuff.end(), lineSeparator.begin(), lineSeparator.end());
 
 	this->m_conn.write(headerBuff);
-	if (bodyBufferSize && !this->m_omitBody) this->m_conn.write(responseBodyBuffer);
+	//	there can't be any body with these, a client would take it for the next response
+	const auto statusHasBody = responseStatus.code() != 204 && responseStatus.code() != 304;
+	if (bodyBufferSize && statusHasBody && !this->m_omitBody) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
 	if (this->m_keepalive == KeepAliveStatus::Close) {
-- 
2.43.0


From 866deaadb0344d967f78637d666627e7224f6398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 093/107] fix: flatten request paths in a single pass

---
 extra/staticserver/staticserver.cpp | 37 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/extra/staticserver/staticserver.cpp b/extra/staticserver/staticserver.cpp
index 58df7f3..b15e5ca 100644
--- a/extra/staticserver/staticserver.cpp
+++ b/extra/staticserver/staticserver.cpp
@@ -2,6 +2,7 @@
 #include "../../core/html/html.hpp"
 #include "../../core/polyfill/polyfill.hpp"
 
+#include <algorithm>
 #include <filesystem>
 #include <functional>
 #include <fstream>
@@ -25,37 +26,41 @@ std::optional<std::vector<uint8_t>> readBinaryFileSync(const std::string& filepa
 
 std::string StaticServer::flattenPathName(std::string urlpath) const noexcept {
 
-	auto segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("\\")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
-	}
+	std::replace(urlpath.begin(), urlpath.end(), '\\', '/');
+
+	//	paths come from clients and can be of any length, so all of this is done in a single pass
+	std::string result;
+	result.reserve(urlpath.size());
+
+	for (const auto symbol : urlpath) {
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("../")) != std::string::npos)	{
+		result.push_back(symbol);
+		if (!result.ends_with("../")) continue;
 
+		const auto segmentPos = result.size() - 3;
 		size_t segmentPrevStart = 0;
 		size_t searchStart = segmentPos > 2 ? segmentPos - 2 : 0;
 		for (size_t i = searchStart; i > 0; i--) {
-			if (urlpath[i] == '/') {
+			if (result[i] == '/') {
 				segmentPrevStart = i;
 				break;
 			}
 		}
 
-		urlpath.replace(segmentPrevStart, (segmentPos + 3) - segmentPrevStart, "/");
+		result.replace(segmentPrevStart, std::string::npos, "/");
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("./")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 1, "/");
+	for (size_t i = 1; i < result.size(); i++) {
+		if (result[i] == '/' && result[i - 1] == '.') result[i - 1] = '/';
 	}
 
-	segmentPos = std::string::npos;
-	while ((segmentPos = urlpath.find("//")) != std::string::npos)	{
-		urlpath.replace(segmentPos, 2, "/");
-	}
+	const auto isRepeatedSlash = [](char prev, char next) {
+		return prev == '/' && next == '/';
+	};
+
+	result.erase(std::unique(result.begin(), result.end(), isRepeatedSlash), result.end());
 
-	return urlpath;
+	return result;
 }
 
 StaticServer::StaticServer(const std::string& rootDir) {
-- 
2.43.0


From be98e2408079ebc96f41be166bf6e3fe0848a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 094/107] fix: replace all the matches in a single pass

---
 core/polyfill/strings.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/core/polyfill/strings.cpp b/core/polyfill/strings.cpp
index 0cab475..90db11a 100644
--- a/core/polyfill/strings.cpp
+++ b/core/polyfill/strings.cpp
@@ -178,11 +178,21 @@ void Strings::replaceAll(std::string& base, const std::string& sub, const std::s
 	if (!sub.size()) return;
 
 	size_t index = base.find(sub);
+	if (index == std::string::npos) return;
+
+	//	replacing in place would move the rest of the text for each match
+	std::string result;
+	size_t copiedTo = 0;
+
 	while (index != std::string::npos) {
-		base.replace(index, sub.size(), replacement);
-		index += replacement.size();
-		index = base.find(sub, index);
+		result.append(base, copiedTo, index - copiedTo);
+		result.append(replacement);
+		copiedTo = index + sub.size();
+		index = base.find(sub, copiedTo);
 	}
+
+	result.append(base, copiedTo);
+	base = std::move(result);
 }
 
 std::string Strings::replaceAll(const std::string& base, const std::string& sub, const std::string& replacement) {
-- 
2.43.0


From ca6008e4396f6ffacb3e7faf99073380c8c54a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 095/107] fix: render templates in a single pass

---
 core/html/renderer.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/core/html/renderer.cpp b/core/html/renderer.cpp
index 7c81ceb..93b85ef 100644
--- a/core/html/renderer.cpp
+++ b/core/html/renderer.cpp
@@ -9,28 +9,32 @@ std::optional<std::string> getTemplateVariableFromSlice(const std::string& sourc
 
 std::string HTML::renderTemplate(const std::string& templateSource, const TemplateProps& props) {
 
-	auto result = templateSource;
+	//	replacing in place would move the rest of the text for each template
+	std::string result;
+	size_t copiedTo = 0;
 
 	size_t searchStart = 0;
 	size_t templateOpen = std::string::npos;
 
-	while ((templateOpen = result.find("{{", searchStart)) != std::string::npos) {
+	while ((templateOpen = templateSource.find("{{", searchStart)) != std::string::npos) {
 
-		auto templateClose = result.find("}}", templateOpen);
+		auto templateClose = templateSource.find("}}", templateOpen);
 		if (templateClose == std::string::npos) break;
 
-		auto templateVar = getTemplateVariableFromSlice(result, templateOpen + 2, templateClose);
-		if (!templateVar.has_value()) {
-			searchStart = templateClose + 2;
-			continue;
-		}
+		searchStart = templateClose + 2;
+
+		auto templateVar = getTemplateVariableFromSlice(templateSource, templateOpen + 2, templateClose);
+		if (!templateVar.has_value()) continue;
+
+		result.append(templateSource, copiedTo, templateOpen - copiedTo);
+		copiedTo = searchStart;
 
 		auto valueItr = props.find(templateVar.value());
-		auto templContent = valueItr != props.end() ? valueItr->second : "";
-		result.replace(templateOpen, templateClose + 2 - templateOpen, templContent);
-		searchStart = templateOpen + templContent.size();
+		if (valueItr != props.end()) result.append(valueItr->second);
 	}
 
+	result.append(templateSource, copiedTo);
+
 	return result;
 }
 
-- 
2.43.0


From 533996859e36f435b39bf6afe746ddb13351e183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 096/107] fix: move parsed JSON values instead of copying them

---
 core/json/json.hpp     |  6 +++++-
 core/json/parse.cpp    |  5 +++--
 core/json/property.cpp | 38 +++++++++++++++++++++++++++++---------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/core/json/json.hpp b/core/json/json.hpp
index 806bdab..c82a202 100644
--- a/core/json/json.hpp
+++ b/core/json/json.hpp
@@ -34,6 +34,7 @@ namespace Lambda::JSON {
 			Map* internalDataMap = nullptr;
 
 			void clone(const Property& other);
+			void swap(Property& other) noexcept;
 
 		public:
 			Property();
@@ -55,10 +56,13 @@ namespace Lambda::JSON {
 
 			Property(const Array& value);
 			Property(const Map& value);
+			Property(Array&& value);
+			Property(Map&& value);
 
 			Property(const Property& other);
-			Property(Property&& other);
+			Property(Property&& other) noexcept;
 			Property& operator=(const Property& other);
+			Property& operator=(Property&& other) noexcept;
 
 			JSTypes type() const;
 			bool isUndefined() const;
diff --git a/core/json/parse.cpp b/core/json/parse.cpp
index 1c13334..aa9b52d 100644
--- a/core/json/parse.cpp
+++ b/core/json/parse.cpp
@@ -4,6 +4,7 @@
 #include <map>
 #include <stdexcept>
 #include <string_view>
+#include <utility>
 
 using namespace Lambda;
 using namespace Lambda::JSON;
@@ -248,7 +249,7 @@ static Property parseValue(std::string_view text, size_t depth) {
 			temp.push_back(parseValue(entryTrimmed, depth + 1));
 		}
 
-		return Property(temp);
+		return Property(std::move(temp));
 
 	} else {
 
@@ -279,7 +280,7 @@ static Property parseValue(std::string_view text, size_t depth) {
 			temp[useKey] = parseValue(value, depth + 1);
 		}
 
-		return Property(temp);
+		return Property(std::move(temp));
 	}
 }
 
diff --git a/core/json/property.cpp b/core/json/property.cpp
index 9dc8961..632dbc0 100644
--- a/core/json/property.cpp
+++ b/core/json/property.cpp
@@ -16,6 +16,16 @@ void Property::clone(const Property& other) {
 	if (other.internalDataMap) this->internalDataMap = new std::unordered_map<std::string, Property>(*other.internalDataMap);
 }
 
+void Property::swap(Property& other) noexcept {
+	std::swap(this->internalType, other.internalType);
+	std::swap(this->internalDataFloat, other.internalDataFloat);
+	std::swap(this->internalDataInt, other.internalDataInt);
+	std::swap(this->internalDataBool, other.internalDataBool);
+	std::swap(this->internalDataStr, other.internalDataStr);
+	std::swap(this->internalDataArray, other.internalDataArray);
+	std::swap(this->internalDataMap, other.internalDataMap);
+}
+
 Property::Property() {
 	this->internalType = JSTypes::Undefined;
 }
@@ -84,12 +94,23 @@ Property::Property(const Map& value) {
 	this->internalDataMap = new std::unordered_map<std::string, Property>(value);
 }
 
+Property::Property(Array&& value) {
+	this->internalType = JSTypes::Array;
+	this->internalDataArray = new std::vector<Property>(std::move(value));
+}
+
+Property::Property(Map&& value) {
+	this->internalType = JSTypes::Map;
+	this->internalDataMap = new std::unordered_map<std::string, Property>(std::move(value));
+}
+
 Property::Property(const Property& other) {
 	this->clone(other);
 }
 
-Property::Property(Property&& other) {
-	this->clone(other);
+Property::Property(Property&& other) noexcept {
+	this->internalType = JSTypes::Undefined;
+	this->swap(other);
 }
 
 Property& Property::operator=(const Property& other) {
@@ -97,14 +118,13 @@ Property& Property::operator=(const Property& other) {
 	//	making a copy first as the other value can be a part of this one
 	Property temp(other);
 
-	std::swap(this->internalType, temp.internalType);
-	std::swap(this->internalDataFloat, temp.internalDataFloat);
-	std::swap(this->internalDataInt, temp.internalDataInt);
-	std::swap(this->internalDataBool, temp.internalDataBool);
-	std::swap(this->internalDataStr, temp.internalDataStr);
-	std::swap(this->internalDataArray, temp.internalDataArray);
-	std::swap(this->internalDataMap, temp.internalDataMap);
+	this->swap(temp);
+	return *this;
+}
 
+Property& Property::operator=(Property&& other) noexcept {
+	Property temp(std::move(other));
+	this->swap(temp);
 	return *this;
 }
 
-- 
2.43.0


From 69e65a31609681b1b8efc8023467b26401f819ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 097/107] fix: end websockets that can't get a reader thread
 instead of leaving them unread

---
 core/websocket/websocket.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/websocket/websocket.cpp b/core/websocket/websocket.cpp
index 2a148fd..f16651b 100644
--- a/core/websocket/websocket.cpp
+++ b/core/websocket/websocket.cpp
@@ -61,7 +61,13 @@ WebsocketContext::WebsocketContext(WebsocketInit init) :
 	this->m_transport.tcpconn().flags.closeOnTimeout = false;
 	this->m_transport.tcpconn().setTimeouts(sockRcvTimeout, Network::SetTimeoutsDirection::Receive);
 
-	this->m_reader = std::async(&WebsocketContext::asyncWorker, this);
+	//	a deferred reader would never get to run, so there's no use of a connection that can't have one
+	try {
+		this->m_reader = std::async(std::launch::async, &WebsocketContext::asyncWorker, this);
+	} catch (...) {
+		this->close(CloseReason::InternalServerError);
+		throw;
+	}
 }
 
 WebsocketContext::~WebsocketContext() {
-- 
2.43.0


From 0d6ae7053f11d8992d83b8b4fb22a4f687b3ba06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 098/107] fix: report a server that can't start its service
 thread instead of never serving

---
 core/server/instance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/server/instance.cpp b/core/server/instance.cpp
index 33c46c2..9ae25a6 100644
--- a/core/server/instance.cpp
+++ b/core/server/instance.cpp
@@ -32,7 +32,7 @@ LambdaInstance::LambdaInstance(RequestCallback handlerCallback, ServerConfig ini
 		throw Lambda::Error("ServiceOptions::maxConnections value is lower than allowed by minConnections");
 	}
 
-	this->serviceWorker = std::async([&]() {
+	this->serviceWorker = std::async(std::launch::async, [&]() {
 
 		//	having no resources to serve one connection is not a reason to stop serving all of them
 		const auto handleThreadError = [](const std::system_error& error) {
-- 
2.43.0


From aa6142fd9796f3f306203fca5768b24aba9f69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:09 +0000
Subject: [PATCH 099/107] fix: report compressed streams that need a preset
 dictionary

---
 core/compression/zlib_stream_decompress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/compression/zlib_stream_decompress.cpp b/core/compression/zlib_stream_decompress.cpp
index 92104f7..69aa46e 100644
--- a/core/compression/zlib_stream_decompress.cpp
+++ b/core/compression/zlib_stream_decompress.cpp
@@ -71,6 +71,7 @@ std::vector<uint8_t> GzipStreamDecompressor::nextChunk(std::vector<uint8_t>& nex
 			case Z_DATA_ERROR: throw std::runtime_error("inflate error: data error");
 			case Z_MEM_ERROR: throw std::runtime_error("inflate error: insufficient memory");
 			case Z_VERSION_ERROR: throw std::runtime_error("inflate error: unsupported version");
+			case Z_NEED_DICT: throw std::runtime_error("inflate error: preset dictionary required");
 
 			case Z_STREAM_END: {
 				this->m_stage = Stage::Done;
-- 
2.43.0


From 03e2e1f612364dbf52bcd7e9655c00e586d09291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:44 +0000
Subject: [PATCH 100/107] fix: don't send a body with an informational response

A client reads nothing after the header of a response with a 1xx status,
so the body was taken for the next response on the connection.
---
 core/http/transport_v1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/http/transport_v1.cpp b/core/http/transport_v1.cpp
index cc2778c..744a71a 100644
--- a/core/http/transport_v1.cpp
+++ b/core/http/transport_v1.cpp
@@ -425,7 +425,7 @@ void TransportContextV1::respond(const ResponseContext& responsectx) {
 
 	this->m_conn.write(headerBuff);
 	//	there can't be any body with these, a client would take it for the next response
-	const auto statusHasBody = responseStatus.code() != 204 && responseStatus.code() != 304;
+	const auto statusHasBody = responseStatus.code() >= 200 && responseStatus.code() != 204 && responseStatus.code() != 304;
 	if (bodyBufferSize && statusHasBody && !this->m_omitBody) this->m_conn.write(responseBodyBuffer);
 
 	//	close connection if keepalive mode is not in unknown or active state
-- 
2.43.0


From ecb1f42d9ad75a3916407832a7473754d2be083e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 101/107] fix: don't show uninitialised memory as a date that
 has no calendar form

---
 core/polyfill/polyfill.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/polyfill/polyfill.hpp b/core/polyfill/polyfill.hpp
index 0267c32..083aa9e 100644
--- a/core/polyfill/polyfill.hpp
+++ b/core/polyfill/polyfill.hpp
@@ -11,7 +11,7 @@ namespace Lambda {
 	class Date {
 		private:
 			time_t epoch;
-			tm timestruct;
+			tm timestruct {};
 		
 		public:
 			Date() noexcept;
-- 
2.43.0


From 84cb3d69c0df77ee349cd0d1f0d5a0627708bbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 102/107] fix: check that brotli encoder and decoder instances
 have been created

---
 core/compression/brotli.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compression/brotli.cpp b/core/compression/brotli.cpp
index 7da70fe..78cf742 100644
--- a/core/compression/brotli.cpp
+++ b/core/compression/brotli.cpp
@@ -14,6 +14,7 @@ struct BrotliCompressStream {
 
 	BrotliCompressStream() {
 		this->stream = BrotliEncoderCreateInstance(nullptr, nullptr, nullptr);
+		if (!this->stream) throw std::runtime_error("failed to create an encoder instance");
 	}
 
 	~BrotliCompressStream() {
@@ -27,6 +28,7 @@ struct BrotliDecompressStream {
 
 	BrotliDecompressStream() {
 		this->stream = BrotliDecoderCreateInstance(nullptr, nullptr, nullptr);
+		if (!this->stream) throw std::runtime_error("failed to create a decoder instance");
 	}
 
 	~BrotliDecompressStream() {
-- 
2.43.0


From 3927bfa5270220712d64b7981d540a9aa3fd65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 103/107] fix: get the memory for a stored value before its
 record is written

---
 extra/kvstorage/interface.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 61322c5..89ee67d 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -45,11 +45,22 @@ void StorageInterface::setItem(const std::string& key, const std::string& value)
 
 	std::lock_guard <std::mutex> lock(this->mtlock);
 
-	if (this->driver != nullptr) {
-		this->driver->handleTransaction({ TransactionType::Put, &key, &value });
+	//	getting all the memory before the record is written, so that storing the value cannot fail after that
+	auto storedValue = value;
+	const auto [entry, isNew] = this->data.try_emplace(key);
+
+	try {
+
+		if (this->driver != nullptr) {
+			this->driver->handleTransaction({ TransactionType::Put, &key, &value });
+		}
+
+	} catch (...) {
+		if (isNew) this->data.erase(entry);
+		throw;
 	}
 
-	this->data[key] = value;
+	entry->second = std::move(storedValue);
 }
 
 void StorageInterface::removeItem(const std::string& key) {
-- 
2.43.0


From 1f2516f6b5dabfef7792460302af62bca7e3c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 104/107] fix: release the storage driver when its initial data
 cannot be kept

---
 extra/kvstorage/interface.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/extra/kvstorage/interface.cpp b/extra/kvstorage/interface.cpp
index 89ee67d..c0c6b3b 100644
--- a/extra/kvstorage/interface.cpp
+++ b/extra/kvstorage/interface.cpp
@@ -2,27 +2,33 @@
 #include "./kvstorage.hpp"
 #include "./driver.hpp"
 
+#include <memory>
+
 using namespace Lambda::Storage;
 using namespace Lambda::Storage::KVStorage;
 
 StorageInterface::StorageInterface() {
 
-	this->driver = new Driver("StorageInterface.ldb");
+	auto newDriver = std::make_unique<Driver>("StorageInterface.ldb");
 
-	auto initData = this->driver->sync();
+	auto initData = newDriver->sync();
 	if (initData.has_value()) {
-		this->data = initData.value();
+		this->data = std::move(initData.value());
 	}
+
+	this->driver = newDriver.release();
 }
 
 StorageInterface::StorageInterface(const std::string& dbfile) {
 
-	this->driver = new Driver(dbfile);
+	auto newDriver = std::make_unique<Driver>(dbfile);
 
-	auto initData = this->driver->sync();
+	auto initData = newDriver->sync();
 	if (initData.has_value()) {
-		this->data = initData.value();
+		this->data = std::move(initData.value());
 	}
+
+	this->driver = newDriver.release();
 }
 
 StorageInterface::~StorageInterface() {
-- 
2.43.0


From e38b05ea29ae7c3c01ff1c8912a4672045a3e09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 105/107] fix: do not lose a file when renaming it runs out of
 memory

---
 extra/vfs/interface.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index 51f6746..c4ac532 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -82,7 +82,7 @@ void Interface::remove(const std::string& path) noexcept {
 void Interface::move(const std::string& oldPath, const std::string& newPath) {
 
 	const auto pathNormalized = Strings::toLowerCase(oldPath);
-	const auto newPathNormalized = Strings::toLowerCase(newPath);
+	auto newPathNormalized = Strings::toLowerCase(newPath);
 
 	std::lock_guard <std::mutex> lock(this->m_mtx);
 
@@ -100,11 +100,12 @@ void Interface::move(const std::string& oldPath, const std::string& newPath) {
 		this->m_data.erase(itrReplaced);
 	}
 
+	this->m_info.totalSize += (newPathNormalized.size() - pathNormalized.size());
+
+	//	nothing can fail once an entry is taken out, otherwise it would be lost
 	auto entry = this->m_data.extract(itrOld);
-	entry.key() = newPathNormalized;
+	entry.key() = std::move(newPathNormalized);
 	this->m_data.insert(std::move(entry));
-
-	this->m_info.totalSize += (newPathNormalized.size() - pathNormalized.size());
 }
 
 std::vector<VirtualFileInfo> Interface::listAll() noexcept {
-- 
2.43.0


From 68a5ba2b97edf80446d494dbd3b5e2abfd88b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 106/107] fix: update vfs statistics only after a loaded entry
 has been added

---
 extra/vfs/interface.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra/vfs/interface.cpp b/extra/vfs/interface.cpp
index c4ac532..c290eb8 100644
--- a/extra/vfs/interface.cpp
+++ b/extra/vfs/interface.cpp
@@ -181,8 +181,9 @@ void Interface::loadSnapshot(const std::string& path) {
 
 			std::lock_guard<std::mutex> lock(this->m_mtx);
 
-			const auto itr = this->m_data.find(pathNormalized);
-			if (itr == this->m_data.end()) {
+			//	stats can only be updated after the entry itself, as it can fail to be added
+			const auto [itr, isNew] = this->m_data.try_emplace(pathNormalized);
+			if (isNew) {
 				this->m_info.totalSize += pathNormalized.size();
 				this->m_info.totalFiles++;
 			} else {
@@ -190,7 +191,7 @@ void Interface::loadSnapshot(const std::string& path) {
 			}
 
 			this->m_info.totalSize += vfsentry.buffer.size();
-			this->m_data[pathNormalized] = vfsentry;
+			itr->second = std::move(vfsentry);
 		}
 
 	} else {
-- 
2.43.0


From a68b871973b8a8a06df56316b8f88e17ce75ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 107/107] fix: don't take running out of memory for credentials
 that are not valid

---
 core/http/auth.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/http/auth.cpp b/core/http/auth.cpp
index 866ca09..82cc7a9 100644
--- a/core/http/auth.cpp
+++ b/core/http/auth.cpp
@@ -2,6 +2,8 @@
 #include "../polyfill/polyfill.hpp"
 #include "../encoding/encoding.hpp"
 
+#include <new>
+
 using namespace Lambda;
 using namespace Lambda::HTTP;
 using namespace Lambda::HTTP::Auth;
@@ -23,6 +25,9 @@ std::optional<BasicCredentials> Auth::parseBasicAuth(const std::string& header)
 
 	try {
 		authStringDecoded = Encoding::fromBase64(authString);
+	} catch (const std::bad_alloc&) {
+		//	the header may well be valid
+		throw;
 	} catch (...) {
 		return std::nullopt;
 	}
-- 
2.43.0

