// Server harness: a LambdaInstance with configurable options and a scriptable handler.
// Uses only the library's public API. Events go to fd 3 (one line per event, written atomically),
// commands come from stdin.
#include "lambda.hpp"
#include "faults.hpp"

#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>
#include <dirent.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <filesystem>
#include <fstream>

using namespace Lambda;

static std::atomic<long> g_invocations{0};
static std::atomic<long> g_active{0};
static std::atomic<bool> g_instanceAlive{false};
static std::atomic<LambdaInstance*> g_inst{nullptr};
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static std::mutex g_evmtx;
static int g_evfd = 1;

static void ev(const std::string& line) {
	std::lock_guard<std::mutex> l(g_evmtx);
	std::string s = line + "\n";
	size_t off = 0;
	while (off < s.size()) {
		auto n = ::write(g_evfd, s.data() + off, s.size() - off);
		if (n < 0) { if (errno == EINTR) continue; return; }
		off += n;
	}
}

static std::string hex(const std::string& s) {
	static const char* d = "0123456789abcdef";
	std::string o; o.reserve(s.size() * 2);
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o.size() ? o : std::string("-");
}
static std::string hex(const std::vector<uint8_t>& v) { return hex(std::string(v.begin(), v.end())); }
static std::string unhex(const std::string& s) {
	if (s == "-") return "";
	std::string o;
	for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return o;
}
static std::vector<std::string> words(const std::string& s) {
	std::vector<std::string> o; std::istringstream is(s); std::string w;
	while (is >> w) o.push_back(w);
	return o;
}

static std::string dumpRequest(const Request& req, const Context& ctx, long n) {
	std::string o;
	o += "N " + std::to_string(n) + "\n";
	o += "M " + req.method.toString() + "\n";
	o += "P " + hex(req.url.pathname) + "\n";
	o += "U " + hex(req.url.username) + " " + hex(req.url.password) + " " + hex(req.url.host) + " " + hex(req.url.hostname) + " " + hex(req.url.port) + "\n";
	for (const auto& q : req.url.searchParams.entries()) o += "Q " + hex(q.first) + " " + hex(q.second) + "\n";
	for (const auto& h : req.headers.entries()) o += "H " + hex(h.first) + " " + hex(h.second) + "\n";
	o += "I " + ctx.contextID + " " + ctx.requestID + "\n";
	o += "R " + ctx.conninfo.remoteAddr.hostname + " " + std::to_string(ctx.conninfo.remoteAddr.port) + "\n";
	o += "L " + std::to_string(req.body.size()) + "\n\n";
	o.append((const char*)req.body.buffer().data(), req.body.buffer().size());
	return o;
}

struct Spec {
	uint32_t code = 200; bool customText = false; std::string text;
	std::vector<std::tuple<char, std::string, std::string>> headers;
	std::string kind = "full";
	std::string body;
	std::vector<std::string> lines;
};
static Spec parseSpec(const std::string& in) {
	Spec s;
	auto e = in.find("\n\n");
	auto head = in.substr(0, e);
	if (e != std::string::npos) s.body = in.substr(e + 2);
	std::istringstream is(head); std::string line;
	while (std::getline(is, line)) {
		s.lines.push_back(line);
		auto w = words(line);
		if (w.empty()) continue;
		if (w[0] == "S") { s.code = std::stoul(w[1]); if (w.size() > 2) { s.customText = true; s.text = unhex(w[2]); } }
		else if (w[0] == "H" || w[0] == "A") s.headers.push_back({ w[0][0], unhex(w[1]), unhex(w[2]) });
		else if (w[0] == "K") s.kind = w[1];
	}
	return s;
}

struct CustomException : std::exception {
	std::string m; CustomException(const std::string& x) : m(x) {}
	const char* what() const noexcept override { return m.c_str(); }
};

static HandlerResponse sseHandler(const Request& req, const Context& ctx, long n) {
	const auto tag = std::to_string(n);
	auto spec = parseSpec(req.body.text());
	const auto mode = req.url.searchParams.get("mode");
	auto writer = ctx.startEventStream();
	ev("SSEOPEN " + tag);
	if (mode == "loop") {
		long pushed = 0; bool threw = false;
		const std::string pad(req.url.searchParams.has("pad") ? std::stoi(req.url.searchParams.get("pad")) : 0, 'p');
		const auto every = std::stoi(req.url.searchParams.get("us"));
		while (writer.connected()) {
			try { SSE::EventMessage m; m.data = "tick " + std::to_string(pushed) + pad; writer.push(m); pushed++; }
			catch (const std::exception& e) { threw = true; break; }
			std::this_thread::sleep_for(std::chrono::microseconds(every));
		}
		bool threwAfter = false;
		try { writer.push({ "late" }); } catch (...) { threwAfter = true; }
		ev("SSEEND " + tag + " " + std::to_string(pushed) + " " + (threw ? "1" : "0") + " " + (threwAfter ? "1" : "0"));
		return {};
	}
	long k = 0;
	for (const auto& l : spec.lines) {
		auto w = words(l);
		if (w.empty() || w[0] != "E") continue;
		SSE::EventMessage m;
		m.data = unhex(w[1]);
		if (w[2] != "~") m.event = unhex(w[2]);
		if (w[3] != "~") m.id = unhex(w[3]);
		if (w[4] != "~") m.retry = (uint32_t)std::stoul(w[4]);
		try { writer.push(m); k++; } catch (const std::exception& e) { ev("SSEFAIL " + tag + " " + std::to_string(k) + " " + hex(std::string(e.what()))); }
	}
	if (mode == "throw") throw std::runtime_error(req.url.searchParams.get("msg"));
	if (mode == "close") writer.close();
	ev("SSEEND " + tag + " " + std::to_string(k) + " 0 0");
	return {};
}

static std::string wsPayload(const std::string& id, size_t size) {
	std::string p = id + "|";
	while (p.size() < size) p += (char)('a' + (p.size() * 7 + id.size()) % 26);
	return p;
}

static HandlerResponse wsHandler(const Request& req, const Context& ctx, long n) {
	const auto tag = req.url.searchParams.has("tag") ? req.url.searchParams.get("tag") : std::to_string(n);
	const auto mode = req.url.searchParams.get("mode");
	const auto geti = [&](const std::string& k, long d) { return req.url.searchParams.has(k) ? std::stol(req.url.searchParams.get(k)) : d; };
	if (req.url.searchParams.has("own")) {
		//	answers requests that are not proper handshakes itself
		const auto own = req.url.searchParams.get("own");
		try {
			auto ws = ctx.upgrateToWebsocket();
			ev("WSOPEN " + tag);
			ws.sendMessage(std::string("own"));
			return {};
		} catch (const std::exception& e) {
			ev("WSOWN " + tag);
			if (own == "rethrow") throw std::runtime_error("own error");
			return HTTP::Response(std::stoi(own), "own answer " + tag);
		}
	}
	auto ws = ctx.upgrateToWebsocket();
	ev("WSOPEN " + tag);
	if (mode == "throw") throw std::runtime_error(req.url.searchParams.get("msg"));
	std::vector<std::thread> senders;
	const long nthreads = geti("threads", 0), nmsgs = geti("msgs", 0), maxsize = geti("size", 100);
	std::atomic<long> sendErrors{0};
	for (long t = 0; t < nthreads; t++) {
		senders.emplace_back([&, t]() {
			uint64_t s = 88172645463325252ull + t * 7919 + n * 104729;
			for (long i = 0; i < nmsgs; i++) {
				s ^= s << 13; s ^= s >> 7; s ^= s << 17;
				size_t size = (s >> 8) % (maxsize + 1);
				if (s % 5 == 0) size = 120 + (s >> 20) % 12;
				if (s % 17 == 0) size = 65530 + (s >> 20) % 12;
				const bool asText = (s >> 16) & 1;
				auto payload = wsPayload(tag + ":" + std::to_string(t) + ":" + std::to_string(i) + (asText ? ":T:" : ":B:") + std::to_string(size), size);
				try {
					if (asText) ws.sendMessage(payload);
					else ws.sendMessage(std::vector<uint8_t>(payload.begin(), payload.end()));
				} catch (const std::exception& e) { sendErrors++; break; }
				if ((s >> 24) % 8 == 0) std::this_thread::sleep_for(std::chrono::microseconds((s >> 30) % 300));
			}
		});
	}
	long got = 0; std::string how = "closed";
	if (mode == "late") { std::this_thread::sleep_for(std::chrono::milliseconds(geti("ms", 300))); }
	if (mode != "nowait") {
		try {
			while (ws.awaitMessage()) {
				while (ws.hasMessage()) {
					auto m = ws.nextMessage();
					got++;
					if (mode == "record" || mode == "late") {
						ev("WSMSG " + tag + " " + (m.binary ? "B" : "T") + " " + (m.partial ? "P" : "F") + " " + hex(m.data));
					} else if (mode == "echo") {
						ws.sendMessage(Websocket::Message(m.data, m.binary, m.partial));
					} else if (mode == "count") {
					}
					if (mode == "echo" || mode == "record") {
						if (m.text() == "!close") { ws.close(Websocket::CloseReason::Normal); }
						if (m.text() == "!return") { how = "returned"; goto out; }
						if (m.text() == "!throw") { for (auto& t : senders) t.join(); senders.clear(); ev("WSEND " + tag + " " + std::to_string(got) + " threw"); throw std::runtime_error("ws handler failure"); }
					}
				}
			}
		} catch (const std::exception& e) { how = "exception:" + hex(std::string(e.what())); if (std::string(e.what()) == "ws handler failure") throw; }
	}
	out:
	for (auto& t : senders) t.join();
	if (mode == "nowait") { try { ws.close(Websocket::CloseReason::Normal); } catch (const std::exception& e) { how = "closeexception"; } }
	ev("WSEND " + tag + " " + std::to_string(got) + " " + how + " senderr=" + std::to_string(sendErrors));
	return {};
}

static HandlerResponse handler(const Request& req, const Context& ctx) {
	const long n = ++g_invocations;
	struct Act { long n; Act(long x) : n(x) { g_active++; } ~Act() { g_active--; ev("OUT " + std::to_string(n)); } } act(n);
	ev("IN " + std::to_string(n) + " " + ctx.contextID + " " + ctx.requestID + " " + req.method.toString() + " " + hex(req.url.pathname) + " " +
		std::to_string(req.body.size()) + " " + std::to_string(ctx.conninfo.remoteAddr.port) + (g_instanceAlive ? "" : " DEAD"));
	const auto& path = req.url.pathname;

	if (path.starts_with("/resp")) {
		auto s = parseSpec(req.body.text());
		HTTP::Headers hs;
		for (auto& [k, a, b] : s.headers) { if (k == 'H') hs.set(a, b); else hs.append(a, b); }
		if (s.kind == "string") return s.body;
		if (s.kind == "cstr") return s.body.c_str();
		if (s.kind == "bytes") return std::vector<uint8_t>(s.body.begin(), s.body.end());
		if (s.kind == "body") return Response(HTTP::BodyBuffer(s.body));
		HTTP::Status st = s.customText ? HTTP::Status(s.code, s.text) : HTTP::Status(s.code);
		if (s.kind == "status") return Response(st);
		if (s.kind == "statushdr") return Response(st, hs);
		if (s.kind == "statusbody") return Response(st, HTTP::BodyBuffer(s.body));
		if (s.kind == "assign") { Response r; r.status = st; r.headers = hs; r.body = std::vector<uint8_t>(s.body.begin(), s.body.end()); return r; }
		if (s.kind == "cookies") {
			Response r(st, hs, HTTP::BodyBuffer(s.body)); HTTP::Cookies ck;
			for (const auto& l : s.lines) { auto w = words(l); if (w.size() == 3 && w[0] == "C") ck.set(unhex(w[1]), unhex(w[2])); }
			r.setCookies(ck); return r;
		}
		return Response(st, hs, HTTP::BodyBuffer(std::vector<uint8_t>(s.body.begin(), s.body.end())));
	}
	if (path.starts_with("/throw")) {
		const auto kind = req.url.searchParams.get("kind");
		const auto msg = req.body.text();
		if (kind == "runtime") throw std::runtime_error(msg);
		if (kind == "custom") throw CustomException(msg);
		if (kind == "lambda") throw Lambda::Error(msg);
		if (kind == "int") throw 42;
		if (kind == "string") throw std::string(msg);
		if (kind == "cstr") throw "plain c string";
		if (kind == "badalloc") throw std::bad_alloc();
		if (kind == "at") { std::vector<int> v; return std::to_string(v.at(3)); }
		if (kind == "status") return Response(HTTP::Status(799));
		return {};
	}
	if (path.starts_with("/sleep")) {
		const long ms = std::stol(req.url.searchParams.get("ms"));
		std::this_thread::sleep_for(std::chrono::milliseconds(ms));
		return Response(200, { { "content-type", "application/octet-stream" } }, HTTP::BodyBuffer(dumpRequest(req, ctx, n)));
	}
	if (path.starts_with("/shutdown")) {
		if (auto* p = g_inst.load()) p->shutdownn();
		return "shutting down";
	}
	if (path.starts_with("/big")) {
		const long sz = std::stol(req.url.searchParams.get("size"));
		const auto seedv = std::stol(req.url.searchParams.get("seed"));
		std::vector<uint8_t> b(sz);
		uint32_t x = 2463534242u + seedv;
		for (auto& c : b) { x ^= x << 13; x ^= x >> 17; x ^= x << 5; c = x & 0xff; }
		return b;
	}
	if (path.starts_with("/sse")) return sseHandler(req, ctx, n);
	if (path.starts_with("/ws")) return wsHandler(req, ctx, n);
	return Response(200, { { "content-type", "application/octet-stream" } }, HTTP::BodyBuffer(dumpRequest(req, ctx, n)));
}

static size_t countDir(const char* p) {
	size_t n = 0; DIR* d = opendir(p); if (!d) return 0;
	while (auto* e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d); return n - 1 * (std::string(p) == "/proc/self/fd");
}
static long rssKb(const char* key) {
	std::ifstream f("/proc/self/status"); std::string l;
	while (std::getline(f, l)) if (l.rfind(key, 0) == 0) return std::stol(l.substr(strlen(key)));
	return -1;
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> opt;
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); opt[a.substr(0, e)] = e == std::string::npos ? "1" : a.substr(e + 1); }
	const auto geti = [&](const std::string& k, long d) { return opt.count(k) ? std::stol(opt[k]) : d; };

	g_evfd = geti("evfd", 1);
	if (opt.count("nofile")) { rlimit r { (rlim_t)geti("nofile", 1024), (rlim_t)geti("nofile", 1024) }; setrlimit(RLIMIT_NOFILE, &r); }
	Faults::seed = (uint64_t)geti("seed", 1) * 1000003 + 17;
	Faults::shortReads = geti("shortreads", 0);
	Faults::delayUs = geti("delayus", 0);
	Faults::storm(geti("sigstorm", 0));

	const auto mkconfig = [&]() {
		ServerConfig c;
		c.loglevel.requests = geti("logreq", 0);
		c.loglevel.transportEvents = geti("logtransport", 0);
		c.loglevel.startMessage = geti("logstart", 0);
		c.transport.useCompression = geti("compress", 1);
		c.transport.reuseConnections = geti("reuse", 1);
		if (opt.count("maxreq")) c.transport.maxRequestSize = std::stoull(opt["maxreq"]);
		if (opt.count("errtype")) c.errorResponseType = opt["errtype"] == "json" ? ErrorResponseType::JSON : opt["errtype"] == "plain" ? ErrorResponseType::Plain : ErrorResponseType::HTML;
		c.service.port = geti("port", 8180);
		c.service.fastPortReuse = geti("fastreuse", 1);
		c.service.connectionTimeouts.receive = geti("rxto", 15000);
		c.service.connectionTimeouts.send = geti("txto", 15000);
		c.service.maxConnections = geti("maxconn", 500);
		c.service.useThreadList = geti("threadlist", 1);
		return c;
	};

	std::shared_ptr<StaticServer> statics;
	RequestCallback cb = handler;
	if (opt.count("static")) {
		statics = std::make_shared<StaticServer>(opt["static"]);
		cb = [statics](const Request& req, const Context& ctx) -> HandlerResponse {
			const long n = ++g_invocations;
			ev("IN " + std::to_string(n) + " " + ctx.contextID + " " + ctx.requestID + " " + req.method.toString() + " " + hex(req.url.pathname) + " 0 0");
			if (req.url.pathname.starts_with("/__alive")) return "alive";
			return statics->serve(req);
		};
	}

	std::unique_ptr<LambdaInstance> inst;
	std::thread bg;
	std::string line;
	ev("READY");
	while (std::getline(std::cin, line)) {
		auto w = words(line);
		if (w.empty()) continue;
		const auto t0 = std::chrono::steady_clock::now();
		std::string res = "ok";
		try {
			if (w[0] == "start") { g_instanceAlive = true; inst = std::make_unique<LambdaInstance>(cb, mkconfig()); g_inst = inst.get(); }
			else if (w[0] == "shutdown") { if (inst) inst->shutdownn(); }
			else if (w[0] == "multishutdown") {
				std::vector<std::thread> ts;
				for (int i = 0; i < 4; i++) ts.emplace_back([&]() { inst->shutdownn(); });
				for (auto& t : ts) t.join();
			}
			else if (w[0] == "asyncshutdown") {
				const auto ms = std::stoi(w[1]);
				if (bg.joinable()) bg.join();
				bg = std::thread([p = inst.get(), ms]() { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); p->shutdownn(); ev("BGSHUTDOWN"); });
			}
			else if (w[0] == "await") {
				if (inst) inst->awaitFinished();
				const long act = g_active; g_instanceAlive = false;
				ev("QUIET await " + std::to_string(act));
				if (bg.joinable()) bg.join();
			}
			else if (w[0] == "destroy") {
				if (bg.joinable()) bg.join();
				inst.reset();
				const long act = g_active; g_instanceAlive = false; g_inst = nullptr;
				ev("QUIET destroy " + std::to_string(act));
			}
			else if (w[0] == "set") {
				for (size_t i = 1; i < w.size(); i++) { auto e = w[i].find('='); opt[w[i].substr(0, e)] = w[i].substr(e + 1); }
				Faults::shortReads = geti("shortreads", 0);
				Faults::delayUs = geti("delayus", 0);
				Faults::storm(geti("sigstorm", 0));
			}
			else if (w[0] == "failaccept") { Faults::acceptFailErrno = std::stoi(w[1]); Faults::acceptFailCount = std::stoi(w[2]); }
			else if (w[0] == "clock") Faults::clockOffset = std::stoll(w[1]);
			else if (w[0] == "failthread") Faults::threadFailCount = std::stoi(w[1]);
			else if (w[0] == "stat") {
				res = "active=" + std::to_string(g_active) + ",inv=" + std::to_string(g_invocations) + ",fds=" + std::to_string(countDir("/proc/self/fd")) +
					",threads=" + std::to_string(rssKb("Threads:")) + ",hwm=" + std::to_string(rssKb("VmHWM:")) + ",rss=" + std::to_string(rssKb("VmRSS:")) +
					",recv=" + std::to_string(Faults::recvCalls) + ",send=" + std::to_string(Faults::sendCalls) + ",acceptfailed=" + std::to_string(Faults::acceptFailed) +
					",threadfailed=" + std::to_string(Faults::threadFailed) + ",badcloses=" + std::to_string(Faults::badCloses) + ",interrupted=" + std::to_string(Faults::interrupted) + ",cutsends=" + std::to_string(Faults::cutSends) + ",signals=" + std::to_string(Faults::signalsSent) +
					",heap=" + std::to_string(__sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0L);
			}
			else if (w[0] == "resethwm") { std::ofstream("/proc/self/clear_refs") << "5\n"; }
			else if (w[0] == "quit") { ev("ACK quit ok 0"); fflush(stdout); fflush(stderr); _exit(0); }
			else if (w[0] == "exit") { break; }
			else res = "unknown";
		} catch (const std::exception& e) { res = "exception:" + hex(std::string(e.what())); if (w[0] == "start") g_instanceAlive = false; }
		catch (...) { res = "exception:unknown"; }
		const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
		ev("ACK " + w[0] + " " + res + " " + std::to_string(ms));
	}
	if (bg.joinable()) bg.join();
	Faults::storm(0);
	if (geti("threadlist", 1)) inst.reset();
	fflush(stdout); fflush(stderr);
	if (!geti("threadlist", 1)) _exit(0);
	return 0;
}
