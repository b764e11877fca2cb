// TCP harness: the library's listener and connection classes, driven command by command. Commands come from stdin
// and name the operation, blocking ones run in a thread of their own; every outcome is one line on the event
// descriptor: "<op> ok ...", "<op> none", "<op> err <kind> <hex message>", followed by " open=<0|1> ms=<elapsed>".
#include "core/network/tcp/listener.hpp"
#include "core/network/tcp/connection.hpp"
#include "faults.hpp"

#include <unistd.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <dirent.h>
#include <atomic>
#include <chrono>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <thread>
#include <functional>

using namespace Lambda;
using namespace Lambda::Network;

static std::mutex g_evmtx;
static int g_evfd = 1;
static void ev(const std::string& line) {
	std::lock_guard<std::mutex> l(g_evmtx);
	std::string s = line + "\n";
	size_t off = 0;
	while (off < s.size()) {
		auto n = ::write(g_evfd, s.data() + off, s.size() - off);
		if (n < 0) { if (errno == EINTR) continue; return; }
		off += n;
	}
}
static std::string hex(const std::string& s) {
	static const char* d = "0123456789abcdef";
	std::string o; o.reserve(s.size() * 2);
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o.size() ? o : std::string("-");
}
static std::string unhex(const std::string& s) {
	if (s == "-") return "";
	std::string o;
	for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)std::stoi(s.substr(i, 2), nullptr, 16);
	return o;
}
static std::vector<std::string> words(const std::string& s) {
	std::vector<std::string> o; std::istringstream is(s); std::string w;
	while (is >> w) o.push_back(w);
	return o;
}
struct Pattern {
	uint64_t s; uint64_t v = 0; int left = 0;
	Pattern(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull | 1) {}
	uint8_t operator()() {
		if (!left) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; v = s; left = 8; }
		const uint8_t b = v & 255; v >>= 8; left--; return b;
	}
};
struct Lcg { uint64_t s; uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (s >> 33) % n; } };
static uint64_t fnv(uint64_t h, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; } return h; }

static std::mutex g_mtx;
static std::map<std::string, std::shared_ptr<TCP::Connection>> conns;
static std::map<std::string, std::shared_ptr<TCP::ListenSocket>> listeners;
static std::shared_ptr<TCP::Connection> conn(const std::string& id) { std::lock_guard<std::mutex> l(g_mtx); auto it = conns.find(id); if (it == conns.end()) throw std::runtime_error("harness: no connection " + id); return it->second; }
static std::shared_ptr<TCP::ListenSocket> lst(const std::string& id) { std::lock_guard<std::mutex> l(g_mtx); auto it = listeners.find(id); if (it == listeners.end()) throw std::runtime_error("harness: no listener " + id); return it->second; }

static std::string guarded(const std::function<std::string()>& f) {
	const auto t0 = std::chrono::steady_clock::now();
	std::string r;
	try { r = f(); }
	catch (const NetworkError& e) { r = "err network " + hex(e.what()); }
	catch (const Lambda::Error& e) { r = "err lambda " + hex(e.what()); }
	catch (const std::exception& e) { r = "err std " + hex(e.what()); }
	catch (...) { r = "err other -"; }
	return r + " ms=" + std::to_string(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count());
}

static std::string info(TCP::Connection& c) {
	const auto& i = c.info();
	return i.remoteAddr.hostname + " " + std::to_string(i.remoteAddr.port) + " " + (i.remoteAddr.transport == ConnectionTransport::TCP ? "tcp" : "udp") + " " +
		std::to_string(i.hostPort) + " " + std::to_string(i.timeouts.receive) + " " + std::to_string(i.timeouts.send);
}

static std::string exec(const std::vector<std::string>& w) {
	const auto& cmd = w[1];
	const auto num = [&](size_t i) { return std::stol(w.at(i)); };
	if (cmd == "listen") {
		TCP::ListenConfig cfg;
		cfg.port = num(3); cfg.allowPortReuse = num(4); cfg.connectionTimeouts.receive = num(5); cfg.connectionTimeouts.send = num(6);
		auto p = std::make_shared<TCP::ListenSocket>(cfg);
		std::lock_guard<std::mutex> l(g_mtx); listeners[w[2]] = p;
		const auto& g = p->getConfig();
		return "ok " + std::to_string(g.port) + " " + std::to_string(g.connectionTimeouts.receive) + " " + std::to_string(g.connectionTimeouts.send) + " " + std::to_string(p->active());
	}
	if (cmd == "accept") {
		auto opt = lst(w[2])->acceptConnection();
		if (!opt.has_value()) return "none";
		auto p = std::make_shared<TCP::Connection>(std::move(opt.value()));
		if (opt.value().isOpen()) return "ok moved-from-still-open";
		std::lock_guard<std::mutex> l(g_mtx); conns[w[3]] = p;
		return "ok " + info(*p) + " " + std::to_string(p->isOpen());
	}
	if (cmd == "active") return "ok " + std::to_string(lst(w[2])->active());
	if (cmd == "stop") { lst(w[2])->stop(); return "ok"; }
	if (cmd == "ldrop") { std::shared_ptr<TCP::ListenSocket> p; { std::lock_guard<std::mutex> l(g_mtx); p = listeners[w[2]]; listeners.erase(w[2]); } p.reset(); return "ok"; }
	if (cmd == "lmove") {
		auto src = lst(w[2]);
		auto p = std::make_shared<TCP::ListenSocket>(std::move(*src));
		std::lock_guard<std::mutex> l(g_mtx); listeners[w[3]] = p;
		return "ok " + std::to_string(src->active()) + " " + std::to_string(p->active()) + " " + std::to_string(p->getConfig().port);
	}
	if (cmd == "lassign") {
		auto src = lst(w[2]), dst = lst(w[3]);
		*dst = std::move(*src);
		return "ok " + std::to_string(src->active()) + " " + std::to_string(dst->active()) + " " + std::to_string(dst->getConfig().port);
	}
	if (cmd == "read") {
		auto c = conn(w[2]);
		auto d = w[3] == "-" ? c->read() : c->read(num(3));
		return "ok " + hex(std::string(d.begin(), d.end())) + " open=" + std::to_string(c->isOpen());
	}
	if (cmd == "drain") {
		//	reads with random sizes until the end; reports the amount, its hash and the sizes of the reads
		auto c = conn(w[2]);
		Lcg r { (uint64_t)num(3) }; const uint32_t maxn = num(4); const long until = num(5);
		uint64_t h = 1469598103934665603ull; long total = 0, reads = 0, over = 0;
		std::string end = "eof";
		while (until < 0 || total < until) {
			uint32_t n = 1 + r(r(3) ? maxn : 16);
			if (until >= 0 && (long)n > until - total) n = until - total;
			std::vector<uint8_t> d;
			try { d = c->read(n); } catch (const NetworkError& e) { end = "network"; break; } catch (const std::exception& e) { end = "error"; break; }
			if (!d.size()) break;
			if (d.size() > n) over++;
			h = fnv(h, d.data(), d.size()); total += d.size(); reads++;
			if (r(50) == 0) std::this_thread::sleep_for(std::chrono::microseconds(r(300)));
		}
		if (until >= 0 && total >= until) end = "got";
		return "ok " + std::to_string(total) + " " + std::to_string(h) + " " + std::to_string(reads) + " " + std::to_string(over) + " " + end + " open=" + std::to_string(c->isOpen());
	}
	if (cmd == "write") {
		auto c = conn(w[2]); auto d = unhex(w[3]);
		try { c->write(std::vector<uint8_t>(d.begin(), d.end())); }
		catch (const NetworkError& e) { return "err network " + hex(e.what()) + " open=" + std::to_string(c->isOpen()); }
		return "ok open=" + std::to_string(c->isOpen());
	}
	if (cmd == "pump") {
		//	writes `total` pattern bytes in pieces of random size (exactly `size` when it is positive)
		auto c = conn(w[2]); Pattern p((uint64_t)num(3)); long total = num(4); const long size = num(5);
		Lcg r { (uint64_t)num(3) }; long done = 0, writes = 0;
		while (done < total) {
			long n = size > 0 ? size : 1 + (r(3) ? r(3000) : r(100000));
			if (n > total - done) n = total - done;
			std::vector<uint8_t> d(n);
			for (auto& b : d) b = p();
			try { c->write(d); } catch (const NetworkError& e) { return "ok " + std::to_string(done) + " " + std::to_string(writes) + " network open=" + std::to_string(c->isOpen()); }
			catch (const std::exception& e) { return "ok " + std::to_string(done) + " " + std::to_string(writes) + " error open=" + std::to_string(c->isOpen()); }
			done += n; writes++;
			if (r(60) == 0) std::this_thread::sleep_for(std::chrono::microseconds(r(300)));
		}
		return "ok " + std::to_string(done) + " " + std::to_string(writes) + " done open=" + std::to_string(c->isOpen());
	}
	if (cmd == "records") {
		//	several threads writing whole records: <thread:number:length|aaaa>
		auto c = conn(w[2]); const int T = num(3); const long n = num(4), maxlen = num(5);
		std::vector<std::thread> ts; std::atomic<long> bad{0};
		for (int t = 0; t < T; t++) ts.emplace_back([&, t]() {
			Lcg r { (uint64_t)(t + 1) * 7919 };
			for (long i = 0; i < n; i++) {
				const long len = r(4) ? r(40) : r(maxlen);
				std::string s = "<" + std::to_string(t) + ":" + std::to_string(i) + ":" + std::to_string(len) + "|" + std::string(len, (char)('a' + (t + i) % 26)) + ">";
				try { c->write(std::vector<uint8_t>(s.begin(), s.end())); } catch (...) { bad++; return; }
			}
		});
		for (auto& t : ts) t.join();
		return "ok " + std::to_string(bad.load()) + " open=" + std::to_string(c->isOpen());
	}
	if (cmd == "end") { auto c = conn(w[2]); c->end(); return "ok open=" + std::to_string(c->isOpen()); }
	if (cmd == "open") { auto c = conn(w[2]); return "ok open=" + std::to_string(c->isOpen()); }
	if (cmd == "info") { auto c = conn(w[2]); return "ok " + info(*c); }
	if (cmd == "tmo") {
		auto c = conn(w[2]);
		if (w[4] == "both") c->setTimeouts(num(3));
		else c->setTimeouts(num(3), w[4] == "rx" ? SetTimeoutsDirection::Receive : w[4] == "tx" ? SetTimeoutsDirection::Send : SetTimeoutsDirection::Both);
		return "ok " + info(*c);
	}
	if (cmd == "flags") { auto c = conn(w[2]); c->flags.closeOnTimeout = num(3); c->flags.throwOnDisconnect = num(4); return "ok"; }
	if (cmd == "move") {
		auto c = conn(w[2]);
		auto p = std::make_shared<TCP::Connection>(std::move(*c));
		std::lock_guard<std::mutex> l(g_mtx); conns[w[3]] = p;
		return "ok " + std::to_string(c->isOpen()) + " " + std::to_string(p->isOpen()) + " " + std::to_string(p->flags.closeOnTimeout) + std::to_string(p->flags.throwOnDisconnect) + " " + info(*p);
	}
	if (cmd == "assign") {
		auto src = conn(w[2]), dst = conn(w[3]);
		*dst = std::move(*src);
		return "ok " + std::to_string(src->isOpen()) + " " + std::to_string(dst->isOpen()) + " " + std::to_string(dst->flags.closeOnTimeout) + std::to_string(dst->flags.throwOnDisconnect) + " " + info(*dst);
	}
	if (cmd == "selfassign") { auto c = conn(w[2]); auto& r = *c; *c = std::move(r); return "ok open=" + std::to_string(c->isOpen()); }
	if (cmd == "drop") { std::shared_ptr<TCP::Connection> p; { std::lock_guard<std::mutex> l(g_mtx); p = conns[w[2]]; conns.erase(w[2]); } const auto n = p.use_count(); p.reset(); return "ok " + std::to_string(n); }
	if (cmd == "stat") {
		size_t n = 0; DIR* d = opendir("/proc/self/fd"); while (auto* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d);
		size_t t = 0; d = opendir("/proc/self/task"); while (auto* e = readdir(d)) if (e->d_name[0] != '.') t++; closedir(d);
		return "ok " + std::to_string(n - 1) + " " + std::to_string(t) + " " + std::to_string(Faults::recvCalls) + " " + std::to_string(Faults::sendCalls) + " " + std::to_string(Faults::interrupted) + " " + std::to_string(Faults::cutSends) + " " + std::to_string(Faults::signalsSent);
	}
	if (cmd == "set") { Faults::shortReads = num(2); Faults::delayUs = num(3); return "ok"; }
	if (cmd == "storm") { Faults::storm(num(2)); return "ok"; }
	if (cmd == "failaccept") { Faults::acceptFailErrno = num(2); Faults::acceptFailCount = num(3); return "ok"; }
	if (cmd == "endrace") {
		//	a descriptor ended by several threads at the very same moment, again and again: how many closes hit one that was not open
		const long rounds = num(2), nth = num(3);
		const bool listeners = w.at(4) == "listener";
		const long before = Faults::badCloses, recvs = Faults::recvCalls;
		std::unique_ptr<TCP::ListenSocket> lsock; std::unique_ptr<TCP::Connection> csock;
		std::atomic<long> gate{0}, done{0}; std::atomic<bool> over{false};
		std::vector<std::thread> ths;
		for (long t = 0; t < nth; t++) ths.emplace_back([&, t]() {
			for (long k = 1; ; k++) {
				for (long spin = 0; gate.load() < k; spin++) { if (over) return; if (spin > 2000) std::this_thread::yield(); }
				if (listeners) { if (t == 2) lsock->active(); lsock->stop(); }
				else if (t == 2) { try { csock->read(); } catch (...) {} }
				else csock->end();
				done++;
			}
		});
		long opened = 0;
		for (long k = 1; k <= rounds; k++) {
			int other = -1;
			try {
				if (listeners) { TCP::ListenConfig cfg; cfg.port = 0; cfg.allowPortReuse = true; cfg.connectionTimeouts.receive = cfg.connectionTimeouts.send = 1000; lsock = std::make_unique<TCP::ListenSocket>(cfg); }
				else {
					int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) break;
					other = sv[1];
					ConnectionInfo inf { { "", 0, ConnectionTransport::TCP }, { 1000, 1000 }, 0 };
					csock = std::make_unique<TCP::Connection>(TCP::Connection({ sv[0], inf }));
				}
			} catch (const NetworkError&) { break; }
			opened++;
			gate = k;
			while (done.load() < k * nth) {}
			if (other >= 0) ::close(other);
			lsock.reset(); csock.reset();
		}
		over = true;
		for (auto& t : ths) t.join();
		return "ok " + std::to_string(opened) + " " + std::to_string(Faults::badCloses - before) + " " + std::to_string(Faults::recvCalls - recvs);
	}
	return "err harness -";
}

int main(int argc, char** argv) {
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("evfd=", 0) == 0) g_evfd = std::stoi(a.substr(5)); if (a.rfind("seed=", 0) == 0) Faults::seed = std::stoul(a.substr(5)) * 1000003 + 17; }
	ev("READY");
	std::atomic<long> pending{0};
	std::string line;
	while (std::getline(std::cin, line)) {
		auto w = words(line);
		if (w.empty()) continue;
		if (w[0] == "exit") break;
		const bool async = w[0][0] == 'a';
		if (async) {
			pending++;
			std::thread([w, &pending]() { ev(w[0] + " " + guarded([&]() { return exec(w); })); pending--; }).detach();
		} else ev(w[0] + " " + guarded([&]() { return exec(w); }));
	}
	Faults::storm(0);
	{ std::vector<std::shared_ptr<TCP::Connection>> cs; std::vector<std::shared_ptr<TCP::ListenSocket>> ls;
	  { std::lock_guard<std::mutex> l(g_mtx); for (auto& c : conns) cs.push_back(c.second); for (auto& c : listeners) ls.push_back(c.second); conns.clear(); listeners.clear(); }
	  for (auto& l : ls) l->stop();
	  for (auto& c : cs) c->end(); }
	for (int i = 0; i < 600 && pending; i++) std::this_thread::sleep_for(std::chrono::milliseconds(50));
	if (pending) { ev("STUCK " + std::to_string(pending)); _exit(9); }
	return 0;
}
