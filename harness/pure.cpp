//	A driver for the parts of the library that don't need a network.
//	Reads calls from stdin, writes their results to stdout:
//	call: u32 count, count * (u32 length, bytes); result: the same; all numbers are little endian
#include <valgrind/memcheck.h>
#include "core/polyfill/polyfill.hpp"
#include "core/encoding/encoding.hpp"
#include "core/crypto/crypto.hpp"
#include "buildopts.hpp"
#ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
	#include "core/compression/compression.hpp"
#endif
#include "core/http/http.hpp"
#include "core/server/handlers.hpp"
#include "core/json/json.hpp"
#include "core/html/html.hpp"
#include "core/utils/utils.hpp"
#include "extra/staticserver/staticserver.hpp"
#include "extra/kvstorage/kvstorage.hpp"
#include "extra/vfs/vfs.hpp"

#include "faults.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <signal.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <atomic>
#include <functional>
#include <memory>
#include <set>
#include <thread>
#include <algorithm>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define ALLOCATED() __sanitizer_get_current_allocated_bytes()
#else
#include <malloc.h>
#define ALLOCATED() ((size_t)mallinfo2().uordblks)
#endif

using namespace Lambda;
using Str = std::string;
using List = std::vector<Str>;
using Bytes = std::vector<uint8_t>;

static Bytes B(const Str& s) { return Bytes(s.begin(), s.end()); }
static Str S(const Bytes& b) { return Str(b.begin(), b.end()); }
static Str N(long long n) { return std::to_string(n); }

static Str pack(const List& l) {
	Str r;
	auto put = [&](uint32_t v) { r.append((const char*)&v, 4); };
	put(l.size());
	for (const auto& s : l) { put(s.size()); r += s; }
	return r;
}

struct Args {
	const List& l;
	size_t i = 0;
	bool more() const { return i < l.size(); }
	const Str& next() {
		if (i >= l.size()) { fprintf(stderr, "HARNESS: missing argument\n"); _exit(99); }
		return l[i++];
	}
	long num() { return strtol(next().c_str(), nullptr, 10); }
};

//	failing allocations, when alloc.c is preloaded
extern "C" {
	__attribute__((weak)) void alloc_arm(long k, long n, long size, int libc);
	__attribute__((weak)) long alloc_disarm(void);
}
struct AllocFault { long k = 0, n = 1, size = 0, libc = 0; };
static std::vector<AllocFault> stepFaults;
static size_t stepIndex = 0;
static Str stepFired;
static List stepErrors;

//	the outcome of one step of a script: status byte and a packed list
static Str step(const std::function<List()>& f) {
	AllocFault fault;
	if (stepIndex < stepFaults.size()) fault = stepFaults[stepIndex++];
	bool armed = false;
	auto disarm = [&] { if (armed) { armed = false; if (stepFired.size()) stepFired.back() = alloc_disarm() ? '1' : '0'; } };
	if (stepFaults.size()) stepFired += '-';
	try {
		List l;
		if (fault.k) { armed = true; alloc_arm(fault.k, fault.n, fault.size, fault.libc); }
		l = f();
		disarm();
		return "K" + pack(l);
	}
	catch (const std::exception& e) { disarm(); if (alloc_arm) stepErrors.push_back(e.what()); return "E" + pack({ e.what() }); }
	catch (...) { disarm(); return "X" + pack({ "unknown exception" }); }
}

//	---- JSON values in a compact unambiguous form
static JSON::Property jbuild(const Str& s, size_t& i) {
	auto num = [&]() { size_t e = s.find(':', i); long v = strtol(s.substr(i, e - i).c_str(), nullptr, 10); i = e + 1; return v; };
	auto str = [&]() { size_t n = num(); Str r = s.substr(i, n); i += n; return r; };
	char t = s.at(i++);
	switch (t) {
		case 'u': return JSON::Property();
		case 'n': return JSON::Property(nullptr);
		case 't': return JSON::Property(true);
		case 'f': return JSON::Property(false);
		case 'i': {
			//	every type that can hold it
			const long v = num();
			const auto how = (i + v) & 3;
			if (how == 0 && v == (int16_t)v) return JSON::Property((int16_t)v);
			if (how == 1 && v == (uint16_t)v) return JSON::Property((uint16_t)v);
			if (how == 2 && v >= 0) return JSON::Property((uint32_t)v);
			return JSON::Property((int32_t)v);
		}
		case 'd': { size_t e = s.find(':', i); long double v = strtold(s.substr(i, e - i).c_str(), nullptr); i = e + 1;
			if (v == (long double)(float)v && (i & 1)) return JSON::Property((float)v);
			if (v == (long double)(double)v && (i & 2)) return JSON::Property((double)v);
			return JSON::Property(v); }
		case 's': {
			const auto v = str();
			//	also by assignment over a value of another type, and through a move
			if (v.find('\0') == Str::npos && (i & 1)) return JSON::Property(v.c_str());
			if (i & 2) { JSON::Property p(JSON::Array { JSON::Property("old"), JSON::Property(1.5) }); p = JSON::Property(v); JSON::Property q(std::move(p)); return q; }
			return JSON::Property(v);
		}
		case 'a': { long n = num(); JSON::Array a; for (long k = 0; k < n; k++) a.push_back(jbuild(s, i)); return JSON::Property(a); }
		case 'm': { long n = num(); JSON::Map m; for (long k = 0; k < n; k++) { auto key = str(); m[key] = jbuild(s, i); } return JSON::Property(m); }
	}
	fprintf(stderr, "HARNESS: bad json form\n");
	_exit(99);
}

static void jdump(const JSON::Property& p, Str& o) {
	auto str = [&](const Str& s) { o += N(s.size()) + ":" + s; };
	switch (p.type()) {
		case JSON::JSTypes::Undefined: o += p.isUndefined() && p.isNil() && !p.isNull() ? "u" : "?"; break;
		case JSON::JSTypes::Null: o += p.isNull() && p.isNil() && !p.isUndefined() ? "n" : "?"; break;
		case JSON::JSTypes::Boolean: o += p.asBool() ? "t" : "f"; break;
		case JSON::JSTypes::Integer: o += "i" + N(p.asInt()) + ":"; break;
		case JSON::JSTypes::Float: { char b[64]; snprintf(b, sizeof b, "d%.21Lg:", p.asFloat()); o += b; } break;
		case JSON::JSTypes::String: o += "s"; str(p.asString()); break;
		case JSON::JSTypes::Array: o += "a" + N(p.asArray().size()) + ":"; for (const auto& e : p.asArray()) jdump(e, o); break;
		case JSON::JSTypes::Map: {
			List keys;
			for (const auto& e : p.asMap()) keys.push_back(e.first);
			std::sort(keys.begin(), keys.end());
			o += "m" + N(keys.size()) + ":";
			for (const auto& k : keys) { str(k); jdump(p.asMap().at(k), o); }
		} break;
	}
}
static Str jdump(const JSON::Property& p) { Str o; jdump(p, o); return o; }

//	every accessor either works or throws a type error
static Str jaccess(const JSON::Property& p) {
	Str r;
	auto t = [&](auto f) { try { f(); r += '1'; } catch (const std::exception&) { r += '0'; } };
	t([&] { p.asBool(); }); t([&] { p.asInt(); }); t([&] { p.asFloat(); }); t([&] { p.asString(); }); t([&] { p.asArray(); }); t([&] { p.asMap(); });
	return r;
}

static List urlFields(const HTTP::URL& u) {
	List l { u.protocol, u.username, u.password, u.host, u.hostname, u.port, u.pathname, u.hash };
	for (const auto& e : u.searchParams.entries()) { l.push_back(e.first); l.push_back(e.second); }
	return l;
}

static List entryList(const std::vector<HTTP::KVpair>& es) {
	List l;
	for (const auto& e : es) { l.push_back(e.first); l.push_back(e.second); }
	return l;
}

template<class T> static bool registers(T* r, const Str& op, Args& a, List& out) {
	//	"=copy d s" and others move whole objects between four registers
	if (op == "=copy") { auto d = a.num(), s = a.num(); out.push_back(step([&] { r[d] = r[s]; return List(); })); }
	else if (op == "=move") { auto d = a.num(), s = a.num(); out.push_back(step([&] { r[d] = std::move(r[s]); if (d != s) r[s] = T(); return List(); })); }
	else if (op == "=cctor") { auto d = a.num(), s = a.num(); out.push_back(step([&] { T t(r[s]); r[d] = t; return List(); })); }
	else if (op == "=mctor") { auto d = a.num(), s = a.num(); out.push_back(step([&] { T t(std::move(r[s])); if (d != s) r[s] = T(); r[d] = std::move(t); return List(); })); }
	else return false;
	return true;
}

static List kvcScript(Args& a) {
	HTTP::Headers r[4];
	List out;
	while (a.more()) {
		auto op = a.next();
		if (registers(r, op, a, out)) continue;
		auto& h = r[a.num()];
		if (op == "init") {
			//	initializer lists have fixed sizes
			auto n = a.num(); List v; for (int i = 0; i < n * 2; i++) v.push_back(a.next());
			out.push_back(step([&] {
				if (n == 0) h = HTTP::Headers(std::initializer_list<HTTP::KVpair>{});
				if (n == 1) h = HTTP::Headers({ { v[0], v[1] } });
				if (n == 2) h = HTTP::Headers({ { v[0], v[1] }, { v[2], v[3] } });
				if (n == 3) h = HTTP::Headers({ { v[0], v[1] }, { v[2], v[3] }, { v[4], v[5] } });
				return List();
			}));
			continue;
		}
		if (op == "set") { auto k = a.next(), v = a.next(); out.push_back(step([&] { h.set(k, v); return List(); })); }
		else if (op == "append") { auto k = a.next(), v = a.next(); out.push_back(step([&] { h.append(k, v); return List(); })); }
		else if (op == "del") { auto k = a.next(); out.push_back(step([&] { h.del(k); return List(); })); }
		else if (op == "get") { auto k = a.next(); out.push_back(step([&] { return List { h.get(k) }; })); }
		else if (op == "has") { auto k = a.next(); out.push_back(step([&] { return List { N(h.has(k)) }; })); }
		else if (op == "all") { auto k = a.next(); out.push_back(step([&] { return h.getAll(k); })); }
		else if (op == "entries") out.push_back(step([&] { return entryList(h.entries()); }));
		else if (op == "size") out.push_back(step([&] { return List { N(h.size()) }; }));
		else { fprintf(stderr, "HARNESS: kvc op %s\n", op.c_str()); _exit(99); }
	}
	return out;
}

//	bodies, statuses, methods, requests, responses and handler results
static List bodyList(const HTTP::BodyBuffer& b) { return { b.text(), S(b.buffer()), N(b.size()), Str(b) }; }
static List statusList(const HTTP::Status& s) { return { N(s.code()), s.text(), N((int)s.type()) }; }
static List methodList(const HTTP::Method& m) { return { m.toString(), Str(m), N((int)(HTTP::Methods)m) }; }
static List responseList(const HTTP::Response& r) { return { pack(statusList(r.status)), pack(entryList(r.headers.entries())), pack(bodyList(r.body)) }; }
static List requestList(const HTTP::Request& q) { return { q.url.host + "|" + q.url.pathname + "|" + q.url.searchParams.stringify() + "|" + q.url.hash, pack(methodList(q.method)), pack(entryList(q.headers.entries())), pack(bodyList(q.body)) }; }

static List valueScript(Args& a) {
	HTTP::BodyBuffer b[4]; HTTP::Status s[4]; HTTP::Method m[4]; HTTP::Request q[4]; HTTP::Response r[4]; HandlerResponse h[4];
	List out;
	auto bad = [](const Str& o) { fprintf(stderr, "HARNESS: value op %s\n", o.c_str()); _exit(99); };
	auto headers = [&] { HTTP::Headers x; auto n = a.num(); for (int i = 0; i < n; i++) { auto k = a.next(); x.append(k, a.next()); } return x; };
	while (a.more()) {
		const auto type = a.next(), op = a.next();
		if (type == "b") {
			if (registers(b, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return bodyList(b[i]); })); continue; }
			auto d = op == "default" || op.ends_with("null") ? Str() : a.next();
			out.push_back(step([&] {
				if (op == "char") b[i] = HTTP::BodyBuffer(d.c_str());
				else if (op == "string") b[i] = HTTP::BodyBuffer(d);
				else if (op == "bytes") b[i] = HTTP::BodyBuffer(B(d));
				else if (op == "null") b[i] = HTTP::BodyBuffer((const char*)nullptr);
				else if (op == "char=") b[i] = d.c_str();
				else if (op == "string=") b[i] = d;
				else if (op == "bytes=") b[i] = B(d);
				else if (op == "default") b[i] = HTTP::BodyBuffer();
				else bad(op);
				return List();
			}));
		} else if (type == "s") {
			if (registers(s, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return statusList(s[i]); })); continue; }
			auto code = op == "default" ? 0 : a.num(); auto text = op == "text" ? a.next() : Str();
			out.push_back(step([&] {
				if (op == "code") s[i] = HTTP::Status((uint32_t)code);
				else if (op == "code=") s[i] = (uint32_t)code;
				else if (op == "text") s[i] = HTTP::Status((uint32_t)code, text);
				else if (op == "default") s[i] = HTTP::Status();
				else bad(op);
				return List();
			}));
		} else if (type == "m") {
			if (registers(m, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return methodList(m[i]); })); continue; }
			if (op == "eq") { auto t = a.next(); auto j = a.num(); out.push_back(step([&] { return List { N(m[i] == t), N(m[i] == t.c_str()), N(m[i] == m[j]) }; })); continue; }
			auto t = op == "default" ? Str() : a.next();
			out.push_back(step([&] {
				if (op == "string") m[i] = HTTP::Method(t);
				else if (op == "char") m[i] = HTTP::Method(t.c_str());
				else if (op == "string=") m[i] = t;
				else if (op == "default") m[i] = HTTP::Method();
				else bad(op);
				return List();
			}));
		} else if (type == "q") {
			if (registers(q, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return requestList(q[i]); })); continue; }
			if (op == "header") { auto k = a.next(), v = a.next(); out.push_back(step([&] { q[i].headers.set(k, v); return List(); })); continue; }
			if (op == "body") { auto j = a.num(); out.push_back(step([&] { q[i].body = b[j]; return List(); })); continue; }
			if (op == "method") { auto j = a.num(); out.push_back(step([&] { q[i].method = m[j]; return List(); })); continue; }
			auto u = a.next(); auto j = a.num(), k = a.num(); auto hs = headers();
			out.push_back(step([&] {
				if (op == "url") q[i] = HTTP::Request(u);
				else if (op == "method+") q[i] = HTTP::Request(u, m[j]);
				else if (op == "headers+") q[i] = HTTP::Request(u, hs);
				else if (op == "mbody+") q[i] = HTTP::Request(u, m[j], b[k]);
				else if (op == "all+") q[i] = HTTP::Request(u, m[j], hs, b[k]);
				else bad(op);
				return List();
			}));
		} else if (type == "r") {
			if (registers(r, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return responseList(r[i]); })); continue; }
			if (op == "header") { auto k = a.next(), v = a.next(); out.push_back(step([&] { r[i].headers.set(k, v); return List(); })); continue; }
			if (op == "body") { auto j = a.num(); out.push_back(step([&] { r[i].body = b[j]; return List(); })); continue; }
			if (op == "status=") { auto j = a.num(); out.push_back(step([&] { r[i].status = s[j]; return List(); })); continue; }
			if (op == "code=") { auto c = a.num(); out.push_back(step([&] { r[i].status = (uint32_t)c; return List(); })); continue; }
			auto j = a.num(), k = a.num(); auto hs = headers();
			out.push_back(step([&] {
				if (op == "status") r[i] = HTTP::Response(s[j]);
				else if (op == "headers+") r[i] = HTTP::Response(s[j], hs);
				else if (op == "body+") r[i] = HTTP::Response(s[j], b[k]);
				else if (op == "all+") r[i] = HTTP::Response(s[j], hs, b[k]);
				else if (op == "bodyonly") r[i] = HTTP::Response(b[k]);
				else if (op == "textonly") r[i] = HTTP::Response(b[k].text());
				else bad(op);
				return List();
			}));
		} else if (type == "h") {
			if (registers(h, op, a, out)) continue;
			auto i = a.num();
			if (op == "dump") { out.push_back(step([&] { return h[i].response.has_value() ? responseList(h[i].response.value()) : List { "none" }; })); continue; }
			if (op == "response") { auto j = a.num(); out.push_back(step([&] { h[i] = r[j]; return List(); })); continue; }
			auto d = op == "none" ? Str() : a.next();
			out.push_back(step([&] {
				if (op == "string") h[i] = HandlerResponse(d);
				else if (op == "char") h[i] = HandlerResponse(d.c_str());
				else if (op == "bytes") h[i] = HandlerResponse(B(d));
				else if (op == "none") h[i] = HandlerResponse();
				else bad(op);
				return List();
			}));
		} else bad(type);
	}
	return out;
}

static List cookieScript(Args& a) {
	HTTP::Cookies r[4];
	List out;
	while (a.more()) {
		auto op = a.next();
		if (registers(r, op, a, out)) continue;
		auto& h = r[a.num()];
		if (op == "parse") { auto s = a.next(); out.push_back(step([&] { h = HTTP::Cookies(s); return List(); })); }
		else if (op == "request") { auto s = a.next(); out.push_back(step([&] { HTTP::Request rq; rq.headers.set("Cookie", s); h = rq.getCookies(); return List(); })); }
		else if (op == "set") { auto k = a.next(), v = a.next(); out.push_back(step([&] { h.set(k, v); return List(); })); }
		else if (op == "setp") {
			auto k = a.next(), v = a.next(); auto n = a.num(); List p; for (int i = 0; i < n * 2; i++) p.push_back(a.next());
			out.push_back(step([&] {
				//	a flag is given as a plain string, an attribute as a pair
				#define P(i) (p[i * 2 + 1] == Str(1, '\0') ? CookieP(p[i * 2]) : CookieP({ p[i * 2], p[i * 2 + 1] }))
				struct Jar : HTTP::Cookies { using CookieP = CookieParams; };
				using CookieP = Jar::CookieP;
				if (n == 0) h.set(k, v, {});
				if (n == 1) h.set(k, v, { P(0) });
				if (n == 2) h.set(k, v, { P(0), P(1) });
				if (n == 3) h.set(k, v, { P(0), P(1), P(2) });
				return List();
			}));
		}
		else if (op == "del") { auto k = a.next(); out.push_back(step([&] { h.del(k); return List(); })); }
		else if (op == "get") { auto k = a.next(); out.push_back(step([&] { return List { h.get(k) }; })); }
		else if (op == "has") { auto k = a.next(); out.push_back(step([&] { return List { N(h.has(k)) }; })); }
		else if (op == "entries") out.push_back(step([&] { return entryList(h.entries()); }));
		else if (op == "size") out.push_back(step([&] { return List { N(h.size()) }; }));
		else if (op == "serialize") out.push_back(step([&] { return h.serialize(); }));
		else if (op == "response") out.push_back(step([&] { HTTP::Response rs; rs.setCookies(h); return rs.headers.getAll("set-cookie"); }));
		else { fprintf(stderr, "HARNESS: cookie op %s\n", op.c_str()); _exit(99); }
	}
	return out;
}

template<class T, class Make> static List streamScript(Args& a, Make make, std::function<bool(T&, const Str&, Args&, List&)> own) {
	std::unique_ptr<T> s(make());
	List out;
	while (a.more()) {
		auto op = a.next();
		if (op == "move") { auto n = std::make_unique<T>(std::move(*s)); s = std::move(n); out.push_back("K" + pack({})); }
		else if (op == "massign") { std::unique_ptr<T> n(make()); *n = std::move(*s); s = std::move(n); out.push_back("K" + pack({})); }
		else if (op == "massignused") {
			std::unique_ptr<T> n(make());
			Bytes x(300, 'q');
			try { n->nextChunk(x); } catch (...) {}
			*n = std::move(*s); s = std::move(n); out.push_back("K" + pack({}));
		}
		else if (!own(*s, op, a, out)) { fprintf(stderr, "HARNESS: stream op %s\n", op.c_str()); _exit(99); }
	}
	return out;
}

static void fileLimit(const Str& n) {
	rlimit l;
	getrlimit(RLIMIT_FSIZE, &l);
	l.rlim_cur = n == "-" ? l.rlim_max : (rlim_t)strtoull(n.c_str(), nullptr, 10);
	signal(SIGXFSZ, SIG_IGN);
	if (setrlimit(RLIMIT_FSIZE, &l)) _exit(99);
}

static List kvScript(Args& a) {
	//	"open <path>" (or "open0" for the default constructor), operations, "close"
	std::unique_ptr<Storage::LocalStorage> s;
	List out;
	while (a.more()) {
		auto op = a.next();
		if (op == "open") { auto p = a.next(); s.reset(); out.push_back(step([&] { s = std::make_unique<Storage::LocalStorage>(p); return List(); })); continue; }
		if (op == "open0") { s.reset(); out.push_back(step([&] { s = std::make_unique<Storage::LocalStorage>(); return List(); })); continue; }
		if (op == "mark") { auto m = a.next(); if (write(STDERR_FILENO, (m + "\n").data(), m.size() + 1)) {} continue; }
		if (op == "close") { s.reset(); out.push_back("K" + pack({})); continue; }
		if (op == "filesize") { auto p = a.next(); struct stat st; out.push_back("K" + pack({ stat(p.c_str(), &st) ? "-1" : N((long long)st.st_size) })); continue; }
		if (op == "fsize") { fileLimit(a.next()); continue; }
		if (op == "chdir") { auto p = a.next(); if (chdir(p.c_str())) _exit(99); continue; }
		auto need = [&]() { if (!s) throw std::runtime_error("HARNESS: not open"); };
		if (op == "set") { auto k = a.next(), v = a.next(); out.push_back(step([&] { need(); s->setItem(k, v); return List(); })); }
		else if (op == "setbig") { auto k = a.next(); auto n = a.num(); out.push_back(step([&] { need(); s->setItem(k, Str(n, 'v')); return List(); })); }
		else if (op == "get") { auto k = a.next(); out.push_back(step([&] { need(); return List { s->getItem(k) }; })); }
		else if (op == "has") { auto k = a.next(); out.push_back(step([&] { need(); return List { N(s->hasItem(k)) }; })); }
		else if (op == "rm") { auto k = a.next(); out.push_back(step([&] { need(); s->removeItem(k); return List(); })); }
		else if (op == "clear") out.push_back(step([&] { need(); s->clear(); return List(); }));
		else if (op == "size") out.push_back(step([&] { need(); return List { N(s->size()) }; }));
		else { fprintf(stderr, "HARNESS: kv op %s\n", op.c_str()); _exit(99); }
	}
	return out;
}

static List vfsScript(Args& a) {
	auto s = std::make_unique<VirtualFilesystem>();
	List out;
	auto info = [](const VFS::VirtualFileInfo& i) { return List { i.name, N(i.size), N(i.created), N(i.modified) }; };
	while (a.more()) {
		auto op = a.next();
		if (op == "fsize") { fileLimit(a.next()); continue; }
		if (op == "new") { s = std::make_unique<VirtualFilesystem>(); out.push_back("K" + pack({})); continue; }
		if (op == "tick") { auto n = a.num(); auto before = time(nullptr); Faults::clockOffset += n; out.push_back("K" + pack({ N((long long)before), N((long long)time(nullptr)) })); continue; }
		if (op == "write") { auto k = a.next(), v = a.next(); out.push_back(step([&] { s->write(k, v); return List(); })); }
		else if (op == "writeb") { auto k = a.next(), v = a.next(); out.push_back(step([&] { s->write(k, B(v)); return List(); })); }
		else if (op == "read") { auto k = a.next(); out.push_back(step([&] { auto f = s->read(k); if (!f.has_value()) return List();
			return List { f->name, S(f->buffer), f->text() == S(f->buffer) && f->size() == f->buffer.size() ? "1" : "0", N(f->created), N(f->modified) }; })); }
		else if (op == "rm") { auto k = a.next(); out.push_back(step([&] { s->remove(k); return List(); })); }
		else if (op == "move") { auto k = a.next(), v = a.next(); out.push_back(step([&] { s->move(k, v); return List(); })); }
		else if (op == "info") { auto k = a.next(); out.push_back(step([&] { auto f = s->fileInfo(k); return f.has_value() ? info(f.value()) : List(); })); }
		else if (op == "list") out.push_back(step([&] { List l; for (const auto& i : s->listAll()) for (const auto& x : info(i)) l.push_back(x); return l; }));
		else if (op == "readall") out.push_back(step([&] { List l; for (const auto& i : s->listAll()) { auto f = s->read(i.name); l.push_back(i.name); l.push_back(f.has_value() ? S(f->buffer) : Str("HARNESS: gone")); } return l; }));
		else if (op == "stats") out.push_back(step([&] { auto st = s->stats(); return List { N(st.totalFiles), N(st.totalSize) }; }));
		else if (op == "save") { auto p = a.next(); out.push_back(step([&] { s->saveSnapshot(p); return List(); })); }
		else if (op == "load") { auto p = a.next(); out.push_back(step([&] { s->loadSnapshot(p); return List(); })); }
		else if (op == "loaddata") {
			//	writes the given bytes to the path first
			auto p = a.next(), data = a.next();
			auto f = fopen(p.c_str(), "wb"); if (!f) _exit(99); fwrite(data.data(), 1, data.size(), f); fclose(f);
			out.push_back(step([&] { s->loadSnapshot(p); return List(); }));
		}
		else { fprintf(stderr, "HARNESS: vfs op %s\n", op.c_str()); _exit(99); }
	}
	return out;
}

template<class T> static Str swapped(Str s) {
	T v; memcpy(&v, s.data(), sizeof v);
	T n = Bits::netwnormx(v), st = Bits::storenormx(v);
	Str r((const char*)&n, sizeof n); r.append((const char*)&st, sizeof st);
	T back = Bits::netwnormx(n); r.append((const char*)&back, sizeof back);
	return r;
}

static List outcome(const std::function<List()>& f);
static List unpackList(const Str& s);

static List call(const List& l) {
	Args a { l };
	auto op = a.next();

	//	strings: functions have in-place and copying forms
	#define BOTH(NAME, F) if (op == NAME) { auto s = a.next(); Str t = s; F(t); return { F((const Str&)s), t }; }
	BOTH("lower", Strings::toLowerCase)
	BOTH("upper", Strings::toUpperCase)
	BOTH("title", Strings::toTittleCase)
	BOTH("trim", Strings::trim)
	if (op == "includes") { auto s = a.next(), t = a.next(); return { N(Strings::includes(s, t)) }; }
	if (op == "includesc") { auto s = a.next(), t = a.next(); return { N(Strings::includes(s, t.at(0))) }; }
	if (op == "includesv") { auto s = a.next(); List v; while (a.more()) v.push_back(a.next()); return { N(Strings::includes(s, v)) }; }
	if (op == "ends") { auto s = a.next(), t = a.next(); return { N(Strings::endsWith(s, t)) }; }
	if (op == "starts") { auto s = a.next(), t = a.next(); return { N(Strings::startsWith(s, t)) }; }
	if (op == "splits") { auto s = a.next(), t = a.next(); return Strings::split(s, t); }
	if (op == "splitc") { auto s = a.next(), t = a.next(); return Strings::split(s, t.at(0)); }
	if (op == "join") { auto t = a.next(); List v; while (a.more()) v.push_back(a.next()); return { Strings::join(v, t.c_str()) }; }
	if (op == "replace") { auto s = a.next(), x = a.next(), y = a.next(); Str t = s; Strings::replace(t, x, y); return { Strings::replace((const Str&)s, x, y), t }; }
	if (op == "replaceall") { auto s = a.next(), x = a.next(), y = a.next(); Str t = s; Strings::replaceAll(t, x, y); return { Strings::replaceAll((const Str&)s, x, y), t }; }

	//	encodings
	if (op == "b64e") return { Encoding::toBase64(B(a.next())) };
	if (op == "b64d") return { S(Encoding::fromBase64(a.next())) };
	if (op == "hexe") return { Encoding::toHex(B(a.next())) };
	if (op == "hexd") return { S(Encoding::fromHex(a.next())) };
	if (op == "hexb") { auto c = a.next(); auto h = Encoding::byteToHex((uint8_t)c.at(0)); return { Str(h.string, 2), Str(1, h.string[2]), Str(1, (char)Encoding::hexToByte(h)) }; }
	if (op == "urie") return { Encoding::encodeURIComponent(a.next()) };
	if (op == "urid") return { Encoding::decodeURIComponent(a.next()) };

	if (op == "sha1") {
		Crypto::SHA1 h; List out;
		while (a.more()) {
			auto o = a.next();
			if (o == "u") h.update(B(a.next()));
			else if (o == "t") h.update(a.next());
			else if (o == "d") out.push_back(S(h.digest()));
			else if (o == "r") h.reset();
		}
		return out;
	}

	if (op == "sha1big") {
		//	total bytes of a repeated pattern in pieces of the given size; with "one", in one piece
		Crypto::SHA1 h; const long total = a.num(), piece = a.num();
		Bytes b(piece);
		for (long i = 0; i < piece; i++) b[i] = i * 131 + (i >> 8);
		long left = total;
		for (; left >= piece; left -= piece) h.update(b);
		b.resize(left);
		if (left) h.update(b);
		return { S(h.digest()) };
	}
	if (op == "auth") { auto c = HTTP::Auth::parseBasicAuth(a.next()); return c.has_value() ? List { "1", c->user, c->password } : List { "0" }; }
	if (op == "url") { HTTP::URL u(a.next()); return urlFields(u); }
	if (op == "urlc") { HTTP::URL u(a.next().c_str()); return urlFields(u); }
	if (op == "urlcopy") { HTTP::URL u(a.next()); HTTP::URL v = u; HTTP::URL w; w = v; return urlFields(w); }
	if (op == "href") { HTTP::URL u(a.next()); return { u.href() }; }
	if (op == "params") {
		HTTP::URLSearchParams p(a.next());
		List l { p.stringify(), N(p.size()) };
		while (a.more()) { auto k = a.next(); l.push_back(N(p.has(k))); l.push_back(p.get(k)); l.push_back(pack(p.getAll(k))); }
		l.push_back(pack(entryList(p.entries())));
		return l;
	}
	if (op == "status") { HTTP::Status s(a.num()); return { N(s.code()), s.text(), N((int)s.type()) }; }
	if (op == "method") { HTTP::Method m(a.next()); return { m.toString(), Str(m) }; }
	if (op == "kvc") return kvcScript(a);
	if (op == "cookies") return cookieScript(a);
	if (op == "values") return valueScript(a);
	if (op == "setcookies") {
		List v; while (a.more()) v.push_back(a.next());
		HTTP::Response r; auto n = v.size() / 2;
		if (n == 1) r.setCookies({ { v[0], v[1] } });
		if (n == 2) r.setCookies({ { v[0], v[1] }, { v[2], v[3] } });
		if (n == 3) r.setCookies({ { v[0], v[1] }, { v[2], v[3] }, { v[4], v[5] } });
		return r.headers.getAll("set-cookie");
	}

	//	json
	if (op == "jstr") { size_t i = 0; auto p = jbuild(a.next(), i); return { JSON::stringify(p) }; }
	if (op == "jparse") { auto p = JSON::parse(a.next()); return { jdump(p), jaccess(p) }; }
	if (op == "jround") { size_t i = 0; auto p = jbuild(a.next(), i); auto t = JSON::stringify(p); auto q = JSON::parse(t); return { t, jdump(q), JSON::stringify(q) }; }
	if (op == "jany") { auto p = JSON::parse(a.next()); auto t = JSON::stringify(p); return { jdump(p), t }; }
	if (op == "jops") {
		JSON::Property r[4]; List out;
		while (a.more()) {
			auto o = a.next();
			if (o == "build") { auto d = a.num(); size_t i = 0; r[d] = jbuild(a.next(), i); }
			else if (o == "copy") { auto d = a.num(), s = a.num(); r[d] = r[s]; }
			else if (o == "cctor") { auto d = a.num(), s = a.num(); JSON::Property t(r[s]); r[d] = t; }
			else if (o == "mctor") { auto d = a.num(), s = a.num(); JSON::Property t(std::move(r[s])); if (d != s) r[s] = JSON::Property(); r[d] = std::move(t); }
			else if (o == "elem") { auto d = a.num(), s = a.num(); size_t k = a.num(); if (r[s].type() == JSON::JSTypes::Array && r[s].asArray().size()) { r[d] = r[s].asArray()[k % r[s].asArray().size()]; out.push_back("1"); } else out.push_back("0"); }
			else if (o == "key") { auto d = a.num(), s = a.num(); auto k = a.next(); if (r[s].type() == JSON::JSTypes::Map && r[s].asMap().count(k)) { r[d] = r[s].asMap().at(k); out.push_back("1"); } else out.push_back("0"); }
			else if (o == "wrap") { auto d = a.num(), s = a.num(); r[d] = JSON::Array { r[s], r[s] }; }
			else if (o == "dump") { auto s = a.num(); out.push_back(jdump(r[s])); out.push_back(jaccess(r[s])); }
			else _exit(99);
		}
		return out;
	}
	if (op == "jnest") { auto n = a.num(); auto t = a.next(); auto m = a.next(); auto e = a.next(); Str s; for (long i = 0; i < n; i++) s += t; s += m; for (long i = 0; i < n; i++) s += e; auto p = JSON::parse(s); return { jdump(p) }; }

	//	html
	if (op == "render") { auto t = a.next(); HTML::TemplateProps p; while (a.more()) { auto k = a.next(); p[k] = a.next(); } return { HTML::renderTemplate(t, p) }; }
	if (op == "servicepage") return { HTML::Templates::servicePage };

	if (op == "mime") return { Content::getExtMimetype(a.next()) };
	if (op == "mimeext") return { Content::getMimetypeExt(a.next()) };
	if (op == "date") {
		Date d((time_t)strtoll(a.next().c_str(), nullptr, 10));
		return { d.toUTCString(), d.toHRTString(), d.getDate(), N(d.getYear()), N(d.getMonth()), N(d.getDay()), N(d.getHours()), N(d.getMinutes()), N(d.getSeconds()), N(d.getTime()) };
	}
	if (op == "newids") {
		//	fresh ids: all different, each spelled as its number is
		long n = a.num(), bad = 0; std::set<Str> seen; Str first;
		for (long i = 0; i < n; i++) {
			Crypto::ShortID d; const auto t = d.toString(); auto u = d.id();
			if (Crypto::ShortID((uint32_t)u).toString() != t || t.size() != 8) { bad++; first = t; }
			seen.insert(t);
		}
		//	a few ids may coincide by chance (birthday paradox)
		return { N(bad), first, N(seen.size() + 3 >= (size_t)n) };
	}
	if (op == "many") {
		//	some calls over and over in turn: the distinct outcomes of each
		long n = a.num(); std::vector<List> calls;
		while (a.more()) calls.push_back(unpackList(a.next()));
		std::vector<std::set<Str>> seen(calls.size());
		for (long i = 0; i < n; i++) for (size_t k = 0; k < calls.size(); k++) seen[k].insert(pack(outcome([&] { return call(calls[k]); })));
		List o;
		for (auto& x : seen) o.push_back(pack(List(x.begin(), x.end())));
		return o;
	}
	if (op == "datenow") { Date d; return { N(d.getTime()), d.toUTCString() }; }
	if (op == "swap") {
		auto t = a.next(); auto s = a.next();
		if (t == "i16") return { swapped<int16_t>(s) };
		if (t == "u16") return { swapped<uint16_t>(s) };
		if (t == "i32") return { swapped<int32_t>(s) };
		if (t == "u32") return { swapped<uint32_t>(s) };
		if (t == "i64") return { swapped<int64_t>(s) };
		if (t == "u64") return { swapped<uint64_t>(s) };
	}

#ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
	//	compression
	if (op == "zc") { auto q = a.num(), h = a.num(); return { S(Compress::zlibCompressBuffer(B(a.next()), (Compress::Quality)q, (Compress::ZlibSetHeader)h)) }; }
	if (op == "zd") return { S(Compress::zlibDecompressBuffer(B(a.next()))) };
	if (op == "bc") { auto q = a.num(); return { S(Compress::brotliCompressBuffer(B(a.next()), (Compress::Quality)q)) }; }
	if (op == "bd") return { S(Compress::brotliDecompressBuffer(B(a.next()))) };
	if (op == "gzs") {
		using C = Compress::GzipStreamCompressor;
		auto q = (Compress::Quality)a.num();
		return streamScript<C>(a, [&] { return new C(q); }, [](C& c, const Str& o, Args& a, List& out) {
			if (o == "c") { auto b = B(a.next()); out.push_back(step([&] { return List { S(c.nextChunk(b)) }; })); }
			else if (o == "n") { auto b = B(a.next()); out.push_back(step([&] { return List { S(c.nextChunk(b, C::StreamFlush::Noflush)) }; })); }
			else if (o == "f") { auto b = B(a.next()); out.push_back(step([&] { return List { S(c.nextChunk(b, C::StreamFlush::Finish)) }; })); }
			else if (o == "e") out.push_back(step([&] { return List { S(c.end()) }; }));
			else if (o == "r") out.push_back(step([&] { c.reset(); return List(); }));
			else return false;
			return true;
		});
	}
	if (op == "gzd") {
		using D = Compress::GzipStreamDecompressor;
		return streamScript<D>(a, [&] { return new D(); }, [](D& d, const Str& o, Args& a, List& out) {
			if (o == "c") { auto b = B(a.next()); out.push_back(step([&] { auto r = S(d.nextChunk(b)); return List { r, N(d.isDone()) }; })); }
			else if (o == "d") out.push_back(step([&] { return List { N(d.isDone()) }; }));
			else if (o == "r") out.push_back(step([&] { d.reset(); return List(); }));
			else return false;
			return true;
		});
	}
#endif

	if (op == "static") {
		StaticServer s(a.next());
		List out;
		while (a.more()) {
			auto r = s.serve(a.next());
			out.push_back(pack({ N(r.status.code()), r.headers.get("content-type"), r.body.text(), N(r.headers.size()) }));
		}
		return out;
	}
	if (op == "kv") return kvScript(a);
	if (op == "vfs") return vfsScript(a);
	fprintf(stderr, "HARNESS: unknown op %s\n", op.c_str());
	_exit(99);
}

//	runs fn(thread) in the given number of threads that start together
static void together(int threads, const std::function<void(int)>& fn) {
	std::atomic<int> ready { 0 };
	std::vector<std::thread> ts;
	for (int t = 0; t < threads; t++) ts.emplace_back([&, t]() { ready++; while (ready < threads) {} fn(t); });
	for (auto& t : ts) t.join();
}

static List outcome(const std::function<List()>& f) {
	try { List r = f(); r.insert(r.begin(), "K"); return r; }
	catch (const std::exception& e) { return { "E", e.what() }; }
	catch (...) { return { "X", "unknown exception" }; }
}

static List unpackList(const Str& s) {
	size_t i = 0;
	auto get = [&]() { uint32_t v; memcpy(&v, s.data() + i, 4); i += 4; return v; };
	List l(get());
	for (auto& x : l) { auto n = get(); x = s.substr(i, n); i += n; }
	return l;
}

//	every thread makes all of the calls, each one beginning with another; returns the distinct outcomes of each call
static List parCalls(Args& a) {
	const int threads = a.num();
	std::vector<List> calls;
	while (a.more()) calls.push_back(unpackList(a.next()));
	const size_t n = calls.size();
	std::vector<std::vector<Str>> res(threads, std::vector<Str>(n));
	together(threads, [&](int t) {
		for (size_t i = 0; i < n; i++) {
			const auto k = (i + (t & 1 ? t * n / threads : 0)) % n;
			res[t][k] = pack(outcome([&] { return call(calls[k]); }));
		}
	});
	List out;
	for (size_t k = 0; k < n; k++) {
		std::set<Str> distinct;
		for (auto& r : res) distinct.insert(r[k]);
		out.push_back(pack(List(distinct.begin(), distinct.end())));
	}
	return out;
}

//	all threads read the same object; returns the distinct outcomes and then that of a single thread
static List sharedObject(Args& a) {
	const int threads = a.num(); const long reps = a.num();
	const auto kind = a.next();
	std::function<List()> f;
	if (kind == "static") {
		auto s = std::make_shared<const StaticServer>(a.next()); List paths;
		while (a.more()) paths.push_back(a.next());
		f = [s, paths] { List o; for (auto& p : paths) { auto r = s->serve(p); o.push_back(N(r.status.code())); o.push_back(r.headers.get("content-type")); o.push_back(r.body.text()); } return o; };
	} else if (kind == "json") {
		size_t i = 0; auto p = std::make_shared<const JSON::Property>(jbuild(a.next(), i));
		f = [p] { const JSON::Property q(*p); JSON::Property w; w = *p; return List { JSON::stringify(*p), jdump(*p), jaccess(*p), jdump(q), jdump(w) }; };
	} else if (kind == "jsontext") {
		auto p = std::make_shared<const Str>(a.next());
		f = [p] { return List { jdump(JSON::parse(*p)) }; };
	} else if (kind == "headers") {
		auto h = std::make_shared<HTTP::Headers>(); List keys;
		while (a.more()) { keys.push_back(a.next()); h->append(keys.back(), a.next()); }
		std::shared_ptr<const HTTP::Headers> c = h;
		f = [c, keys] { List o; HTTP::Headers copy(*c); for (auto& k : keys) { o.push_back(c->get(k)); o.push_back(N(c->has(k))); o.push_back(pack(c->getAll(k))); o.push_back(copy.get(k)); } o.push_back(pack(entryList(c->entries()))); o.push_back(N(c->size())); return o; };
	} else if (kind == "params") {
		auto p = std::make_shared<const HTTP::URLSearchParams>(a.next());
		f = [p] { return List { p->stringify(), pack(entryList(p->entries())), N(p->size()) }; };
	} else if (kind == "cookies") {
		auto p = std::make_shared<const HTTP::Cookies>(a.next());
		f = [p] { return List { pack(entryList(p->entries())), N(p->size()), pack(p->serialize()) }; };
	} else if (kind == "url") {
		auto p = std::make_shared<const HTTP::URL>(a.next());
		f = [p] { HTTP::URL q(*p); return List { p->href(), q.href() }; };
	} else if (kind == "request") {
		auto r = std::make_shared<HTTP::Request>("http://h/a?b=c", HTTP::Method("POST"));
		r->headers.set("cookie", a.next()); r->body = a.next();
		std::shared_ptr<const HTTP::Request> c = r;
		f = [c] { const HTTP::Request q(*c); return List { pack(entryList(c->getCookies().entries())), c->body.text(), c->method.toString(), c->url.href(), q.body.text(), q.headers.get("Cookie") }; };
	} else if (kind == "response") {
		auto r = std::make_shared<HTTP::Response>(HTTP::Status((int)a.num()));
		r->headers.set("x-a", a.next()); r->body = a.next();
		std::shared_ptr<const HTTP::Response> c = r;
		f = [c] { const HTTP::Response q(*c); return List { N(c->status.code()), c->status.text(), c->body.text(), q.status.text(), q.body.text(), q.headers.get("x-a") }; };
	} else if (kind == "render") {
		auto t = std::make_shared<const Str>(a.next()); auto p = std::make_shared<HTML::TemplateProps>();
		while (a.more()) { auto k = a.next(); (*p)[k] = a.next(); }
		std::shared_ptr<const HTML::TemplateProps> c = p;
		f = [t, c] { return List { HTML::renderTemplate(*t, *c) }; };
#ifdef LAMBDA_BUILDOPTS_ENABLE_COMPRESSION
	} else if (kind == "compress") {
		auto b = std::make_shared<const Bytes>(B(a.next()));
		f = [b] { auto x = Compress::brotliCompressBuffer(*b, Compress::Quality::Noice); auto y = Compress::zlibCompressBuffer(*b, Compress::Quality::Noice, Compress::ZlibSetHeader::Gzip);
			return List { S(x), S(y), S(Compress::brotliDecompressBuffer(x)), S(Compress::zlibDecompressBuffer(y)) }; };
#endif
	} else if (kind == "date") {
		auto d = std::make_shared<const Date>((time_t)a.num());
		f = [d] { Date c(*d); return List { d->toUTCString(), d->toHRTString(), d->getDate(), c.toUTCString(), N(d->getYear()), N(d->getTime()) }; };
	} else if (kind == "shortid") {
		auto d = std::make_shared<const Crypto::ShortID>((uint32_t)a.num());
		f = [d] { Crypto::ShortID c(*d); return List { d->toString(), c.toString(), N(d->id()) }; };
	} else { fprintf(stderr, "HARNESS: shared %s\n", kind.c_str()); _exit(99); }
	std::vector<std::set<Str>> res(threads);
	together(threads, [&](int t) { for (long i = 0; i < reps; i++) res[t].insert(pack(outcome(f))); });
	std::set<Str> distinct;
	for (auto& r : res) distinct.insert(r.begin(), r.end());
	return { pack(List(distinct.begin(), distinct.end())), pack(outcome(f)) };
}

static List outer(const List& l) {
	if (l.size() && l[0] == "leak") {
		//	how much memory do repeated calls leave allocated
		long n = strtol(l[1].c_str(), nullptr, 10);
		List inner(l.begin() + 2, l.end());
		auto once = [&]() { try { call(inner); } catch (...) {} };
		for (int i = 0; i < 3; i++) once();
		size_t before = ALLOCATED();
		for (long i = 0; i < n; i++) once();
		size_t after = ALLOCATED();
		return { "K", N((long long)after - (long long)before) };
	}
	if (l.size() && (l[0] == "oom" || l[0] == "oomsteps") && !alloc_arm) { fprintf(stderr, "HARNESS: alloc.c is not loaded\n"); _exit(99); }
	if (l.size() && l[0] == "oomsteps") {
		//	the i-th step of a script runs with the i-th of the faults "k:n:size:libc,..."; the last result tells which of them had an effect
		stepFaults.clear(); stepIndex = 0; stepFired.clear();
		for (const char* p = l[1].c_str(); *p;) {
			AllocFault f; int used = 0;
			if (sscanf(p, "%ld:%ld:%ld:%ld%n", &f.k, &f.n, &f.size, &f.libc, &used) != 4) _exit(99);
			stepFaults.push_back(f); p += used; if (*p == ',') p++;
		}
		List inner(l.begin() + 2, l.end());
		auto r = outcome([&] { return call(inner); });
		stepFaults.clear();
		r.push_back(stepFired);
		return r;
	}
	if (l.size() && l[0] == "oom") {
		//	"oom" first step most n size libc call...: the call with its first, (first + step)-th, ... allocation failing, and the n - 1 after it.
		//	Result: the usual outcome, number of faults that had an effect, of those that ended with an error, and what was wrong
		long first = strtol(l[1].c_str(), nullptr, 10), stride = strtol(l[2].c_str(), nullptr, 10), most = strtol(l[3].c_str(), nullptr, 10);
		AllocFault f; f.n = strtol(l[4].c_str(), nullptr, 10); f.size = strtol(l[5].c_str(), nullptr, 10); f.libc = strtol(l[6].c_str(), nullptr, 10);
		const List inner(l.begin() + 7, l.end());
		stepErrors.clear();
		auto usual = outcome([&] { return call(inner); });
		const List usualErrors = stepErrors;
		{ auto again = outcome([&] { return call(inner); }); if (again != usual) return { "K", pack(usual), "-1", "0", "0" }; }
		long had = 0, errors = 0, swallowed = 0; List bad;
		for (long k = first, i = 0; i < most; k += stride, i++) {
			char st = 0; List got; bool fired = false, keep = true;
			auto once = [&]() {
				const size_t before = ALLOCATED();
				{
					List r; st = 0; stepErrors.clear();
					alloc_arm(k, f.n, f.size, f.libc);
					try { r = call(inner); fired = alloc_disarm(); st = 'K'; }
					catch (const std::exception& e) { fired = alloc_disarm(); st = 'E'; }
					catch (...) { fired = alloc_disarm(); st = 'X'; }
					if (st == 'K') { r.insert(r.begin(), "K"); if (usual[0] == "K" ? r != usual : fired) { if (keep) got = r; st = stepErrors != usualErrors ? 'E' : 'D'; } }
				}
				return (long long)ALLOCATED() - (long long)before;
			};
			once();
			if (!fired) break;
			had++;
			if (st == 'E') errors++;
			if (st == 'K') swallowed++;
			if (st == 'X') bad.push_back("unknown exception at " + N(k));
			if (st == 'D') bad.push_back("different at " + N(k) + ": " + pack(got).substr(0, 300));
			keep = false;
			//	a first call might have set up something that is kept
			long long a = once();
			long long b = once();
			long long c = once();
			if (a > 0 && b > 0 && c > 0) bad.push_back("leak at " + N(k) + ": " + N(c));
			auto again = outcome([&] { return call(inner); });
			if (again != usual) bad.push_back("later call differs after " + N(k) + ": " + pack(again).substr(0, 300));
			if (bad.size() > 5) break;
		}
		List r { "K", pack(usual), N(had), N(errors), N(swallowed) };
		r.insert(r.end(), bad.begin(), bad.end());
		return r;
	}
	if (l.size() && l[0] == "fds") { long n = 0; for (int i = 0; i < 1024; i++) n += fcntl(i, F_GETFD) >= 0; return { "K", N(n) }; }
	if (l.size() && l[0] == "mem") return { "K", N(ALLOCATED()) };
	if (l.size() && (l[0] == "par" || l[0] == "shared")) { Args a { l }; return outcome([&] { return a.next() == "par" ? parCalls(a) : sharedObject(a); }); }
	return outcome([&] { return call(l); });
}

static void onAlarm(int) {
	static const char m[] = "HARNESS: HANG\n";
	if (write(STDERR_FILENO, m, sizeof m - 1)) {}
	_exit(98);
}

static bool readFull(void* p, size_t n) {
	return fread(p, 1, n, stdin) == n;
}

int main(int argc, char** argv) {
	signal(SIGPIPE, SIG_IGN);
	signal(SIGALRM, onAlarm);
	unsigned limit = argc > 1 ? atoi(argv[1]) : 20;
	uint32_t n;
	while (readFull(&n, 4)) {
		List l(n);
		for (auto& s : l) {
			uint32_t k;
			if (!readFull(&k, 4)) return 0;
			s.resize(k);
			if (!readFull(s.data(), k)) return 0;
		}
		alarm(limit);
		const auto before = VALGRIND_COUNT_ERRORS;
		Str r = pack(outer(l));
		VALGRIND_CHECK_MEM_IS_DEFINED(r.data(), r.size());
		if (VALGRIND_COUNT_ERRORS != before) VALGRIND_PRINTF("CALL %s\n", l.empty() ? "" : l[0].c_str());
		alarm(0);
		fwrite(r.data(), 1, r.size(), stdout);
		fflush(stdout);
	}
	return 0;
}
