// Concurrency driver: runs operations of one component from many threads and prints a history for offline checking.
#include "lambda.hpp"
#include "extra/kvstorage/kvstorage.hpp"
#include "extra/vfs/vfs.hpp"
#include "core/crypto/crypto.hpp"
#include "core/utils/utils.hpp"

#include <atomic>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <thread>
#include <unistd.h>
#include <filesystem>

using namespace Lambda;

static std::map<std::string, std::string> opt;
static long geti(const std::string& k, long d) { return opt.count(k) ? std::stol(opt[k]) : d; }
struct Rng {
	uint64_t s;
	Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 5; i++) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
	uint64_t operator()(uint64_t n) { return (next() >> 11) % n; }
};
static std::atomic<int> g_ready{0};
static std::atomic<bool> g_go{false};
static void barrier(int n) { g_ready++; if (g_ready == n) g_go = true; while (!g_go) std::this_thread::yield(); }
static long nowNs() { return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string hex(const std::string& s) {
	static const char* d = "0123456789abcdef"; std::string o;
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o.size() ? o : std::string("-");
}
static std::string hex(const std::vector<uint8_t>& v) { return hex(std::string(v.begin(), v.end())); }

static std::vector<std::string> run(int threads, const std::function<void(int, std::string&, Rng&)>& fn) {
	std::vector<std::string> out(threads);
	std::vector<std::thread> ts;
	g_ready = 0; g_go = false;
	const long seed = geti("seed", 1);
	for (int t = 0; t < threads; t++) ts.emplace_back([&, t]() { Rng r(seed * 1000 + t); barrier(threads); fn(t, out[t], r); });
	for (auto& t : ts) t.join();
	return out;
}

static int shortid() {
	const int T = geti("threads", 8); const long n = geti("n", 2000);
	auto o = run(T, [&](int t, std::string& s, Rng& r) {
		Crypto::ShortID reuse;
		for (long i = 0; i < n; i++) {
			uint32_t v; std::string str;
			switch (r(3)) {
				case 0: { Crypto::ShortID id; v = id.id(); str = id.toString(); } break;
				case 1: { reuse.update(); v = reuse.id(); str = reuse.toString(); } break;
				default: { Crypto::ShortID id; Crypto::ShortID b(id); Crypto::ShortID c; c = b; v = c.id(); str = c.toString(); } break;
			}
			s += std::to_string(v) + " " + str + "\n";
		}
	});
	for (auto& s : o) std::cout << s;
	Rng r(geti("seed", 1));
	for (int i = 0; i < 300; i++) {
		uint32_t v = i < 4 ? (i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 0xffffffff : 0x80000000) : (uint32_t)r.next() >> (i % 31);
		Crypto::ShortID a(v), b; b.update(v);
		std::cout << "F " << v << " " << a.id() << " " << a.toString() << " " << b.id() << " " << b.toString() << "\n";
	}
	return 0;
}

static int syncoutMode() {
	const int T = geti("threads", 8); const long n = geti("n", 500); const long maxlen = geti("maxlen", 2000);
	run(T, [&](int t, std::string&, Rng& r) {
		for (long i = 0; i < n; i++) {
			const std::string head = "<" + std::to_string(t) + ":" + std::to_string(i) + ":";
			const long len = r(4) == 0 ? r(maxlen) : r(60);
			std::string fill;
			const bool zeros = (t + i) % 5 == 0;
			for (long k = 0; k < len; k++) fill += zeros && k % 11 == 4 ? '\0' : (char)('a' + (t * 7 + i * 3 + k) % 26);
			const std::string whole = head + std::to_string(len) + ":" + fill + ">";
			const bool err = (t + i) % 3 == 0;
			auto form = r(5);
			if (form == 1 && zeros) form = 0;
			switch (form) {
				case 0: if (err) syncout.error(whole); else syncout.log(whole); break;
				case 1: if (err) syncout.error(whole.c_str()); else syncout.log(whole.c_str()); break;
				case 2: if (err) syncout.error({ "M", whole, (int)t, "", 'c', true, (long)i }); else syncout.log({ "M", whole, (int)t, "", 'c', true, (long)i }); break;
				case 3: {
					const std::initializer_list<SyncOut::MgsOverload> all { whole, (short)-i, (unsigned short)i, (unsigned char)(i % 256), -(long long)i * 1000000007ll, (unsigned long)i * 1000003ul, (unsigned long long)i * 10000000019ull, (float)i / 4, i * -0.125, (long double)i / 2, false };
					if (err) syncout.error(all); else syncout.log(all);
				} break;
				default: if (err) syncout.error({ whole, "T", (unsigned)i }); else syncout.log({ whole, "T", (unsigned)i }); break;
			}
			if (r(50) == 0) { if (r(2)) syncout.log(""); else syncout.error({ "", "" }); }
			if (r(20) == 0) std::this_thread::yield();
		}
	});
	return 0;
}

// history lines: thread start end op key arg result
static int kv() {
	const int T = geti("threads", 6); const long n = geti("n", 200); const int keys = geti("keys", 4);
	const std::string file = opt["file"];
	std::vector<std::string> o;
	{
		Storage::LocalStorage st(file);
		o = run(T, [&](int t, std::string& s, Rng& r) {
			for (long i = 0; i < n; i++) {
				const std::string key = "k" + std::to_string(r(keys));
				const auto op = r(100);
				std::string name, arg = "-", res = "-";
				const long a = nowNs();
				if (op < 35) { name = "get"; res = hex(st.getItem(key)); }
				else if (op < 70) { name = "set"; std::string v = std::to_string(t) + "." + std::to_string(i); if (r(8) == 0) v += std::string(r(3000), 'v'); arg = hex(v); st.setItem(key, v); }
				else if (op < 82) { name = "remove"; st.removeItem(key); }
				else if (op < 93) { name = "has"; res = st.hasItem(key) ? "1" : "0"; }
				else if (op < 98) { name = "size"; res = std::to_string(st.size()); }
				else { name = "clear"; st.clear(); }
				const long b = nowNs();
				s += "OP " + std::to_string(t) + " " + std::to_string(a) + " " + std::to_string(b) + " " + name + " " + key + " " + arg + " " + res + "\n";
				if (r(10) == 0) std::this_thread::yield();
			}
		});
		for (int k = 0; k < keys; k++) { const std::string key = "k" + std::to_string(k); std::cout << "FINAL " << key << " " << (st.hasItem(key) ? "1" : "0") << " " << hex(st.getItem(key)) << "\n"; }
		std::cout << "FINALSIZE " << st.size() << "\n";
	}
	{
		Storage::LocalStorage st(file);
		for (int k = 0; k < keys; k++) { const std::string key = "k" + std::to_string(k); std::cout << "REOPEN " << key << " " << (st.hasItem(key) ? "1" : "0") << " " << hex(st.getItem(key)) << "\n"; }
		std::cout << "REOPENSIZE " << st.size() << "\n";
	}
	for (auto& s : o) std::cout << s;
	return 0;
}

static int vfs() {
	const int T = geti("threads", 6); const long n = geti("n", 150); const int names = geti("names", 4); const bool snaps = geti("snap", 0);
	const std::string dir = opt["dir"];
	VirtualFilesystem fs;
	const int loads = geti("loads", 0);
	std::atomic<bool> go { false };
	std::vector<std::thread> loaders;
	std::string loadOut[2];
	for (int w = 0; loads && w < 2; w++) loaders.emplace_back([&, w]() {
		while (!go) std::this_thread::yield();
		for (int i = 0; i < loads; i++) {
			const std::string file = i % 4 == 3 ? (w ? "bad.tgz" : "bad.tar") : (i + w) % 2 ? "a.tar" : "a.tgz";
			std::string res = "1";
			try { fs.loadSnapshot(dir + "/" + file); } catch (const std::exception&) { res = "0"; }
			loadOut[w] += "LOAD " + file + " " + res + "\n";
		}
	});
	go = true;
	auto o = run(T, [&](int t, std::string& s, Rng& r) {
		for (long i = 0; i < n; i++) {
			const std::string name = "f" + std::to_string(r(names)), name2 = "f" + std::to_string(r(names));
			const auto op = r(100);
			std::string what, arg = "-", res = "-";
			const long a = nowNs();
			if (op < 25) { what = "read"; auto f = fs.read(name); res = f.has_value() ? "1:" + hex(f.value().buffer) : "0"; }
			else if (op < 55) {
				what = "write"; std::string v = std::to_string(t) + "." + std::to_string(i) + "|"; v += std::string(r(6) == 0 ? r(4000) : r(20), 'a' + t % 26);
				arg = hex(v);
				if (r(2)) fs.write(name, v); else fs.write(name, std::vector<uint8_t>(v.begin(), v.end()));
			}
			else if (op < 65) { what = "remove"; fs.remove(name); }
			else if (op < 78) { what = "move"; arg = name2; try { fs.move(name, name2); res = "1"; } catch (const std::exception&) { res = "0"; } }
			else if (op < 86) { what = "info"; auto f = fs.fileInfo(name); res = f.has_value() ? "1:" + std::to_string(f.value().size) : "0"; }
			else if (op < 93) { what = "list"; res = ""; for (auto& e : fs.listAll()) res += e.name + "=" + std::to_string(e.size) + ";"; if (res.empty()) res = "-"; }
			else if (op < 98 || !snaps) { what = "stats"; const auto st = fs.stats(); res = std::to_string(st.totalFiles) + ":" + std::to_string(st.totalSize); }
			else {
				what = "snapshot"; const std::string p = dir + "/s" + std::to_string(t) + "-" + std::to_string(i) + (r(2) ? ".tar" : ".tar.gz"); arg = hex(p);
				try { fs.saveSnapshot(p); res = "1"; } catch (const std::exception& e) { res = "0:" + hex(std::string(e.what())); }
			}
			const long b = nowNs();
			s += "OP " + std::to_string(t) + " " + std::to_string(a) + " " + std::to_string(b) + " " + what + " " + name + " " + arg + " " + res + "\n";
			if (r(10) == 0) std::this_thread::yield();
		}
	});
	for (auto& l : loaders) l.join();
	for (auto& l : loadOut) std::cout << l;
	for (auto& e : fs.listAll()) std::cout << "FINAL " << e.name << " 1 " << hex(fs.read(e.name).value().buffer) << "\n";
	std::cout << "FINALSTATS " << fs.stats().totalFiles << " " << fs.stats().totalSize << "\n";
	for (auto& s : o) std::cout << s;
	return 0;
}

int main(int argc, char** argv) {
	const std::string mode = argv[1];
	for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); opt[a.substr(0, e)] = e == std::string::npos ? "1" : a.substr(e + 1); }
	int rc = 2;
	if (mode == "shortid") rc = shortid();
	else if (mode == "syncout") rc = syncoutMode();
	else if (mode == "kv") rc = kv();
	else if (mode == "vfs") rc = vfs();
	std::cout << "END" << std::endl;
	fflush(stdout); fflush(stderr);
	return rc;
}
