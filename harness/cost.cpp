// How much processor time one library operation takes on an input of about N bytes.
// cost OP N SCRATCHDIR -> "OK <cpu ns> <bytes of the answer>"
#include "lambda.hpp"
#include "core/crypto/crypto.hpp"
#include "core/encoding/encoding.hpp"
#include "core/compression/compression.hpp"
#include "core/json/json.hpp"
#include "core/html/html.hpp"
#include "core/polyfill/polyfill.hpp"
#include "extra/kvstorage/kvstorage.hpp"
#include "extra/staticserver/staticserver.hpp"
#include "extra/vfs/vfs.hpp"

#include <ctime>
#include <cstdio>
#include <functional>
#include <map>
#include <random>
#include <sys/resource.h>

using namespace Lambda;
typedef std::function<size_t()> Run;
typedef std::function<Run(size_t n, const std::string& dir)> Op;

static std::string rep(const std::string& unit, size_t n) {
	std::string s;
	s.reserve(n + unit.size());
	while (s.size() < n) s += unit;
	return s;
}
static std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
static std::string noise(size_t n) {
	std::mt19937 g(7);
	std::string s(n, 0);
	for (auto& c : s) c = (char) g();
	return s;
}
static std::string numbered(size_t n, const std::string& a, const std::string& b) {
	std::string s;
	for (size_t i = 0; s.size() < n; i++) s += a + std::to_string(i) + b;
	return s;
}

static std::map<std::string, Op> ops() {
	std::map<std::string, Op> o;
	// static file server: request paths
	for (auto& [name, unit] : std::map<std::string, std::string>{{"backslash", "\\"}, {"slash", "/"}, {"dots", "../"}, {"dot", "./"}, {"updown", "a/../"}, {"deep", "abcdefg/"}, {"deepup", "\\..\\x/"}, {"plain", "abcdefgh"}, {"quote", "\"<"}}) {
		std::string u = unit;
		o["static-" + name] = [u](size_t n, const std::string& dir) -> Run { auto p = "/" + rep(u, n); return [p, dir] { StaticServer s(dir); return s.serve(p).body.size(); }; };
	}
	o["static-deep-then-up"] = [](size_t n, const std::string& dir) -> Run { auto p = "/" + rep("a/", n / 3 * 2) + rep("../", n / 3); return [p, dir] { StaticServer s(dir); return s.serve(p).body.size(); }; };
	o["static-long-then-up"] = [](size_t n, const std::string& dir) -> Run { auto p = "/" + std::string(n / 2, 'a') + rep("/b/..", n / 2); return [p, dir] { StaticServer s(dir); return s.serve(p).body.size(); }; };
	o["static-file"] = [](size_t n, const std::string& dir) -> Run {
		auto f = fopen((dir + "/f.bin").c_str(), "wb"); std::string s(n, 'x'); fwrite(s.data(), 1, n, f); fclose(f);
		return [dir] { StaticServer s(dir); return s.serve("/f.bin").body.size(); };
	};
	// strings
	o["replaceall-grow"] = [](size_t n, const std::string&) -> Run { auto s = rep("a", n); return [s] { return Strings::replaceAll(s, std::string("a"), std::string("bbb")).size(); }; };
	o["replaceall-shrink"] = [](size_t n, const std::string&) -> Run { auto s = rep("abc", n); return [s] { return Strings::replaceAll(s, std::string("abc"), std::string("x")).size(); }; };
	o["replaceall-same"] = [](size_t n, const std::string&) -> Run { auto s = rep("ab", n); return [s] { return Strings::replaceAll(s, std::string("ab"), std::string("ba")).size(); }; };
	o["replaceall-delete"] = [](size_t n, const std::string&) -> Run { auto s = rep("ab", n); return [s] { return Strings::replaceAll(s, std::string("b"), std::string()).size(); }; };
	o["split"] = [](size_t n, const std::string&) -> Run { auto s = rep(",a,", n); return [s] { return Strings::split(s, ',').size() + Strings::split(s, std::string(",")).size(); }; };
	o["join"] = [](size_t n, const std::string&) -> Run { std::vector<std::string> v(n / 4, "ab"); return [v] { return Strings::join(v, ", ").size(); }; };
	o["trim"] = [](size_t n, const std::string&) -> Run { auto s = std::string(n / 2, ' ') + "x" + std::string(n / 2, '\t'); auto w = std::string(n, '\n'); return [s, w] { return Strings::trim(s).size() + Strings::trim(w).size(); }; };
	o["case"] = [](size_t n, const std::string&) -> Run { auto s = rep("aB -c", n); return [s] { return Strings::toLowerCase(s).size() + Strings::toUpperCase(s).size() + Strings::toTittleCase(s).size(); }; };
	o["search"] = [](size_t n, const std::string&) -> Run { auto s = rep("ab", n); return [s] { return size_t(Strings::includes(s, std::string("zz")) + Strings::startsWith(s, "zz") + Strings::endsWith(s, "zz") + Strings::includes(s, 'q')); }; };
	// pages
	o["render-grow"] = [](size_t n, const std::string&) -> Run { auto s = rep("{{a}}", n); return [s] { return HTML::renderTemplate(s, {{"a", "some longer value"}}).size(); }; };
	o["render-empty"] = [](size_t n, const std::string&) -> Run { auto s = rep("{{a}}-", n); return [s] { return HTML::renderTemplate(s, {}).size(); }; };
	o["render-open"] = [](size_t n, const std::string&) -> Run { auto s = rep("{{", n); return [s] { return HTML::renderTemplate(s, {{"a", "b"}}).size(); }; };
	o["render-notvar"] = [](size_t n, const std::string&) -> Run { auto s = rep("{{a.b}} ", n); return [s] { return HTML::renderTemplate(s, {{"a", "b"}}).size(); }; };
	o["render-openlast"] = [](size_t n, const std::string&) -> Run { auto s = rep("{{ ", n) + "}}"; return [s] { return HTML::renderTemplate(s, {{"a", "b"}}).size(); }; };
	o["render-value"] = [](size_t n, const std::string&) -> Run { auto v = rep("{{a}}", n); return [v] { return HTML::renderTemplate("{{a}}{{a}}{{a}}{{a}}", {{"a", v}}).size(); }; };
	// JSON
	auto json = [&o](const std::string& name, std::function<std::string(size_t)> make) {
		o["json-" + name] = [make](size_t n, const std::string&) -> Run { auto s = make(n); return [s] { try { return JSON::stringify(JSON::parse(s)).size(); } catch (...) { return size_t(0); } }; };
	};
	json("numbers", [](size_t n) { return "[" + rep("1,", n) + "1]"; });
	json("floats", [](size_t n) { return "[" + rep("1.25,", n) + "1]"; });
	json("strings", [](size_t n) { return "[" + rep("\"ab\",", n) + "1]"; });
	json("pairs", [](size_t n) { return "{" + numbered(n, "\"k", "\":1,") + "\"z\":2}"; });
	json("objects", [](size_t n) { return "[" + rep("{\"a\":[1,{\"b\":2}]},", n) + "1]"; });
	json("long", [](size_t n) { return "\"" + rep("abc\\\\n", n) + "\""; });
	json("escapes", [](size_t n) { return "\"" + rep("\\u00e9\\n", n) + "\""; });
	json("quotes", [](size_t n) { return "[\"" + rep("\\\"", n) + "\"]"; });
	json("backslashes", [](size_t n) { return "\"" + rep("\\\\", n) + "\""; });
	json("slashquotes", [](size_t n) { return "\"" + rep("\\\\\"x", n) + "\""; });
	json("slashquote-gaps", [](size_t n) { return "\"" + rep("\\\\\"  ", n) + "x\""; });
	json("unterminated", [](size_t n) { return "[" + rep("\"a\",", n) + "\"x"; });
	json("open", [](size_t n) { return rep("[", n); });
	json("opensclose", [](size_t n) { return rep("[", n / 2) + rep("]", n / 2); });
	json("deep", [](size_t n) { std::string s = rep("[", 400) + rep("1,", n) + "1" + rep("]", 400); return s; });
	json("spaces", [](size_t n) { return "[" + rep(" ", n / 2) + "1" + rep("\t", n / 2) + "]"; });
	json("spread", [](size_t n) { return "[" + rep("   1   ,", n) + "1]"; });
	json("colons", [](size_t n) { return "{\"a\":\"" + rep(":", n) + "\"}"; });
	json("badcommas", [](size_t n) { return "[" + rep(",", n) + "]"; });
	json("barewords", [](size_t n) { return rep("word ", n); });
	json("digits", [](size_t n) { return rep("9", n); });
	// HTTP values
	o["cookies"] = [](size_t n, const std::string&) -> Run { auto s = numbered(n, "c", "=v; "); return [s] { HTTP::Cookies c(s); size_t t = 0; for (auto& e : c.entries()) t += e.second.size(); for (auto& e : c.entries()) c.set(e.first, "w"); return t + c.serialize().size(); }; };
	o["cookies-junk"] = [](size_t n, const std::string&) -> Run { auto s = rep("; =;", n); return [s] { HTTP::Cookies c(s); return c.size(); }; };
	o["query"] = [](size_t n, const std::string&) -> Run { auto s = "?" + numbered(n, "q", "=v&"); return [s] { HTTP::URLSearchParams p(s); return p.stringify().size(); }; };
	o["query-junk"] = [](size_t n, const std::string&) -> Run { auto s = rep("&?=", n); return [s] { HTTP::URLSearchParams p(s); return p.stringify().size(); }; };
	o["url"] = [](size_t n, const std::string&) -> Run { auto s = "http://u:p@host:80/" + rep("a/?b#", n); return [s] { HTTP::URL u(s); return u.href().size(); }; };
	o["url-host"] = [](size_t n, const std::string&) -> Run { auto s = "http://" + rep("h:@[", n) + "/"; return [s] { try { HTTP::URL u(s); return u.href().size(); } catch (...) { return size_t(1); } }; };
	o["headers"] = [](size_t n, const std::string&) -> Run { return [n] { HTTP::Headers h; for (size_t i = 0; i < n / 16; i++) { h.append("x-" + std::to_string(i), "value"); h.append("same", "value"); h.set("X-" + std::to_string(i), "w"); } return h.entries().size() + h.getAll("same").size(); }; };
	o["auth"] = [](size_t n, const std::string&) -> Run { auto s = "Basic " + Encoding::toBase64(bytes(rep("a:", n))); return [s] { return HTTP::Auth::parseBasicAuth(s)->password.size(); }; };
	// encodings
	o["base64"] = [](size_t n, const std::string&) -> Run { auto s = bytes(noise(n)); return [s] { return Encoding::fromBase64(Encoding::toBase64(s)).size(); }; };
	o["hex"] = [](size_t n, const std::string&) -> Run { auto s = bytes(noise(n)); return [s] { return Encoding::fromHex(Encoding::toHex(s)).size(); }; };
	o["uri"] = [](size_t n, const std::string&) -> Run { auto s = noise(n); return [s] { return Encoding::decodeURIComponent(Encoding::encodeURIComponent(s)).size(); }; };
	o["sha1"] = [](size_t n, const std::string&) -> Run { auto s = bytes(noise(n)); return [s, n] { Crypto::SHA1 h; h.update(s); for (size_t i = 0; i < n / 4; i++) h.update(std::string("ab")); return h.digest().size(); }; };
	// compression
	for (auto& [name, make] : std::map<std::string, std::function<std::string(size_t)>>{{"noise", noise}, {"zeros", [](size_t n) { return std::string(n, 0); }}, {"text", [](size_t n) { return numbered(n, "line ", "\n"); }}}) {
		auto mk = make;
		o["gzip-" + name] = [mk](size_t n, const std::string&) -> Run { auto s = bytes(mk(n)); return [s] { return Compress::zlibDecompressBuffer(Compress::zlibCompressBuffer(s, Compress::Quality::Noice, Compress::ZlibSetHeader::Gzip)).size(); }; };
		o["brotli-" + name] = [mk](size_t n, const std::string&) -> Run { auto s = bytes(mk(n)); return [s] { return Compress::brotliDecompressBuffer(Compress::brotliCompressBuffer(s, Compress::Quality::Noice)).size(); }; };
		o["stream-" + name] = [mk](size_t n, const std::string&) -> Run { auto s = mk(n); return [s] {
			Compress::GzipStreamCompressor c(Compress::Quality::Noice); Compress::GzipStreamDecompressor d; size_t t = 0;
			auto feed = [&](std::vector<uint8_t> z) { for (size_t i = 0; i < z.size(); i += 4096) { std::vector<uint8_t> p(z.begin() + i, z.begin() + std::min(z.size(), i + 4096)); t += d.nextChunk(p).size(); } };
			for (size_t i = 0; i < s.size(); i += 4096) { auto p = bytes(s.substr(i, 4096)); feed(c.nextChunk(p)); }
			feed(c.end());
			return t; }; };
	}
	// virtual file system: many small files, few big files, one file written again and again
	for (int gz = 0; gz < 2; gz++) for (int kind = 0; kind < 3; kind++) {
		std::string name = std::string("vfs-") + (kind == 0 ? "many" : kind == 1 ? "big" : "names") + (gz ? "-gz" : "");
		o[name] = [gz, kind](size_t n, const std::string& dir) -> Run { return [n, gz, kind, dir] {
			auto path = dir + (gz ? "/a.tar.gz" : "/a.tar");
			Lambda::VFS::Interface a, b;
			if (kind == 0) for (size_t i = 0; i < n / 1024; i++) a.write("dir/file" + std::to_string(i), std::string(100, 'x'));
			else if (kind == 1) for (size_t i = 0; i < 4; i++) a.write("f" + std::to_string(i), std::string(n / 4, 'y'));
			else for (size_t i = 0; i < 8; i++) a.write(std::string(n / 8, 'a' + i), std::string("z"));
			a.saveSnapshot(path);
			b.loadSnapshot(path);
			size_t t = b.listAll().size();
			for (auto& f : b.listAll()) { b.move(f.name, f.name + ".moved"); t += b.read(f.name + ".moved")->size(); b.remove(f.name + ".moved"); }
			return t; }; };
	}
	o["vfs-rewrite"] = [](size_t n, const std::string&) -> Run { return [n] { Lambda::VFS::Interface a; for (size_t i = 0; i < n / 64; i++) { a.write("one", std::string(64, 'x')); a.write("f" + std::to_string(i), std::string("y")); } return a.stats().totalSize; }; };
	// key-value store
	o["kv-many"] = [](size_t n, const std::string& dir) -> Run { return [n, dir] { size_t t = 0; for (int r = 0; r < 2; r++) { Storage::KVStorage::StorageInterface s(dir + "/kv.db"); for (size_t i = 0; i < n / 64; i++) { s.setItem("key" + std::to_string(i), "value"); t += s.getItem("key" + std::to_string(i / 2)).size(); } t += s.size(); } return t; }; };
	o["kv-same"] = [](size_t n, const std::string& dir) -> Run { return [n, dir] { size_t t = 0; for (int r = 0; r < 2; r++) { Storage::KVStorage::StorageInterface s(dir + "/kv.db"); for (size_t i = 0; i < n / 64; i++) { s.setItem("key", "value" + std::to_string(i)); if (i % 16 == 0) s.removeItem("key"); } t += s.size(); } return t; }; };
	o["kv-big"] = [](size_t n, const std::string& dir) -> Run { return [n, dir] { size_t t = 0; for (int r = 0; r < 2; r++) { Storage::KVStorage::StorageInterface s(dir + "/kv.db"); s.setItem("key" + std::to_string(r), std::string(n / 2, 'x')); t += s.getItem("key0").size(); } return t; }; };
	// media types
	o["mime"] = [](size_t n, const std::string&) -> Run { auto s = rep("a.b", n); return [s] { return Content::getExtMimetype(s).size() + Content::getMimetypeExt(s).size(); }; };
	return o;
}

int main(int argc, char** argv) {
	auto all = ops();
	if (argc < 4) { for (auto& e : all) puts(e.first.c_str()); return 0; }
	auto it = all.find(argv[1]);
	if (it == all.end()) { puts("NOOP"); return 2; }
	struct rlimit rl { 0, 0 };
	setrlimit(RLIMIT_CORE, &rl);
	auto run = it->second(strtoull(argv[2], nullptr, 10), argv[3]);
	struct timespec a, b;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
	size_t size = 0;
	try { size = run(); } catch (const std::exception& e) { printf("EXC %s\n", e.what()); return 3; }
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b);
	printf("OK %lld %zu\n", (b.tv_sec - a.tv_sec) * 1000000000ll + (b.tv_nsec - a.tv_nsec), size);
	fflush(stdout);
	_Exit(0);
}
