// Several server instances in one process. Commands (stdin) name the instance; events and acknowledgements as in server.cpp.
#include "lambda.hpp"

#include <unistd.h>
#include <atomic>
#include <chrono>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <thread>
#include <dirent.h>
#include <fstream>
#include <cstring>

using namespace Lambda;

static std::mutex g_evmtx;
static int g_evfd = 1;
static void ev(const std::string& line) {
	std::lock_guard<std::mutex> l(g_evmtx);
	std::string s = line + "\n";
	size_t off = 0;
	while (off < s.size()) {
		auto n = ::write(g_evfd, s.data() + off, s.size() - off);
		if (n < 0) { if (errno == EINTR) continue; return; }
		off += n;
	}
}
static std::string hex(const std::string& s) {
	static const char* d = "0123456789abcdef";
	std::string o;
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o.size() ? o : std::string("-");
}
static std::vector<std::string> words(const std::string& s) {
	std::vector<std::string> o; std::istringstream is(s); std::string w;
	while (is >> w) o.push_back(w);
	return o;
}

struct Node {
	std::string id;
	std::atomic<long> calls{0}, active{0};
	std::atomic<bool> over{false};
	std::unique_ptr<LambdaInstance> inst;
};
static std::mutex g_mtx;
static std::map<std::string, std::shared_ptr<Node>> g_nodes;
static std::shared_ptr<Node> node(const std::string& id) {
	std::lock_guard<std::mutex> l(g_mtx);
	return g_nodes.at(id);
}

static HandlerResponse handle(Node& n, const Request& req, const Context& ctx) {
	struct Act { Node& n; Act(Node& x) : n(x) { n.calls++; n.active++; if (n.over) ev("LATE " + n.id); } ~Act() { n.active--; } } act(n);
	const auto& path = req.url.pathname;
	if (path == "/who") {
		std::string text = "instance " + n.id + " call " + req.url.searchParams.get("tag") + "\n";
		const size_t size = req.url.searchParams.has("size") ? std::stoul(req.url.searchParams.get("size")) : 0;
		while (text.size() < size) text += "this is instance " + n.id + "\n";
		return Response(200, { { "content-type", "text/plain" }, { "x-instance", n.id } }, HTTP::BodyBuffer(text));
	}
	if (path == "/throw" && req.url.searchParams.has("msg")) throw std::runtime_error(req.url.searchParams.get("msg"));
	if (path == "/throw") throw std::runtime_error("failure in " + n.id);
	if (path == "/sleep") {
		std::this_thread::sleep_for(std::chrono::milliseconds(std::stol(req.url.searchParams.get("ms"))));
		return Response(200, { { "x-instance", n.id } }, HTTP::BodyBuffer("slept in " + n.id));
	}
	if (path == "/post") return Response(200, { { "x-instance", n.id } }, HTTP::BodyBuffer(n.id + " got " + std::to_string(req.body.size())));
	if (path == "/sse") {
		auto w = ctx.startEventStream();
		const long k = std::stol(req.url.searchParams.get("n"));
		for (long i = 0; i < k; i++) { SSE::EventMessage m; m.data = n.id + " " + std::to_string(i); w.push(m); }
		return {};
	}
	if (path == "/ws") {
		auto ws = ctx.upgrateToWebsocket();
		while (ws.awaitMessage()) while (ws.hasMessage()) ws.sendMessage(n.id + ":" + ws.nextMessage().text());
		return {};
	}
	return Response(404, { { "x-instance", n.id } });
}

int main(int argc, char** argv) {
	std::map<std::string, std::string> opt;
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto e = a.find('='); opt[a.substr(0, e)] = a.substr(e + 1); }
	g_evfd = opt.count("evfd") ? std::stoi(opt["evfd"]) : 1;
	std::string line;
	ev("READY");
	while (std::getline(std::cin, line)) {
		auto w = words(line);
		if (w.empty()) continue;
		if (w[0] == "exit") break;
		const auto run = [w]() {
			const auto t0 = std::chrono::steady_clock::now();
			std::string res = "ok";
			try {
				if (w[0] == "start") {
					std::map<std::string, std::string> o;
					for (size_t i = 2; i < w.size(); i++) { auto e = w[i].find('='); o[w[i].substr(0, e)] = w[i].substr(e + 1); }
					const auto geti = [&](const std::string& k, long d) { return o.count(k) ? std::stol(o[k]) : d; };
					ServerConfig c;
					c.loglevel.requests = geti("logreq", 0);
					c.loglevel.transportEvents = 0;
					c.loglevel.startMessage = 0;
					c.transport.useCompression = geti("compress", 1);
					c.transport.reuseConnections = geti("reuse", 1);
					if (o.count("maxreq")) c.transport.maxRequestSize = geti("maxreq", 0);
					if (o.count("errtype")) c.errorResponseType = o["errtype"] == "json" ? ErrorResponseType::JSON : o["errtype"] == "plain" ? ErrorResponseType::Plain : ErrorResponseType::HTML;
					c.service.port = geti("port", 0);
					c.service.fastPortReuse = true;
					c.service.connectionTimeouts.receive = geti("rxto", 15000);
					c.service.connectionTimeouts.send = 15000;
					c.service.maxConnections = geti("maxconn", 500);
					c.service.useThreadList = true;
					auto n = std::make_shared<Node>();
					n->id = w[1];
					//	the handler outlives neither the instance nor the node
					auto* p = n.get();
					n->inst = std::make_unique<LambdaInstance>([p](const Request& r, const Context& x) { return handle(*p, r, x); }, c);
					std::lock_guard<std::mutex> l(g_mtx);
					g_nodes[w[1]] = n;
				}
				else if (w[0] == "shutdown") node(w[1])->inst->shutdownn();
				else if (w[0] == "await") {
					auto n = node(w[1]);
					n->inst->awaitFinished();
					n->over = true;
					if (n->active) res = "active:" + std::to_string(n->active);
				}
				else if (w[0] == "destroy") {
					auto n = node(w[1]);
					n->inst.reset();
					n->over = true;
					if (n->active) res = "active:" + std::to_string(n->active);
					std::lock_guard<std::mutex> l(g_mtx);
					g_nodes.erase(w[1]);
				}
				else if (w[0] == "stat") {
					size_t fds = 0, thr = 0;
					for (auto* p : { "/proc/self/fd", "/proc/self/task" }) {
						DIR* d = opendir(p); size_t k = 0;
						while (auto* e = readdir(d)) if (e->d_name[0] != '.') k++;
						closedir(d);
						(std::string(p) == "/proc/self/fd" ? fds : thr) = k;
					}
					res = "fds=" + std::to_string(fds) + ",threads=" + std::to_string(thr);
				}
				else res = "unknown";
			} catch (const std::exception& e) { res = "exception:" + hex(std::string(e.what())); }
			catch (...) { res = "exception:unknown"; }
			const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
			ev("ACK " + w[0] + " " + res + " " + std::to_string(ms));
		};
		run();
	}
	{ std::lock_guard<std::mutex> l(g_mtx); for (auto& n : g_nodes) n.second->inst.reset(); g_nodes.clear(); }
	fflush(stdout); fflush(stderr);
	return 0;
}
