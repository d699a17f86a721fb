// The frontend reports (C20), the broker with a bad frontend (C16) and the broker on the wire (C09, C10, C11, C24).
#include "handlers/status_notifier_handler.h"
#include "notifier/reactor_status_notifier.h"

// ---------------------------------------------------------------- decoding, independent of the code under test
static int hexval(char c)
{
	if (c >= '0' && c <= '9') return c - '0';
	if (c >= 'a' && c <= 'f') return c - 'a' + 10;
	if (c >= 'A' && c <= 'F') return c - 'A' + 10;
	return -1;
}
static bool percent_decode(const std::string &s, std::string &out, bool form)
{
	out.clear();
	for (std::size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '%') {
			if (i + 2 >= s.size() || hexval(s[i + 1]) < 0 || hexval(s[i + 2]) < 0) return false;
			out.push_back((char) (hexval(s[i + 1]) * 16 + hexval(s[i + 2])));
			i += 2;
		} else if (form && s[i] == '+') out.push_back(' ');
		else out.push_back(s[i]);
	}
	return true;
}
static bool form_decode(const std::string &body, std::map<std::string, std::string> &out)
{
	out.clear();
	if (body.empty()) return true;
	std::size_t pos = 0;
	while (pos <= body.size()) {
		std::size_t e = body.find('&', pos);
		if (e == std::string::npos) e = body.size();
		std::string part = body.substr(pos, e - pos), k, v;
		pos = e + 1;
		std::size_t q = part.find('=');
		if (q == std::string::npos) return false;
		if (!percent_decode(part.substr(0, q), k, true) || !percent_decode(part.substr(q + 1), v, true)) return false;
		if (out.count(k)) return false;
		out[k] = v;
	}
	return true;
}
static std::string base64(const std::string &s)
{
	static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r;
	for (std::size_t i = 0; i < s.size(); i += 3) {
		uint32_t v = (uint32_t) (unsigned char) s[i] << 16;
		if (i + 1 < s.size()) v |= (uint32_t) (unsigned char) s[i + 1] << 8;
		if (i + 2 < s.size()) v |= (unsigned char) s[i + 2];
		r.push_back(T[v >> 18]);
		r.push_back(T[(v >> 12) & 63]);
		r.push_back(i + 1 < s.size() ? T[(v >> 6) & 63] : '=');
		r.push_back(i + 2 < s.size() ? T[v & 63] : '=');
	}
	return r;
}
// what a request to the frontend says
struct report {
	bool ok = false;
	std::string why, type, id, status, message;
	bool has_id = false, has_status = false, has_message = false;
};
static report decode_report(const http_request &r, const std::string &prefix, const std::string &auth)
{
	report x;
	if (r.status == -1) { x.why = "incomplete request"; return x; }
	if (r.method != "POST") { x.why = "method " + r.method; return x; }
	if (r.target.compare(0, prefix.size(), prefix) != 0) { x.why = "target " + r.target; return x; }
	std::string rest = r.target.substr(prefix.size());
	if (rest.empty() || rest[0] != '/') { x.why = "target " + r.target; return x; }
	if (rest.find('?') != std::string::npos) { x.why = "parameters in the address " + r.target; return x; }
	rest.erase(0, 1);
	std::size_t s = rest.find('/');
	x.type = rest.substr(0, s);
	if (s != std::string::npos) {
		x.has_id = true;
		if (rest.find('/', s + 1) != std::string::npos || !percent_decode(rest.substr(s + 1), x.id, false)) { x.why = "target " + r.target; return x; }
	}
	if (r.auth != auth) { x.why = "authorization '" + r.auth + "' instead of '" + auth + "'"; return x; }
	if (r.content_type.compare(0, 33, "application/x-www-form-urlencoded") != 0 && !r.body.empty()) { x.why = "content type " + r.content_type; return x; }
	std::map<std::string, std::string> f;
	if (!form_decode(r.body, f)) { x.why = "undecodable body " + show(r.body); return x; }
	for (auto &p : f) {
		if (p.first == "status") { x.status = p.second; x.has_status = true; }
		else if (p.first == "message") { x.message = p.second; x.has_message = true; }
		else { x.why = "unknown parameter " + show(p.first); return x; }
	}
	x.ok = true;
	return x;
}

static std::string odd_text(rng &g, bool may_be_empty = true)
{
	switch (g.below(9)) {
	case 0: if (may_be_empty) return ""; return "x";
	case 1: return "a&b=c;d+e f%20%zz";
	case 2: return "../" + std::to_string(g.below(100)) + "?q#f";
	case 3: { std::string s = g.bytes((std::size_t) g.range(1, 40)); return s; }
	case 4: return "P\xc5\x99\xc3\xadli\xc5\xa1 \xc5\xbelu\xc5\xa5ou\xc4\x8dk\xc3\xbd\r\n\t\"quoted\" 'x' <b>";
	case 5: return std::string("nul\0inside\0", 11);
	case 6: return std::string(g.below(3000) + 1, (char) ('a' + g.below(26)));
	case 7: { std::string s; for (int i = 0; i < 256; ++i) s.push_back((char) i); return s; }
	default: return "job_" + std::to_string(g.below(100000));
	}
}

// ---------------------------------------------------------------- C20: the handler that talks to the frontend
static void notify_episode(uint64_t seed, rng &g)
{
	rep::phase("notify");
	http_server fe;
	struct attempt { int64_t skipped; };
	std::mutex mu;
	std::vector<int64_t> skipped;
	struct item { message_container m; std::string type, id, status, message; bool has_id, has_status, has_message; int fails; };
	std::vector<item> items;
	// scripted outcome of each request that arrives
	std::vector<http_plan> script;
	fe.plan = [&](std::size_t i, const http_request &) {
		std::lock_guard<std::mutex> l(mu);
		skipped.push_back(vi_skipped_ns());
		return i < script.size() ? script[i] : http_plan();
	};
	if (!fe.start()) { fprintf(stderr, "HARNESS no port for the frontend\n"); _exit(93); }
	notifier_config nc;
	std::string prefix = g.chance(50) ? "/api/v1/broker-reports" : g.chance(50) ? "/x" : "";
	nc.address = "http://127.0.0.1:" + std::to_string(fe.port) + prefix;
	if (g.chance(50)) nc.address = "http://127.0.0.1" + prefix;
	nc.port = (uint16_t) fe.port;
	int creds = (int) g.below(4);
	if (creds) { nc.username = "user" + std::to_string(g.below(100)); nc.password = creds == 1 ? "" : creds == 2 ? "p:w d%&" : "s3cret"; }
	std::string auth = creds ? "Basic " + base64(nc.username + ":" + nc.password) : "";
	auto logger = std::make_shared<spdlog::logger>("n", std::make_shared<spdlog::sinks::null_sink_mt>());
	status_notifier_handler h(nc, logger);
	message_container captured;
	reactor_status_notifier notifier([&](const message_container &m) { captured = m; }, "status_notifier");
	int n = g.range(3, 10);
	for (int i = 0; i < n; ++i) {
		item it;
		it.id = odd_text(g, false);
		if (g.chance(10)) it.id = g.chance(50) ? "." : "..";
		it.message = odd_text(g);
		if (g.chance(5)) it.message = std::string(300000, 'm');
		it.has_id = true;
		it.has_status = true;
		it.has_message = true;
		it.type = "job-status";
		switch (g.below(4)) {
		case 0: notifier.error(it.message); it.type = "error"; it.has_id = it.has_status = false; it.id = ""; break;
		case 1: notifier.rejected_job(it.id, it.message); it.status = "FAILED"; break;
		case 2: notifier.job_done(it.id); it.status = "OK"; it.has_message = false; it.message = ""; break;
		default: notifier.job_failed(it.id, it.message); it.status = "FAILED"; break;
		}
		it.m = captured;
		if (captured.key != "status_notifier") bad({"C20"}, "a report is addressed to '" + show(captured.key) + "'");
		it.fails = g.chance(50) ? 0 : g.range(1, 4);
		for (int k = 0; k < std::min(it.fails, 4); ++k) {
			http_plan p;
			switch (g.below(6)) {
			case 0: p.status = 500; break;
			case 1: p.status = 404; break;
			case 2: p.status = 403; break;
			case 3: p.close_early = true; break;
			case 4: p.status = 503; p.delay_ms = 5; break;
			default: p.status = 400;
			}
			script.push_back(p);
		}
		if (it.fails < 4) { http_plan p; p.status = g.chance(70) ? 200 : g.chance(50) ? 201 : 204; if (p.status == 204) p.status = 200; script.push_back(p); }
		items.push_back(it);
	}
	vi_sleep_div(500);
	std::size_t at = 0;
	for (std::size_t i = 0; i < items.size(); ++i) {
		auto &it = items[i];
		std::size_t want = it.fails < 4 ? (std::size_t) it.fails + 1 : 4;
		int answers = 0;
		try {
			h.on_request(it.m, [&](const message_container &) { ++answers; });
		} catch (const std::exception &e) {
			bad({"C20", "C11"}, std::string("reporting failed with an exception: ") + e.what());
		}
		auto reqs = fe.requests();
		std::vector<http_request> mine(reqs.begin() + (long) std::min(at, reqs.size()), reqs.end());
		std::string what = it.type + " " + show(it.id) + " (" + std::to_string(it.fails) + " failures planned)";
		++rep::steps;
		if (mine.size() != want) {
			bad({"C20"}, what + ": " + std::to_string(mine.size()) + " attempts instead of " + std::to_string(want));
			at = reqs.size();
			break; // the script is out of step
		}
		int64_t before = -1;
		for (std::size_t k = 0; k < mine.size(); ++k) {
			report r = decode_report(mine[k], prefix, auth);
			if (!r.ok) { bad({"C20"}, what + ": " + r.why); continue; }
			if (r.type != it.type || r.has_id != it.has_id || r.id != it.id || r.has_status != it.has_status || r.status != it.status || r.has_message != it.has_message || r.message != it.message)
				bad({"C20"}, what + ": the frontend was told " + r.type + " " + show(r.id) + " status '" + show(r.status) + "' message '" + show(r.message) + "' instead of status '" + show(it.status) + "' message '" + show(it.message) + "'");
			if (k > 0) {
				std::lock_guard<std::mutex> l(mu);
				int64_t pause = (mine[k].arrived_ns - mine[k - 1].answered_ns + skipped[at + k] - skipped[at + k - 1]) / 1000000;
				if (pause < 200) bad({"C20"}, what + ": attempt " + std::to_string(k + 1) + " followed after only " + std::to_string(pause) + " ms");
				if (before >= 0 && pause < before + 100) bad({"C20"}, what + ": the pause before attempt " + std::to_string(k + 1) + " (" + std::to_string(pause) + " ms) is not longer than the one before (" + std::to_string(before) + " ms)");
				before = pause;
				event("pauses between attempts");
			}
			event("attempts");
		}
		hit("C20", mix(mix((uint64_t) it.fails, hash_str(it.type) ^ (uint64_t) creds), mix(hash_str(it.id), hash_str(it.message))));
		at = reqs.size();
	}
	vi_sleep_div(0);
	std::size_t later = fe.count();
	if (later != at) bad({"C20"}, "requests after the last report");
	fe.stop();
	uint64_t hist = seed;
	rep::histories.insert(hist);
	rep::sample(std::to_string(items.size()) + " reports, " + std::to_string(at) + " requests, credentials " + std::to_string(creds) + ", e.g. " + items[0].type + " '" + show(items[0].id).substr(0, 40) + "' after " + std::to_string(items[0].fails) + " failures");
}

// ---------------------------------------------------------------- the broker as a whole
struct whole_broker {
	std::shared_ptr<zmq::context_t> ctx = std::make_shared<zmq::context_t>(1);
	void *peers = zmq_ctx_new();
	int cp = 0, wp = 0, mp = 0;
	void *mon = nullptr;
	std::unique_ptr<broker_connect> b;
	std::thread loop;
	std::atomic<int> returned{0};
	std::vector<void *> socks;

	bool start(rng &g, bool multi, const std::string &frontend, int frontend_port, int ping_interval, int max_failures)
	{
		mon = peer("recodex-monitor", ZMQ_ROUTER);
		for (int i = 0; i < 20 && !mp; ++i) {
			int p = free_port();
			if (zmq_bind(mon, ("tcp://127.0.0.1:" + std::to_string(p)).c_str()) == 0) mp = p;
		}
		auto logger = std::make_shared<spdlog::logger>("stack", std::make_shared<spdlog::sinks::null_sink_mt>());
		logger->set_level(spdlog::level::debug);
		for (int attempt = 0; attempt < 8; ++attempt) {
			cp = free_port();
			do wp = free_port(); while (wp == cp);
			std::string yaml = "clients: {address: 127.0.0.1, port: " + std::to_string(cp) + "}\nworkers: {address: 127.0.0.1, port: " + std::to_string(wp) + ", ping_interval: " + std::to_string(ping_interval) + ", max_liveness: 4, max_request_failures: " + std::to_string(max_failures) + "}\n" +
				"monitor: {address: 127.0.0.1, port: " + std::to_string(mp) + "}\nnotifier: {address: \"" + frontend + "\", port: " + std::to_string(frontend_port) + ", username: u, password: p}\n";
			auto config = std::make_shared<broker_config>(YAML::Load(yaml));
			std::shared_ptr<queue_manager_interface> q;
			if (multi) q = std::make_shared<multi_queue_manager>();
			else q = std::make_shared<single_queue_manager<>>();
			b = std::make_unique<broker_connect>(config, ctx, std::make_shared<worker_registry>(), q, logger);
			returned.store(0, RLX);
			loop = std::thread([this] {
				try {
					b->start_brokering();
				} catch (const std::exception &) {
					// the context was shut down, or the port was taken in the meantime
				}
				returned.store(1, RLX);
			});
			nap(20000);
			// the broker answers a client: it is up
			void *probe = peer("probe", ZMQ_DEALER);
			zmq_connect(probe, ("tcp://127.0.0.1:" + std::to_string(cp)).c_str());
			peer_send(probe, {"unfreeze"});
			std::vector<std::string> f;
			int64_t t0 = now_ns();
			while (!returned.load(RLX) && now_ns() - t0 < 20000000000ll) {
				if (peer_recv(probe, f)) return true;
				nap(1000);
			}
			if (!returned.load(RLX)) return true; // does not answer: the episode will tell
			loop.join();
			b.reset();
		}
		(void) g;
		return false;
	}
	void *peer(const std::string &id, int type)
	{
		void *s = new_peer(peers, id, type);
		socks.push_back(s);
		return s;
	}
	void *worker(const std::string &id)
	{
		void *s = peer(id, ZMQ_DEALER);
		zmq_connect(s, ("tcp://127.0.0.1:" + std::to_string(wp)).c_str());
		return s;
	}
	void *client(const std::string &id)
	{
		void *s = peer(id, ZMQ_DEALER);
		zmq_connect(s, ("tcp://127.0.0.1:" + std::to_string(cp)).c_str());
		return s;
	}
	void stop()
	{
		zmq_ctx_shutdown((void *) *ctx);
		if (loop.joinable()) loop.join();
		b.reset();
		for (auto s : socks) zmq_close(s);
		zmq_ctx_term(peers);
	}
};
static bool await(void *s, std::vector<std::string> &f, int ms)
{
	int64_t t0 = now_ns();
	while (true) {
		if (peer_recv(s, f)) return true;
		if (now_ns() - t0 > (int64_t) ms * 1000000) return false;
		zmq_pollitem_t it = {s, 0, ZMQ_POLLIN, 0};
		zmq_poll(&it, 1, 50);
	}
}

// ---------------------------------------------------------------- C16
static void stall_episode(uint64_t seed, rng &g, bool big)
{
	const int PATIENCE = 15000;
	rep::phase("stall: start");
	int mode = big ? 0 : (int) g.below(4); // 0 the frontend does not answer, 1 answers slowly, 2 fails (but never four times), 3 cannot be reached
	http_server fe;
	rng plan(seed ^ 0x1616);
	std::mutex mu;
	std::map<std::string, int> failed; // per target
	std::atomic<int> stuck{mode == 0};
	fe.plan = [&](std::size_t, const http_request &r) {
		http_plan p;
		std::lock_guard<std::mutex> l(mu);
		if (mode == 0) p.hold = stuck.load(RLX) != 0;
		if (mode == 1) p.delay_ms = plan.range(5, 120);
		if (mode == 2 && failed[r.target] < 3 && plan.chance(60)) { failed[r.target]++; if (plan.chance(50)) p.status = 500; else p.close_early = true; }
		return p;
	};
	if (!fe.start()) { fprintf(stderr, "HARNESS no port for the frontend\n"); _exit(93); }
	int port = fe.port;
	if (mode == 3) fe.stop();
	vi_sleep_div(mode == 3 ? 4 : mode == 2 ? 20 : 0);
	whole_broker w;
	bool multi = g.chance(50);
	if (!w.start(g, multi, "http://127.0.0.1:" + std::to_string(port) + "/fe", port, 5000, 3)) { fprintf(stderr, "HARNESS no ports\n"); _exit(93); }
	void *c = w.client("client");
	int nw = big ? 1 : g.range(1, 3);
	std::vector<void *> ws;
	std::vector<std::string> f;
	for (int i = 0; i < nw; ++i) {
		ws.push_back(w.worker("w" + std::to_string(i)));
		peer_send(ws.back(), {"init", "g" + std::to_string(i), "env=c"});
	}
	bool alive = true;
	auto fail = [&](const std::string &what) { bad({"C16"}, "while the frontend " + std::string(mode == 0 ? "does not answer" : mode == 1 ? "is slow" : mode == 2 ? "fails" : "cannot be reached") + ": " + what); alive = false; };
	auto ping = [&](int i) {
		peer_send(ws[(std::size_t) i], {"ping"});
		do {
			if (!await(ws[(std::size_t) i], f, PATIENCE)) return fail("a ping was not answered");
		} while (f[0] != "pong" && f[0] != "intro");
		event("pings answered");
	};
	for (int i = 0; i < nw; ++i) ping(i);
	int jobs = big ? g.range(1100, 1500) : g.range(5, 40);
	std::vector<std::vector<std::string>> issued((std::size_t) nw); // per worker: what its results make the broker report
	std::map<std::string, std::pair<std::string, std::string>> expect; // id -> status, message
	rep::phase("stall: traffic");
	for (int j = 0; j < jobs && alive; ++j) {
		int i = (int) g.below((uint64_t) nw);
		std::string id = "job" + std::to_string(j);
		peer_send(c, {"eval", id, "hwgroup=g" + std::to_string(i), "env=c", "", "p"});
		if (!await(c, f, PATIENCE) || f != std::vector<std::string>{"ack"}) { fail("a submission was not acknowledged"); break; }
		if (!await(c, f, PATIENCE) || f != std::vector<std::string>{"accept"}) { fail("a submission was not accepted"); break; }
		if (!await(ws[(std::size_t) i], f, PATIENCE) || f != std::vector<std::string>{"eval", id, "p"}) { fail("a job was not dispatched"); break; }
		if (g.chance(50)) { peer_send(ws[(std::size_t) i], {"done", id, "OK"}); expect[id] = {"OK", ""}; }
		else { peer_send(ws[(std::size_t) i], {"done", id, "FAILED", "because " + id}); expect[id] = {"FAILED", "because " + id}; }
		issued[(std::size_t) i].push_back(id);
		if (g.chance(20)) ping((int) g.below((uint64_t) nw));
		++rep::steps;
		hit("C16", mix(mix((uint64_t) mode, (uint64_t) std::min(j, 200)), (uint64_t) nw * 2 + multi));
	}
	for (int i = 0; i < nw && alive; ++i) ping(i);
	std::size_t waiting = expect.size() - std::min(expect.size(), fe.count());
	{
		std::lock_guard<std::mutex> l(rep::mutex);
		auto &v = rep::events["most reports waiting for the frontend"];
		v = std::max<uint64_t>(v, waiting);
	}
	rep::phase("stall: recovery");
	if (alive && mode != 3) {
		stuck.store(0, RLX);
		fe.release();
		// every report arrives, in the order they were issued
		int64_t last = now_ns();
		std::size_t before = 0;
		auto good = [&] {
			std::vector<report> r;
			for (auto &q : fe.requests()) {
				if (q.answered_ns == 0 || q.status != 200) continue;
				r.push_back(decode_report(q, "/fe", "Basic " + base64("u:p")));
			}
			return r;
		};
		std::vector<report> got;
		while (true) {
			got = good();
			std::size_t n = fe.count();
			if (n != before) { before = n; last = now_ns(); }
			if (got.size() >= expect.size()) break;
			if (now_ns() - last > 25000000000ll) break;
			nap(5000);
		}
		nap(100000);
		got = good();
		std::map<std::string, int> times;
		std::map<std::string, std::size_t> position;
		for (std::size_t k = 0; k < got.size(); ++k) {
			if (!got[k].ok) { bad({"C16", "C20"}, "a report cannot be understood: " + got[k].why); continue; }
			if (got[k].type != "job-status" || !expect.count(got[k].id)) { bad({"C16", "C20"}, "an unexpected report: " + got[k].type + " " + show(got[k].id)); continue; }
			times[got[k].id]++;
			position[got[k].id] = k;
			auto &e = expect[got[k].id];
			if (e.first != got[k].status || e.second != got[k].message) bad({"C16", "C20"}, "job " + got[k].id + " was reported as " + got[k].status + " '" + show(got[k].message) + "'");
		}
		int missing = 0, twice = 0;
		std::string example;
		for (auto &e : expect) {
			if (!times.count(e.first)) { if (!missing++) example = e.first; }
			else if (times[e.first] > 1) { if (!twice++) example = e.first; }
		}
		if (missing) bad({"C16"}, std::to_string(missing) + " of " + std::to_string(expect.size()) + " reports issued while the frontend was bad never arrived, e.g. of " + example);
		if (twice) bad({"C16", "C20"}, std::to_string(twice) + " reports were repeated after a success, e.g. of " + example);
		for (auto &v : issued)
			for (std::size_t k = 1; k < v.size(); ++k)
				if (position.count(v[k]) && position.count(v[k - 1]) && position[v[k]] < position[v[k - 1]]) { bad({"C16", "C20"}, "the report of " + v[k] + " arrived before the one of " + v[k - 1] + ", which was issued earlier"); break; }
		event("reports delivered in the end", got.size());
		hit("C20", mix(mix((uint64_t) mode, 2020), (uint64_t) got.size()));
	}
	if (w.returned.load(RLX)) bad({"C16", "C11"}, "the broker ended by itself");
	rep::phase("stall: end");
	vi_sleep_div(100);
	fe.release();
	w.stop();
	vi_sleep_div(0);
	fe.stop();
	rep::histories.insert(mix((uint64_t) mode, mix(expect.size(), waiting)));
	rep::sample("frontend mode " + std::to_string(mode) + ", " + (multi ? "multi" : "single") + ", " + std::to_string(nw) + " workers: " + std::to_string(expect.size()) + " jobs done, " + std::to_string(waiting) + " reports waiting at the end of the traffic, " + std::to_string(fe.count()) + " requests");
}

// ---------------------------------------------------------------- the wire: C09, C10, C11, C24
static std::vector<std::string> payload_frames(rng &g)
{
	std::vector<std::string> r;
	int n = g.range(0, 6);
	for (int i = 0; i < n; ++i) {
		switch (g.below(6)) {
		case 0: r.push_back(""); break;
		case 1: r.push_back(std::string("a\0b\n", 4)); break;
		case 2: r.push_back(g.bytes((std::size_t) g.range(200, 5000))); break;
		case 3: r.push_back("eval"); break;
		default: r.push_back(g.bytes(g.below(40)));
		}
	}
	return r;
}
static void wire_episode(uint64_t seed, rng &g)
{
	const int PATIENCE = 15000;
	rep::phase("wire: start");
	http_server fe;
	if (!fe.start()) { fprintf(stderr, "HARNESS no port for the frontend\n"); _exit(93); }
	vi_sleep_div(200);
	vi_reset();
	vi_phase(0);
	whole_broker w;
	bool multi = g.chance(50);
	if (!w.start(g, multi, "http://127.0.0.1:" + std::to_string(fe.port), fe.port, 5000, 3)) { fprintf(stderr, "HARNESS no ports\n"); _exit(93); }
	int nw = g.range(1, 4), nc = g.range(1, 4);
	std::vector<void *> ws, cs;
	std::vector<std::string> wid;
	std::vector<std::string> f;
	bool alive = true;
	auto dead = [&](const std::string &what) { bad({"C09", "C10", "C11", "C24"}, what); alive = false; };
	for (int i = 0; i < nw; ++i) {
		wid.push_back(random_identity(g, i));
		ws.push_back(w.worker(wid.back()));
		peer_send(ws.back(), {"init", "g" + std::to_string(i), "env=c", "threads=4"});
		peer_send(ws.back(), {"ping"});
		if (!await(ws.back(), f, PATIENCE) || f != std::vector<std::string>{"pong"}) { dead("the first ping of a registered worker was answered with " + show(f)); }
	}
	for (int i = 0; i < nc; ++i) cs.push_back(w.client(random_identity(g, i)));
	// the monitor is reached once the connection stands
	bool monitor = false;
	std::string broker_id;
	for (int k = 0; k < 400 && alive && !monitor; ++k) {
		peer_send(ws[0], {"progress", "up?"});
		if (await(w.mon, f, 30)) { monitor = true; broker_id = f[0]; }
	}
	if (alive && !monitor) bad({"C09", "C24"}, "no progress message ever reached the monitor");
	peer_send(ws[0], {"progress", "sync"});
	for (bool synced = false; alive && monitor && !synced;) {
		if (!await(w.mon, f, PATIENCE)) { bad({"C09", "C24"}, "a progress message did not reach the connected monitor"); break; }
		synced = f.size() == 2 && f[1] == "sync";
	}
	rep::phase("wire: traffic");
	int rounds = g.range(20, 60);
	long jobs = 0;
	std::map<int, std::string> running; // worker -> job
	for (int r = 0; r < rounds && alive; ++r) {
		++rep::steps;
		int ci = (int) g.below((uint64_t) nc), wi = (int) g.below((uint64_t) nw);
		int what = (int) g.below(10);
		auto nobody_else = [&](int except_client) {
			for (int k = 0; k < nc; ++k) if (k != except_client && peer_recv(cs[(std::size_t) k], f)) bad({"C10", "C24"}, "client " + std::to_string(k) + " got " + show(f) + ", which answers nothing it asked");
		};
		if (what < 5) {
			std::string id = "j" + std::to_string(++jobs) + (g.chance(30) ? g.bytes(5) : "");
			auto pay = payload_frames(g);
			bool servable = g.chance(80);
			std::vector<std::string> m = {"eval", id, "hwgroup=g" + std::to_string(wi)};
			if (!servable) m[2] = "hwgroup=none";
			if (g.chance(50)) m.push_back("env=c");
			m.push_back("");
			m.insert(m.end(), pay.begin(), pay.end());
			peer_send(cs[(std::size_t) ci], m);
			if (!await(cs[(std::size_t) ci], f, PATIENCE) || f != std::vector<std::string>{"ack"}) { dead("a submission was answered with " + show(f) + " instead of ack"); break; }
			if (!await(cs[(std::size_t) ci], f, PATIENCE)) { dead("a submission was acknowledged, but neither accepted nor rejected"); break; }
			if (servable ? f != std::vector<std::string>{"accept"} : !(f.size() == 2 && f[0] == "reject")) { dead(std::string(servable ? "a servable" : "an unservable") + " submission was answered with " + show(f)); break; }
			nobody_else(ci);
			hit("C10", mix(mix(1, servable), (uint64_t) nc));
			if (!servable) {
				// the monitor hears of the rejected job
				if (monitor) {
					if (!await(w.mon, f, PATIENCE)) { bad({"C24"}, "a message to the monitor did not arrive"); break; }
					if (f != std::vector<std::string>{broker_id, id, "FAILED"}) bad({"C09", "C24"}, "the monitor got " + show(f) + " about the rejected job");
				}
				continue;
			}
			std::vector<std::string> want = {"eval", id};
			want.insert(want.end(), pay.begin(), pay.end());
			int attempts = g.chance(30) ? 2 : 1;
			for (int a = 0; a < attempts && alive; ++a) {
				if (!await(ws[(std::size_t) wi], f, PATIENCE)) { bad({"C09", "C24"}, "the job was not dispatched"); alive = false; break; }
				if (f != want) { bad({"C09", "C24"}, "attempt " + std::to_string(a + 1) + ": the worker got " + show(f) + " instead of " + show(want)); alive = false; break; }
				hit("C09", mix(mix((uint64_t) a, pay.size()), pay.empty() ? 0 : pay[0].size()));
				hit("C24", mix(mix((uint64_t) a, pay.size()), 24));
				if (monitor && g.chance(60)) {
					auto prog = payload_frames(g);
					prog.insert(prog.begin(), id);
					std::vector<std::string> pm = prog;
					pm.insert(pm.begin(), "progress");
					peer_send(ws[(std::size_t) wi], pm);
					if (!await(w.mon, f, PATIENCE)) { bad({"C09", "C24"}, "a progress message did not reach the monitor"); break; }
					std::vector<std::string> wantp = {broker_id};
					wantp.insert(wantp.end(), prog.begin(), prog.end());
					if (f != wantp) bad({"C09", "C24"}, "the monitor got " + show(f) + " instead of " + show(wantp));
					hit("C09", mix(77, prog.size()));
				}
				if (a + 1 < attempts) peer_send(ws[(std::size_t) wi], {"done", id, "INTERNAL_ERROR", "again"});
				else if (g.chance(50)) peer_send(ws[(std::size_t) wi], {"done", id, "OK"});
				else peer_send(ws[(std::size_t) wi], {"done", id, "FAILED", "no"});
			}
		} else if (what < 6) {
			peer_send(cs[(std::size_t) ci], {"get-runtime-stats"});
			if (!await(cs[(std::size_t) ci], f, PATIENCE) || f.empty() || f.size() % 2) dead("a request for statistics was answered with " + show(f));
			nobody_else(ci);
			hit("C10", mix(2, f.size()));
		} else if (what < 7) {
			peer_send(cs[(std::size_t) ci], {"unfreeze"});
			if (!await(cs[(std::size_t) ci], f, PATIENCE)) dead("a request was not answered");
			nobody_else(ci);
			hit("C10", 3);
		} else if (what < 9) {
			peer_send(ws[(std::size_t) wi], {"ping"});
			if (!await(ws[(std::size_t) wi], f, PATIENCE) || f != std::vector<std::string>{"pong"}) dead("a ping was answered with " + show(f));
			hit("C24", mix(4, (uint64_t) nw));
		} else {
			// nonsense from strangers and from known peers (nothing that is a valid request)
			std::vector<std::string> junk = random_frames(g);
			if (g.chance(50)) {
				static const char *cmds[] = {"eval", "done", "progress", "init", "ping", "", "get-runtime-stats2"};
				junk.insert(junk.begin(), cmds[g.below(2)]);
				if (junk.size() > 2) junk.resize(2);
			} else junk[0] = "?" + junk[0];
			void *who = g.chance(50) ? w.client("") : w.worker("");
			peer_send(who, junk);
			hit("C11", mix(junk.size(), hash_str(junk[0])));
		}
		if (w.returned.load(RLX)) dead("the broker ended by itself");
	}
	if (alive) {
		// nothing is left anywhere
		nap(20000);
		for (auto s : cs) if (peer_recv(s, f)) bad({"C10", "C24"}, "a client got " + show(f) + ", which answers nothing");
		for (auto s : ws) if (peer_recv(s, f)) bad({"C09", "C24"}, "a worker got " + show(f) + " unexpectedly");
		if (peer_recv(w.mon, f)) bad({"C09", "C24"}, "the monitor got " + show(f) + " unexpectedly");
		hit("C11", mix(11, (uint64_t) rounds));
	}
	rep::phase("wire: end");
	w.stop();
	vi_sleep_div(0);
	fe.stop();
	rep::histories.insert(mix(seed, (uint64_t) jobs));
	event("jobs on the wire", (uint64_t) jobs);
	rep::sample(std::string("wire, ") + (multi ? "multi" : "single") + ": " + std::to_string(nw) + " workers, " + std::to_string(nc) + " clients, " + std::to_string(rounds) + " requests, " + std::to_string(jobs) + " jobs");
}
