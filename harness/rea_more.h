// More profiles of the rea harness: ticks, termination, sockets, and the whole broker in one process.
#include "broker_connect.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <spdlog/sinks/null_sink.h>

// ---------------------------------------------------------------- C17
struct tick_recorder : handler_interface {
	struct rec { int64_t at; std::string value; bool well_formed; };
	std::vector<rec> log;
	void on_request(const message_container &m, const response_cb &) override
	{
		rec r;
		r.at = now_ns();
		r.well_formed = m.key == "timer" && m.data.size() == 1;
		r.value = m.data.empty() ? "" : m.data[0];
		log.push_back(r);
	}
};
struct busy_handler : handler_interface {
	int sleep_us = 0;
	bool echo = false;
	std::atomic<long> calls{0};
	void on_request(const message_container &m, const response_cb &respond) override
	{
		calls.fetch_add(1, RLX);
		if (sleep_us) nap(sleep_us);
		if (echo) { message_container r("ball", m.identity, m.data); respond(r); }
	}
};

// returns a complaint about the density of the ticks (to be believed only if it repeats), or an empty string
static std::string ticks_episode(uint64_t seed, int mode, rng &g)
{
	rep::phase("ticks: mode " + std::to_string(mode));
	auto ctx = std::make_shared<zmq::context_t>(1);
	auto r = std::make_unique<reactor>(ctx);
	auto rec = std::make_shared<tick_recorder>();
	auto busy = std::make_shared<busy_handler>();
	auto player = std::make_shared<busy_handler>();
	r->add_socket("net", std::make_shared<router_socket_wrapper>(ctx, "inproc://ticks", true));
	bool first = g.chance(50);
	if (first) r->add_handler({"timer"}, rec);
	if (mode == 2) busy->sleep_us = g.range(1000, 20000);
	r->add_handler({"net", "ball"}, busy);
	if (mode == 4) {
		// a ball between an asynchronous and a synchronous handler: very short iterations
		busy->echo = false;
		player->echo = true;
		r->add_async_handler({"ball", "net"}, player);
	}
	if (!first) r->add_handler({"timer"}, rec);
	void *peer = new_peer((void *) *ctx, "p");
	zmq_connect(peer, "inproc://ticks");
	int64_t t0 = now_ns();
	std::string thrown;
	std::atomic<int> returned{0};
	std::thread loop([&] {
		try {
			r->start_loop();
		} catch (const std::exception &e) {
			thrown = e.what();
		}
		returned.store(1, RLX);
	});
	int64_t length = (mode == 0 ? g.range(1400, 1800) : g.range(500, 900)) * 1000000ll;
	long sent = 0;
	if (mode == 4) { peer_send(peer, {"x"}); }
	while (now_ns() - t0 < length && !returned.load(RLX)) {
		if (mode == 1 || mode == 2) {
			if (sent - busy->calls.load(RLX) < 200) { peer_send(peer, {"x", "y"}); ++sent; }
			else nap(50);
			if (mode == 2) nap(500);
		} else if (mode == 3) {
			vi_realtime_offset(((int64_t) g.range(-7200, 7200)) * 1000000000ll);
			nap(g.range(100, 30000));
			if (g.chance(40)) { peer_send(peer, {"x"}); ++sent; }
		} else if (mode == 5) { // irregular traffic
			nap(g.range(1, 3000));
			peer_send(peer, {"x"});
			++sent;
		} else nap(5000);
	}
	vi_realtime_offset(0);
	int64_t asked = now_ns();
	r->terminate();
	loop.join();
	int64_t ended = now_ns();
	zmq_close(peer);
	r.reset();
	if (!thrown.empty()) bad({"C17", "C18"}, "the event loop failed: " + thrown);
	auto &L = rec->log;
	int64_t sum = 0, zeros = 0, gap = 0;
	std::string name = "ticks, mode " + std::to_string(mode) + ": ";
	for (std::size_t k = 0; k < L.size(); ++k) {
		if (!L[k].well_formed) { bad({"C17"}, name + "malformed tick"); return ""; }
		char *end = nullptr;
		errno = 0;
		long long v = strtoll(L[k].value.c_str(), &end, 10);
		if (L[k].value.empty() || *end || errno) { bad({"C17"}, name + "a tick of '" + show(L[k].value) + "'"); return ""; }
		if (v < 0) { bad({"C17"}, name + "a negative tick " + std::to_string(v)); return ""; }
		sum += v;
		zeros += v == 0;
		// never ahead of the time that passed, and never behind by more than one iteration
		if (sum > (L[k].at - t0) / 1000000 + 1) {
			bad({"C17"}, name + "the first " + std::to_string(k + 1) + " ticks add up to " + std::to_string(sum) + " ms, but only " + std::to_string((L[k].at - t0) / 1000000) + " ms passed since the loop started");
			return "";
		}
		if (k > 0 && sum < (L[k - 1].at - L[0].at) / 1000000 - 2) {
			bad({"C17"}, name + "the first " + std::to_string(k + 1) + " ticks add up to " + std::to_string(sum) + " ms, but at least " + std::to_string((L[k - 1].at - L[0].at) / 1000000) + " ms passed between the first and the last but one");
			return "";
		}
		int64_t before = k ? L[k - 1].at : t0;
		if (L[k].at <= asked) gap = std::max(gap, L[k].at - before);
	}
	if (!L.empty() && asked > L.back().at) gap = std::max(gap, asked - L.back().at);
	hit("C17", mix(mix((uint64_t) mode, (uint64_t) L.size()), (uint64_t) zeros));
	event("ticks judged", L.size());
	event("ticks of 0 ms", (uint64_t) zeros);
	rep::steps += sent;
	rep::histories.insert(mix((uint64_t) mode, mix(L.size(), (uint64_t) sum)));
	rep::sample("mode " + std::to_string(mode) + ": " + std::to_string(L.size()) + " ticks, sum " + std::to_string(sum) + " ms of " + std::to_string((ended - t0) / 1000000) + " ms, longest gap " + std::to_string(gap / 1000000) + " ms, " + std::to_string(sent) + " messages");
	if (L.empty()) return "no tick at all in " + std::to_string((asked - t0) / 1000000) + " ms";
	int64_t limit = mode == 2 ? 1500 : 650;
	if (gap > limit * 1000000) return "no tick for " + std::to_string(gap / 1000000) + " ms";
	(void) seed;
	return "";
}

// ---------------------------------------------------------------- C18
struct term_state {
	std::atomic<int> dead{0};
	std::atomic<long> after_death{0}, ticks{0}, calls{0}, ticks_at_request{-1};
	std::atomic<int64_t> requested{0};
	reactor *r = nullptr;
	void request()
	{
		requested.store(now_ns(), RLX);
		r->terminate();
		// counted from here: the loop may go on between any earlier point and the request
		ticks_at_request.store(ticks.load(RLX), RLX);
	}
};
struct term_handler : handler_interface {
	term_state &s;
	int sleep_us = 0;
	int act = 0; // 1: terminate on a message, 2: throw on a message, 3: terminate on the nth tick, 4: terminate, then answer a lot
	int at_tick = 0;
	int answers = 0;
	bool counts_ticks = false;
	explicit term_handler(term_state &s) : s(s) {}
	void on_request(const message_container &m, const response_cb &respond) override
	{
		if (s.dead.load(RLX)) { s.after_death.fetch_add(1, RLX); return; }
		if (m.key == "timer") {
			if (counts_ticks) {
				long n = s.ticks.fetch_add(1, RLX) + 1;
				if (act == 3 && n == at_tick) s.request();
			}
			return;
		}
		s.calls.fetch_add(1, RLX);
		if (sleep_us) nap(sleep_us);
		bool magic = !m.data.empty() && m.data[0] == "magic";
		if (magic && act == 1) s.request();
		if (magic && act == 2) throw std::runtime_error("a handler fails");
		if (magic && act == 4) { s.request(); for (int i = 0; i < 300; ++i) respond(message_container("net", "p", {"late", std::to_string(i)})); }
		for (int i = 0; i < answers; ++i) respond(message_container(i % 2 ? "net" : "inner", "p", {"answer"}));
	}
};

static const char *TERM_NAMES[] = {"terminated before the loop", "terminated by another thread", "terminated by a synchronous handler", "terminated by an asynchronous handler", "terminated during a flood", "never started", "address that cannot be bound", "handler throws", "context shut down", "terminated by a tick", "terminated while starting", "terminated by an asynchronous handler that goes on answering", "started again after the end", "terminated twice"};

static void terminate_episode(uint64_t seed, int scenario, rng &g)
{
	std::string name = std::string(TERM_NAMES[scenario]);
	rep::phase("termination: " + name);
	auto ctx = std::make_shared<zmq::context_t>(1);
	void *peer = new_peer((void *) *ctx, "p"); // also starts the threads of the context
	nap(1000);
	int threads = thread_count();
	term_state st;
	std::vector<std::shared_ptr<term_handler>> hs;
	vi_reset();
	vi_phase(0);
	if (g.chance(50)) vi_delays(g.range(1, 8), g.range(50, 1500), seed);
	auto r = std::make_unique<reactor>(ctx);
	st.r = r.get();
	std::string addr = "inproc://term";
	std::string blocked = "inproc://taken";
	void *taker = nullptr;
	int bad_kind = (int) g.below(3);
	if (scenario == 6) {
		taker = new_peer((void *) *ctx, "t");
		zmq_bind(taker, blocked.c_str());
		addr = bad_kind == 0 ? blocked : bad_kind == 1 ? "tcp://127.0.0.1:notaport" : "nonsense://x";
		if (g.chance(50)) r->add_socket("aaa", std::make_shared<router_socket_wrapper>(ctx, "inproc://fine", true));
	}
	r->add_socket("net", std::make_shared<router_socket_wrapper>(ctx, addr, true));
	int n_async = scenario == 3 || scenario == 11 ? g.range(1, 3) : g.range(0, 3), n_sync = g.range(1, 2);
	auto keeper = std::make_shared<term_handler>(st);
	keeper->counts_ticks = true;
	if (scenario == 9) { keeper->act = 3; keeper->at_tick = g.range(1, 4); }
	hs.push_back(keeper);
	r->add_handler({"timer"}, keeper);
	for (int i = 0; i < n_async + n_sync; ++i) {
		auto h = std::make_shared<term_handler>(st);
		bool async = i < n_async;
		if (g.chance(40)) h->sleep_us = async ? g.range(100, 3000) : g.range(50, 500);
		if (g.chance(30)) h->answers = g.range(1, 3);
		if (scenario == 2 && i == n_async) h->act = 1;
		if (scenario == 3 && i == 0) h->act = 1;
		if (scenario == 7 && i == n_async) h->act = 2;
		if (scenario == 11 && i == 0) h->act = 4;
		std::vector<std::string> subs = {"net"};
		if (h->answers == 0 && g.chance(50)) subs.push_back("inner");
		if (g.chance(30)) subs.push_back("timer");
		if (async) r->add_async_handler(subs, h);
		else r->add_handler(subs, h);
		hs.push_back(h);
	}
	keeper.reset();
	if (g.chance(50)) hs.clear(); // only the reactor holds the handlers
	int pre = g.chance(40) ? g.range(1, 60) : 0;
	for (int i = 0; i < pre; ++i) r->process_message(message_container("inner", "x", {"early"}));
	zmq_connect(peer, "inproc://term");
	int backlog = g.chance(60) ? g.range(1, 60) : 0;
	for (int i = 0; i < backlog; ++i) peer_send(peer, {"work", std::to_string(i)});
	bool destroy_elsewhere = g.chance(40);
	bool ran = scenario != 5;
	std::string thrown;
	bool threw = false;
	std::atomic<int> returned{0}, started{0};
	int64_t returned_at = 0;
	if (scenario == 0) st.request();
	if (scenario == 13) { st.request(); r->terminate(); }
	std::thread loop;
	if (ran) {
		vi_phase(1);
		loop = std::thread([&] {
			started.store(1, RLX);
			try {
				r->start_loop();
			} catch (const std::exception &e) {
				thrown = e.what();
				threw = true;
			}
			returned_at = now_ns();
			returned.store(1, RLX);
		});
		switch (scenario) {
		case 6: {
			int64_t t = now_ns();
			while (!returned.load(RLX) && now_ns() - t < 5000000000ll) nap(1000);
			if (!returned.load(RLX)) r->terminate();
			break;
		}
		case 1: nap(g.range(0, 200000)); st.request(); break;
		case 2: case 3: case 7: case 11: nap(g.range(0, 3000)); peer_send(peer, {"magic"}); break;
		case 8: while (st.ticks.load(RLX) == 0) nap(200); nap(g.range(0, 20000)); st.requested.store(now_ns(), RLX); zmq_ctx_shutdown((void *) *ctx); break;
		case 10: if (g.chance(50)) nap(g.range(0, 400)); st.request(); break;
		case 12: nap(g.range(0, 20000)); st.request(); break;
		case 4: {
			// a flood that goes on until the loop has returned
			int64_t until = now_ns() + g.range(1, 40) * 1000000ll;
			long n = 0, after = 0;
			while (!returned.load(RLX)) {
				if (n - st.calls.load(RLX) / std::max(1, n_async + n_sync) < 60) { peer_send(peer, {"work", "flood"}); ++n; }
				else { nap(20); }
				if (now_ns() > until && !st.requested.load(RLX)) st.request();
				if (st.requested.load(RLX) && now_ns() - st.requested.load(RLX) > 40000000000ll) ++after;
				if (after > 200000000) break;
			}
			rep::steps += n;
			break;
		}
		default: break;
		}
		loop.join();
		if (scenario == 12 && !threw) {
			// the request stands: a loop started after it returns at once
			rep::phase("termination: second start");
			int64_t t = now_ns();
			std::thread again([&] { try { r->start_loop(); } catch (const std::exception &) { /* the address is in use by itself */ } });
			again.join();
			if (now_ns() - t > 10000000000ll) bad({"C18"}, "a loop started after termination took " + std::to_string((now_ns() - t) / 1000000) + " ms to return");
		}
	}
	vi_phase(0);
	bool expect_throw = scenario == 6 || scenario == 7 || scenario == 8;
	if (ran && threw && !expect_throw) bad({"C18", "C11"}, name + ": the loop failed: " + thrown);
	if (ran && expect_throw && !threw && scenario != 7) bad({"C18", "C22"}, name + ": the loop returned without an error");
	if (ran && !expect_throw && st.requested.load(RLX)) {
		int64_t took = (returned_at - st.requested.load(RLX)) / 1000000;
		long base = st.ticks_at_request.load(RLX);
		long more = base < 0 ? 0 : st.ticks.load(RLX) - base;
		if (more > 2) bad({"C18"}, name + ": " + std::to_string(more) + " more iterations after the request");
		if (took > 20000) bad({"C18"}, name + ": returned only " + std::to_string(took) + " ms after the request");
		event("loops that returned on request");
	}
	rep::phase("termination: destruction after " + name);
	if (destroy_elsewhere) { std::thread t([&] { r.reset(); }); t.join(); }
	else r.reset();
	st.dead.store(1, RLX);
	vi_delays(0, 0, 0);
	// all threads of the reactor are gone
	int left = 0;
	for (int i = 0; i < 400; ++i) {
		left = thread_count();
		if (left <= threads) break;
		nap(5000);
	}
	if (left > threads) bad({"C18"}, name + ": " + std::to_string(left - threads) + " threads are left after the reactor was destroyed");
	if (st.after_death.load(RLX)) bad({"C18"}, name + ": a handler was called after the reactor was destroyed");
	if (const char *v = vi_violation()) bad({"C19"}, name + ": socket discipline: " + v);
	zmq_close(peer);
	if (taker) zmq_close(taker);
	hit("C18", mix(mix((uint64_t) scenario, (uint64_t) n_async), mix((uint64_t) (pre > 0) + 2 * (backlog > 0) + 4 * destroy_elsewhere, (uint64_t) std::min(st.ticks.load(RLX), 5l))));
	hit("C19", mix(mix((uint64_t) scenario, 1919), (uint64_t) n_async));
	event(name);
	rep::histories.insert(mix((uint64_t) scenario, mix((uint64_t) st.calls.load(RLX), (uint64_t) st.ticks.load(RLX))));
	rep::sample(name + ": " + std::to_string(n_async) + " asynchronous and " + std::to_string(n_sync) + " synchronous handlers, " + std::to_string(pre + backlog) + " messages pending, " + std::to_string(st.calls.load(RLX)) + " calls, " + std::to_string(st.ticks.load(RLX)) + " ticks" + (threw ? ", failed: " + thrown : ""));
}

// ---------------------------------------------------------------- C24
static std::vector<std::string> random_frames(rng &g, int most = 6)
{
	std::vector<std::string> r;
	int n = g.range(1, most);
	for (int i = 0; i < n; ++i) {
		switch (g.below(8)) {
		case 0: r.push_back(""); break;
		case 1: r.push_back(std::string("\0", 1)); break;
		case 2: r.push_back(g.bytes(g.chance(50) ? 255 : 256)); break;
		case 3: r.push_back(g.bytes((std::size_t) g.range(8000, 9000))); break;
		case 4: r.push_back(g.chance(5) ? g.bytes(1 << 20) : std::string("a\0b", 3)); break;
		case 5: r.push_back(std::string(g.below(40), '\0')); break;
		default: r.push_back(g.bytes(g.below(60)));
		}
	}
	return r;
}

static void socket_episode(uint64_t seed, rng &g)
{
	rep::phase("socket");
	auto ctx = std::make_shared<zmq::context_t>(1);
	vi_delays(0, 0, 0);
	int mode = (int) g.below(4); // 0 bound inproc, 1 bound tcp, 2 bound ipc, 3 connecting to a router (like the monitor's)
	std::string addr = mode == 1 ? "tcp://127.0.0.1:*" : mode == 2 ? "ipc://" + g_scratch + "/sock" : "inproc://s";
	struct peer { std::string id; void *s; bool gone = false; std::vector<std::vector<std::string>> want; std::size_t got = 0; bool router = false; };
	std::vector<peer> peers;
	if (mode == 3) {
		// the wrapper connects to the address of one peer which has a fixed identity
		peer p;
		p.id = random_identity(g, 0);
		bool tcp = g.chance(50);
		p.s = new_peer((void *) *ctx, p.id, g.chance(50) ? ZMQ_ROUTER : ZMQ_DEALER);
		int type = 0;
		std::size_t tl = sizeof type;
		zmq_getsockopt(p.s, ZMQ_TYPE, &type, &tl);
		p.router = type == ZMQ_ROUTER;
		zmq_bind(p.s, tcp ? "tcp://127.0.0.1:*" : "inproc://m");
		char ep[256];
		std::size_t el = sizeof ep;
		zmq_getsockopt(p.s, ZMQ_LAST_ENDPOINT, ep, &el);
		addr = tcp ? ep : "inproc://m";
		peers.push_back(p);
	}
	router_socket_wrapper w(ctx, addr, mode != 3);
	w.initialize();
	void *raw = w.get_pollitem().socket;
	// (a socket of the code under test, queried here for the port it got; only one thread is involved)
	std::string wrapper_identity;
	auto poll_in = [&](int ms) {
		zmq_pollitem_t it = w.get_pollitem();
		if (it.socket != raw || !(it.events & ZMQ_POLLIN)) bad({"C24"}, "the poll item is not the socket's");
		return zmq_poll(&it, 1, ms) > 0;
	};
	if (mode != 3) {
		std::string where = addr;
		if (mode == 1) {
			char ep[256];
			std::size_t el = sizeof ep;
			zmq_getsockopt(raw, ZMQ_LAST_ENDPOINT, ep, &el);
			where = ep;
		}
		int n = g.range(1, 5);
		for (int i = 0; i < n; ++i) {
			peer p;
			p.id = random_identity(g, i);
			p.s = new_peer((void *) *ctx, g.chance(80) ? p.id : "");
			char idbuf[256];
			std::size_t il = sizeof idbuf;
			zmq_getsockopt(p.s, ZMQ_IDENTITY, idbuf, &il);
			if (!il) p.id = ""; // chosen by the socket
			zmq_connect(p.s, where.c_str());
			peers.push_back(p);
		}
		// introductions
		for (std::size_t i = 0; i < peers.size(); ++i) {
			peer_send(peers[i].s, {"hello", std::to_string(i)});
			message_container m;
			int64_t t0 = now_ns();
			bool got = false;
			while (!(got = poll_in(100)) && now_ns() - t0 < 20000000000ll) {}
			if (!got) { bad({"C24"}, "the message of a connected peer never arrived"); break; }
			m.data = {"left", "over"};
			if (!w.receive_message(m)) { bad({"C24"}, "receiving a message failed"); break; }
			if (m.data != std::vector<std::string>{"hello", std::to_string(i)}) bad({"C24"}, "received " + show(m.data) + " instead of the introduction of peer " + std::to_string(i));
			if (peers[i].id.empty()) peers[i].id = m.identity;
			else if (m.identity != peers[i].id) bad({"C24"}, "a message of peer " + show(peers[i].id) + " was received with the identity " + show(m.identity));
		}
	} else {
		// the peer can only be addressed when the connection stands: wait until a message gets through
		int64_t t0 = now_ns();
		bool up = false;
		std::vector<std::string> f;
		while (!up && now_ns() - t0 < 20000000000ll) {
			w.send_message(message_container("", peers[0].id, {"probe"}));
			nap(2000);
			while (peer_recv(peers[0].s, f)) { up = true; if (peers[0].router && f.size() > 1) wrapper_identity = f[0]; }
		}
		if (!up) { bad({"C24"}, "a message handed to a connected socket never arrived"); }
		nap(30000);
		while (peer_recv(peers[0].s, f)) {}
	}
	long sent = 0, dropped = 0, inbound = 0;
	auto collect = [&](bool all) {
		for (auto &p : peers) {
			if (p.gone) continue;
			std::vector<std::string> f;
			int64_t last = now_ns();
			while (true) {
				if (!peer_recv(p.s, f)) {
					if (all && p.got < p.want.size() && now_ns() - last < 15000000000ll) { nap(300); continue; }
					break;
				}
				last = now_ns();
				if (p.router) { if (f.empty()) continue; f.erase(f.begin()); }
				if (p.got >= p.want.size()) { bad({"C24"}, "peer " + show(p.id) + " got a message not meant for it: " + show(f)); break; }
				if (f != p.want[p.got]) { bad({"C24"}, "peer " + show(p.id) + " got " + show(f) + " instead of " + show(p.want[p.got])); p.got = p.want.size(); break; }
				++p.got;
			}
			if (all && p.got < p.want.size()) bad({"C24"}, std::to_string(p.want.size() - p.got) + " of " + std::to_string(p.want.size()) + " messages for peer " + show(p.id) + " never arrived, first " + show(p.want[p.got]));
		}
	};
	uint64_t history = (uint64_t) mode;
	int steps = g.range(20, 150);
	for (int i = 0; i < steps && rep::findings.size() < 50; ++i) {
		int what = (int) g.below(100);
		history = mix(history, (uint64_t) (what < 45 ? 0 : what < 55 ? 1 : what < 62 ? 2 : what < 90 ? 3 : 4));
		++rep::steps;
		if (what < 45) {
			auto &p = g.pick(peers);
			if (p.gone) continue;
			message_container m("key", p.id, random_frames(g));
			bool ok = w.send_message(m);
			if (!ok) bad({"C24"}, "sending to a connected peer failed");
			p.want.push_back(m.data);
			++sent;
			hit("C24", mix(mix(1, (uint64_t) mode), mix(m.data.size(), m.data[0].size() > 100)));
		} else if (what < 55) { // nobody has this identity
			std::string id = g.chance(20) ? "" : "?" + g.bytes(g.below(10));
			w.send_message(message_container("key", id, random_frames(g)));
			++dropped;
			hit("C24", mix(2, (uint64_t) mode));
		} else if (what < 62) { // nothing to send
			w.send_message(message_container("key", g.chance(70) ? g.pick(peers).id : "?no", {}));
			++dropped;
			hit("C24", mix(3, (uint64_t) mode));
		} else if (what < 90) {
			auto &p = g.pick(peers);
			if (p.gone) continue;
			auto f = random_frames(g);
			auto wire = f;
			if (p.router) { if (wrapper_identity.empty()) continue; wire.insert(wire.begin(), wrapper_identity); }
			if (!peer_send(p.s, wire)) continue;
			int64_t t0 = now_ns();
			bool got = false;
			while (!(got = poll_in(100)) && now_ns() - t0 < 20000000000ll) {}
			message_container m;
			m.identity = "stale";
			if (g.chance(50)) m.data = {"stale", "frames"};
			if (!got || !w.receive_message(m)) { bad({"C24"}, "the message of a connected peer never arrived"); continue; }
			if (m.identity != p.id || m.data != f) bad({"C24"}, "received " + show(m.identity) + " " + show(m.data) + " instead of " + show(p.id) + " " + show(f));
			++inbound;
			hit("C24", mix(mix(4, (uint64_t) mode), mix(f.size(), f[0].size() > 100)));
		} else if (what < 93 && peers.size() > 1 && mode != 3) {
			// a peer goes away; messages to it are lost, those to others are not
			auto &p = g.pick(peers);
			if (!p.gone) { collect(true); zmq_close(p.s); p.gone = true; }
			for (int k = 0; k < 3; ++k) w.send_message(message_container("key", p.id, random_frames(g)));
			hit("C24", mix(5, (uint64_t) mode));
		} else collect(false);
	}
	collect(true);
	nap(mode == 0 ? 500 : 5000);
	collect(false);
	for (auto &p : peers) if (!p.gone) zmq_close(p.s);
	event("messages to peers", (uint64_t) sent);
	event("messages that cannot be delivered", (uint64_t) dropped);
	event("messages from peers", (uint64_t) inbound);
	rep::histories.insert(history);
	rep::sample("mode " + std::to_string(mode) + ": " + std::to_string(peers.size()) + " peers, " + std::to_string(sent) + " sent, " + std::to_string(inbound) + " received, " + std::to_string(dropped) + " undeliverable");
	(void) seed;
}

// ---------------------------------------------------------------- the whole broker in this process (C19, C16)
static int free_port()
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	bind(fd, (sockaddr *) &a, sizeof a);
	socklen_t l = sizeof a;
	getsockname(fd, (sockaddr *) &a, &l);
	close(fd);
	return ntohs(a.sin_port);
}

static void stack_episode(uint64_t seed, rng &g)
{
	rep::phase("stack: start");
	http_server frontend;
	rng plan(seed ^ 0x55);
	frontend.plan = [&](std::size_t, const http_request &) {
		http_plan p;
		p.delay_ms = plan.chance(30) ? plan.range(1, 30) : 0;
		if (plan.chance(25)) p.status = 500;
		if (plan.chance(8)) p.close_early = true;
		return p;
	};
	if (!frontend.start()) { fprintf(stderr, "HARNESS no port for the frontend\n"); _exit(93); }
	vi_sleep_div(200);
	vi_reset();
	vi_phase(0);
	auto ctx = std::make_shared<zmq::context_t>(1);
	auto peers_ctx = zmq_ctx_new();
	int cp = 0, wp = 0, mp = free_port();
	auto logger = std::make_shared<spdlog::logger>("stack", std::make_shared<spdlog::sinks::null_sink_mt>());
	logger->set_level(spdlog::level::debug);
	std::unique_ptr<broker_connect> b;
	std::thread loop;
	std::atomic<int> returned{0};
	bool multi = g.chance(50);
	std::shared_ptr<worker_registry> registry;
	void *mon = new_peer(peers_ctx, "recodex-monitor", ZMQ_ROUTER);
	zmq_bind(mon, ("tcp://127.0.0.1:" + std::to_string(mp)).c_str());
	for (int attempt = 0; attempt < 5; ++attempt) {
		cp = free_port();
		wp = free_port();
		std::string yaml = "clients: {address: 127.0.0.1, port: " + std::to_string(cp) + "}\nworkers: {address: 127.0.0.1, port: " + std::to_string(wp) + ", ping_interval: 80, max_liveness: 4, max_request_failures: 2}\n" +
			"monitor: {address: 127.0.0.1, port: " + std::to_string(mp) + "}\nnotifier: {address: \"http://127.0.0.1:" + std::to_string(frontend.port) + "/api\", port: " + std::to_string(frontend.port) + ", username: u, password: p}\n";
		auto config = std::make_shared<broker_config>(YAML::Load(yaml));
		registry = std::make_shared<worker_registry>();
		std::shared_ptr<queue_manager_interface> q;
		if (multi) q = std::make_shared<multi_queue_manager>();
		else q = std::make_shared<single_queue_manager<>>();
		b = std::make_unique<broker_connect>(config, ctx, registry, q, logger);
		vi_phase(1);
		if (g.chance(70)) vi_delays(g.range(1, 5), g.range(50, 800), seed);
		returned.store(0, RLX);
		loop = std::thread([&] {
			try {
				b->start_brokering();
			} catch (const std::exception &) {
				// the context was shut down, or the port was taken in the meantime
			}
			returned.store(1, RLX);
		});
		nap(30000);
		if (!returned.load(RLX)) break;
		loop.join();
		b.reset();
	}
	if (!loop.joinable()) { fprintf(stderr, "HARNESS no ports\n"); _exit(93); }
	std::vector<void *> workers, clients;
	auto join = [&](std::vector<void *> &v, const std::string &id, int port) {
		void *s = new_peer(peers_ctx, id);
		zmq_connect(s, ("tcp://127.0.0.1:" + std::to_string(port)).c_str());
		v.push_back(s);
		return s;
	};
	int nw = g.range(1, 4), nc = g.range(1, 3);
	for (int i = 0; i < nw; ++i) { join(workers, "w" + std::to_string(i), wp); peer_send(workers.back(), {"init", "g", "env=c", "threads=2"}); }
	for (int i = 0; i < nc; ++i) join(clients, "c" + std::to_string(i), cp);
	rep::phase("stack: traffic");
	int64_t t0 = now_ns(), length = g.range(500, 1100) * 1000000ll;
	long job = 0, acks = 0, dispatched = 0, pongs = 0, accepted = 0;
	std::map<std::string, int> silent;
	while (now_ns() - t0 < length && !returned.load(RLX)) {
		if (g.chance(30)) { peer_send(g.pick(clients), {"eval", "job" + std::to_string(++job), "hwgroup=g", "env=c", "", "payload", g.bytes(20)}); }
		if (g.chance(5)) peer_send(g.pick(clients), {"get-runtime-stats"});
		if (g.chance(3)) peer_send(g.pick(clients), random_frames(g));
		if (g.chance(3)) peer_send(g.pick(workers), random_frames(g));
		std::vector<std::string> f;
		for (std::size_t i = 0; i < workers.size(); ++i) {
			while (peer_recv(workers[i], f)) {
				if (f.size() >= 2 && f[0] == "eval") {
					++dispatched;
					if (g.chance(20)) peer_send(workers[i], {"progress", f[1], "STEP"});
					int how = (int) g.below(10);
					if (how < 6) peer_send(workers[i], {"done", f[1], "OK"});
					else if (how < 8) peer_send(workers[i], {"done", f[1], "INTERNAL_ERROR", "broken"});
					else if (how < 9) peer_send(workers[i], {"done", f[1], "FAILED", "no"});
					else silent[std::to_string(i)] = 1;
				} else if (f.size() == 1 && f[0] == "pong") ++pongs;
				else if (f.size() == 1 && f[0] == "intro") { silent.erase(std::to_string(i)); peer_send(workers[i], {"init", "g", "env=c", "threads=2"}); }
			}
			if (silent.count(std::to_string(i)) ? g.chance(1) : g.chance(10)) peer_send(workers[i], {"ping"});
		}
		for (auto c : clients) while (peer_recv(c, f)) { if (!f.empty() && f[0] == "ack") ++acks; if (!f.empty() && f[0] == "accept") ++accepted; }
		while (peer_recv(mon, f)) event("progress messages at the monitor");
		nap(g.range(100, 3000));
		++rep::steps;
	}
	rep::phase("stack: end");
	if (returned.load(RLX)) bad({"C11", "C19"}, "the broker ended by itself");
	vi_phase(0);
	zmq_ctx_shutdown((void *) *ctx);
	loop.join();
	if (const char *v = vi_violation()) bad({"C19"}, std::string("broker: socket discipline: ") + v);
	b.reset();
	vi_delays(0, 0, 0);
	for (auto s : workers) zmq_close(s);
	for (auto s : clients) zmq_close(s);
	zmq_close(mon);
	zmq_ctx_term(peers_ctx);
	event("jobs dispatched by the whole broker", (uint64_t) dispatched);
	event("reports at the frontend", frontend.count());
	frontend.stop();
	vi_sleep_div(0);
	hit("C19", mix(mix(multi, (uint64_t) nw), mix((uint64_t) dispatched, (uint64_t) frontend.count())));
	rep::histories.insert(mix((uint64_t) dispatched, mix((uint64_t) acks, (uint64_t) pongs)));
	rep::sample(std::string("whole broker, ") + (multi ? "multi" : "single") + ": " + std::to_string(job) + " submissions, " + std::to_string(acks) + " acks, " + std::to_string(accepted) + " accepted, " + std::to_string(dispatched) + " dispatches, " + std::to_string(pongs) + " pongs, " + std::to_string(frontend.count()) + " reports");
}

#include "rea_broker.h"
#include "rea_program.h"

static bool run_profile(const std::string &p, uint64_t seed)
{
	rng g(seed ^ 0xABCDEF);
	if (p == "delivery" || p == "backlog" || p == "answers") {
		episode e(seed, g.chance(TSAN ? 90 : 40), p == "delivery" ? 0 : p == "backlog" ? 1 : 2);
		e.run(false);
		return true;
	}
	if (p == "ticks") {
		int mode = (int) g.below(6);
		std::string complaint;
		for (int attempt = 0; attempt < 4; ++attempt) {
			complaint = ticks_episode(seed, mode, g);
			if (complaint.empty()) return true;
			event("sparse ticks (not yet believed)");
			mode = mode == 2 ? 2 : mode; // the same conditions
		}
		bad({"C17"}, "mode " + std::to_string(mode) + ", in four runs out of four: " + complaint);
		return true;
	}
	if (p == "terminate") { terminate_episode(seed, (int) g.below(14), g); return true; }
	if (p == "sockets") { socket_episode(seed, g); return true; }
	if (p == "notify") { notify_episode(seed, g); return true; }
	if (p == "stall") { stall_episode(seed, g, false); return true; }
	if (p == "stallbig") { stall_episode(seed, g, true); return true; }
	if (p == "program") { program_episode(seed, g, true); return true; }
	if (p == "refused") { program_episode(seed, g, false); return true; }
	if (p == "wire") { wire_episode(seed, g); return true; }
	if (p == "stack") { stack_episode(seed, g); return true; }
	return false;
}
