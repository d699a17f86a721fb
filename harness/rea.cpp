// The event loop, its handlers and sockets under real threads: delivery (C15), ticks (C17), termination (C18), the
// router socket (C24), thread and socket discipline (C19, also as a ThreadSanitizer build).
#include "interpose.h"
#include "report.h"
#include "http.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <zmq.h>

#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"

using rep::bad;
using rep::event;
using rep::hit;

static int64_t now_ns()
{
	timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (int64_t) ts.tv_sec * 1000000000ll + ts.tv_nsec;
}
static int gettid_() { return (int) syscall(SYS_gettid); }
static void nap(long us)
{
	timespec ts = {us / 1000000, (us % 1000000) * 1000};
	syscall(SYS_nanosleep, &ts, nullptr);
}
static const auto RLX = std::memory_order_relaxed;
static std::string g_scratch;
#if defined(__SANITIZE_THREAD__)
static const bool TSAN = true;
#else
static const bool TSAN = false;
#endif

// ---------------------------------------------------------------- messages whose content follows from their tag
struct tag_t {
	int emitter = -1;
	long seq = -1;
	uint64_t seed = 0;
	std::string str() const
	{
		char b[80];
		snprintf(b, sizeof b, "#%d.%ld.%llx", emitter, seq, (unsigned long long) seed);
		return b;
	}
	static bool parse(const std::string &s, tag_t &t)
	{
		if (s.empty() || s[0] != '#' || s.size() > 79 || s.find('\0') != std::string::npos) return false;
		unsigned long long x;
		int n = 0;
		if (sscanf(s.c_str(), "#%d.%ld.%llx%n", &t.emitter, &t.seq, &x, &n) != 3 || (std::size_t) n != s.size()) return false;
		t.seed = x;
		return true;
	}
};
static std::vector<std::string> frames_of(uint64_t seed, bool light)
{
	rng g(seed ^ 0xF00D);
	std::vector<std::string> r;
	int n = (int) g.below(6);
	for (int i = 0; i < n; ++i) {
		switch (g.below(light ? 4 : 9)) {
		case 0: r.push_back(""); break;
		case 1: r.push_back(g.bytes(1)); break;
		case 2: r.push_back(std::string(1, '\0') + g.bytes(3)); break;
		case 7: r.push_back(g.bytes(300)); break;
		case 8: r.push_back(g.chance(8) ? g.bytes(70000) : g.bytes(33)); break;
		default: r.push_back(g.bytes(g.below(30)));
		}
	}
	return r;
}
// a message from handler to handler: the tag is the identity (then there may be no frames at all) or the first frame
static message_container to_handler(const std::string &key, const tag_t &t, bool light)
{
	rng g(t.seed ^ 0xBEEF);
	message_container m;
	m.key = key;
	m.data = frames_of(t.seed, light);
	if (g.chance(50)) m.identity = t.str();
	else { m.identity = g.chance(30) ? "" : "i" + g.bytes(g.below(20)); m.data.insert(m.data.begin(), t.str()); }
	return m;
}
static message_container for_socket(const std::string &key, const std::string &peer, const tag_t &t, bool light)
{
	message_container m;
	m.key = key;
	m.identity = peer;
	m.data = frames_of(t.seed, light);
	m.data.insert(m.data.begin(), t.str());
	return m;
}
static bool tag_of(const message_container &m, tag_t &t)
{
	if (tag_t::parse(m.identity, t)) return true;
	return !m.data.empty() && tag_t::parse(m.data[0], t);
}

struct emitted {
	std::string key, peer; // peer: only for sockets
	tag_t tag;
	bool to_socket = false;
};
struct received {
	std::string key;
	tag_t tag;
	std::string why; // not empty: damaged
	std::string from;
};

// ---------------------------------------------------------------- one episode of delivery
struct socket_spec {
	std::string key, addr;
	std::vector<std::string> peers;
	std::vector<void *> sock;
	bool bulk = true;
};

struct episode {
	uint64_t seed;
	rng g;
	bool light;
	int style; // 0 mixed, 1 backlog, 2 answers
	std::vector<socket_spec> sockets;
	std::vector<std::string> l1, l2;
	std::map<std::string, int> layer; // key -> layer (0 sockets)
	std::map<std::string, int> subscribers;
	std::atomic<long> expected{0}, arrived{0};
	std::atomic<int> gate{1};
	std::atomic<int> dead{0};
	std::atomic<int> calls_after_death{0};
	std::atomic<int> loop_tid{0};
	std::vector<emitted> driver_log;
	long driver_seq = 0;

	episode(uint64_t s, bool light, int style) : seed(s), g(s), light(light), style(style) {}

	struct handler : handler_interface {
		episode &e;
		int id;
		bool async;
		std::set<std::string> subs;
		int slow_us;
		bool gated;
		std::vector<received> log;
		std::vector<emitted> sent;
		std::vector<std::string> ticks;
		std::set<int> tids;
		std::atomic<int> inside{0};
		int inside_tid = 0;
		bool overlapped = false;
		long seq = 0;
		handler(episode &e, int id) : e(e), id(id) {}
		void on_request(const message_container &m, const response_cb &respond) override
		{
			if (e.dead.load(RLX)) { e.calls_after_death.fetch_add(1, RLX); return; }
			int me = gettid_();
			if (inside.fetch_add(1, RLX) > 0 && (async || inside_tid != me)) overlapped = true;
			inside_tid = me;
			tids.insert(me);
			if (m.key == "timer" && subs.count("timer")) {
				ticks.push_back(m.data.size() == 1 ? m.data[0] : "?");
				inside.fetch_sub(1, RLX);
				return;
			}
			if (gated) while (!e.gate.load(RLX)) nap(500);
			received r;
			r.key = m.key;
			if (!tag_of(m, r.tag)) r.why = "unrecognisable message " + show(m.identity) + " " + show(m.data);
			else {
				message_container want;
				auto l = e.layer.find(m.key);
				if (l == e.layer.end()) r.why = "unknown key " + show(m.key);
				else if (l->second == 0) {
					want = for_socket(m.key, m.identity, r.tag, e.light);
					r.from = m.identity;
				} else want = to_handler(m.key, r.tag, e.light);
				if (r.why.empty() && !(want == m)) r.why = "damaged: expected " + show(want.identity) + " " + show(want.data) + ", got " + show(m.identity) + " " + show(m.data);
			}
			if (r.why.empty() && !subs.count(m.key)) r.why = "not subscribed";
			log.push_back(r);
			if (slow_us) nap(slow_us);
			// what to do about it follows from the tag
			rng h(mix(r.tag.seed, (uint64_t) id * 77 + 5));
			if (r.why.empty() && (r.tag.seed & 1)) {
				int n = e.layer[m.key] == 2 ? (int) h.below(2) : (int) h.below(3);
				if (e.style == 2 && e.layer[m.key] == 0) n = (int) h.below(12);
				for (int i = 0; i < n; ++i) e.emit(*this, e.layer[m.key], (r.tag.seed & 2) != 0, h, respond);
			}
			e.arrived.fetch_add(1, RLX);
			inside.fetch_sub(1, RLX);
		}
	};
	std::vector<std::shared_ptr<handler>> handlers;

	void emit(handler &h, int from_layer, bool sockets_ok, rng &x, const handler_interface::response_cb &respond)
	{
		tag_t t;
		t.emitter = h.id;
		t.seed = x.next();
		if (!sockets_ok) t.seed &= ~2ull;
		if (from_layer >= 1 && x.chance(40)) t.seed &= ~1ull;
		bool to_sock = from_layer == 2 || x.chance(30);
		if (to_sock) {
			if (!sockets_ok) return;
			auto &s = x.pick(sockets);
			int what = (int) x.below(12);
			if (what == 0) { // nobody
				t.seq = -1;
				respond(for_socket(s.key, x.chance(40) ? "" : "nobody" + x.bytes(4), t, light));
				return;
			}
			if (what == 1) { // no frames: nothing to send
				respond(message_container(s.key, x.pick(s.peers), {}));
				return;
			}
			if (!s.bulk && h.seq > 250) return; // stay far below the limits of the network pipes
			t.seq = ++h.seq;
			emitted em{s.key, x.pick(s.peers), t, true};
			h.sent.push_back(em);
			expected.fetch_add(1, RLX);
			respond(for_socket(s.key, em.peer, t, light));
			return;
		}
		if (x.chance(4)) { t.seq = -1; respond(to_handler("nowhere", t, light)); return; }
		auto &keys = from_layer == 0 ? l1 : l2;
		auto &k = x.pick(keys);
		t.seq = ++h.seq;
		h.sent.push_back(emitted{k, "", t, false});
		expected.fetch_add(subscribers[k], RLX);
		respond(to_handler(k, t, light));
	}

	std::vector<received> peer_log[16]; // per peer (flattened index)

	void run(bool shutdown_race);
	void verify(const std::string &how);
	bool drain(bool any);
};

static std::string random_identity(rng &g, int i)
{
	std::string id(1, (char) ('a' + i));
	switch (g.below(4)) {
	case 0: return id;
	case 1: return id + g.bytes(g.range(1, 30));
	case 2: return id + g.bytes(200);
	default: return id + "-peer";
	}
}

static void *new_peer(void *ctx, const std::string &identity, int type = ZMQ_DEALER)
{
	void *s = zmq_socket(ctx, type);
	vi_ignore(s);
	int zero = 0;
	zmq_setsockopt(s, ZMQ_LINGER, &zero, sizeof zero);
	zmq_setsockopt(s, ZMQ_SNDHWM, &zero, sizeof zero);
	zmq_setsockopt(s, ZMQ_RCVHWM, &zero, sizeof zero);
	if (!identity.empty()) zmq_setsockopt(s, ZMQ_IDENTITY, identity.data(), identity.size());
	return s;
}
static bool peer_send(void *s, const std::vector<std::string> &frames)
{
	for (std::size_t i = 0; i < frames.size(); ++i)
		if (zmq_send(s, frames[i].data(), frames[i].size(), i + 1 < frames.size() ? ZMQ_SNDMORE : 0) < 0) return false;
	return true;
}
static bool peer_recv(void *s, std::vector<std::string> &frames)
{
	frames.clear();
	zmq_msg_t m;
	int more = 1;
	while (more) {
		zmq_msg_init(&m);
		int flags = frames.empty() ? ZMQ_DONTWAIT : 0;
		if (zmq_msg_recv(&m, s, flags) < 0) { zmq_msg_close(&m); return false; }
		frames.emplace_back((char *) zmq_msg_data(&m), zmq_msg_size(&m));
		more = zmq_msg_more(&m);
		zmq_msg_close(&m);
	}
	return true;
}

bool episode::drain(bool)
{
	bool got = false;
	int flat = 0;
	for (auto &s : sockets) {
		for (std::size_t p = 0; p < s.peers.size(); ++p, ++flat) {
			std::vector<std::string> f;
			while (peer_recv(s.sock[p], f)) {
				got = true;
				received r;
				r.key = s.key;
				r.from = s.peers[p];
				if (f.empty() || !tag_t::parse(f[0], r.tag)) r.why = "unrecognisable message " + show(f);
				else {
					auto want = for_socket(s.key, s.peers[p], r.tag, light);
					if (want.data != f) r.why = "damaged: expected " + show(want.data) + ", got " + show(f);
				}
				peer_log[flat].push_back(r);
				arrived.fetch_add(1, RLX);
			}
		}
	}
	return got;
}

static int thread_count()
{
	int n = 0;
	if (DIR *d = opendir("/proc/self/task")) {
		while (dirent *e = readdir(d)) if (e->d_name[0] != '.') ++n;
		closedir(d);
	}
	return n;
}

void episode::run(bool shutdown_race)
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	int n_sockets = style == 1 ? 1 : g.range(1, 3);
	int flat = 0;
	for (int i = 0; i < n_sockets; ++i) {
		socket_spec s;
		s.key = i == 0 ? "net" : i == 1 ? std::string("k\0y", 3) : "s2";
		s.bulk = style != 0 || g.chance(60);
		s.addr = s.bulk ? "inproc://ep" + std::to_string(i) : "ipc://" + g_scratch + "/e" + std::to_string(i);
		int n = style == 1 ? 1 : g.range(1, 3);
		for (int p = 0; p < n; ++p) s.peers.push_back(random_identity(g, flat++));
		sockets.push_back(s);
		layer[s.key] = 0;
	}
	l1 = {"one", g.chance(25) ? "TERMINATE" : "uno"};
	l2 = {g.chance(30) ? "" : "two", g.chance(30) ? std::string(300, 'k') : "dos"};
	for (auto &k : l1) layer[k] = 1;
	for (auto &k : l2) layer[k] = 2;
	int n_handlers = style == 1 ? 2 : g.range(2, 5);
	for (int i = 0; i < n_handlers; ++i) {
		auto h = std::make_shared<handler>(*this, i);
		h->async = style == 1 ? i == 0 : g.chance(55);
		h->gated = style == 1 && h->async;
		h->slow_us = style == 1 ? 0 : (g.chance(35) ? g.range(1, h->async ? 1500 : 300) : 0);
		for (auto &l : layer) if (g.chance(45)) h->subs.insert(l.first);
		if (g.chance(40)) h->subs.insert("timer");
		handlers.push_back(h);
	}
	// everything that is sent has a reader
	for (auto &l : layer) {
		bool any = false;
		for (auto &h : handlers) any = any || h->subs.count(l.first);
		if (!any || style == 1) for (auto &h : handlers) if (style == 1 || (!any && h == handlers[g.below(handlers.size())])) h->subs.insert(l.first), any = true;
		if (!any) handlers[0]->subs.insert(l.first);
	}
	for (auto &h : handlers) for (auto &k : h->subs) subscribers[k]++;

	vi_reset();
	vi_phase(0);
	if (g.chance(60)) vi_delays(g.range(1, 6), g.range(50, 1200), seed);
	else vi_delays(0, 0, 0);
	rep::phase("delivery: construction");
	auto r = std::make_unique<reactor>(ctx);
	for (auto &s : sockets) r->add_socket(s.key, std::make_shared<router_socket_wrapper>(ctx, s.addr, true));
	auto early = [&](const std::string &k) {
		tag_t t;
		t.emitter = 100;
		t.seq = ++driver_seq;
		t.seed = g.next() & ~2ull;
		driver_log.push_back(emitted{k, "", t, false});
		int n = 0;
		for (auto &h : handlers) if (h->subs.count(k)) ++n;
		expected.fetch_add(n, RLX);
		r->process_message(to_handler(k, t, light));
	};
	for (auto &h : handlers) {
		std::vector<std::string> subs(h->subs.begin(), h->subs.end());
		if (h->async) r->add_async_handler(subs, h);
		else r->add_handler(subs, h);
	}
	int n_early = g.chance(70) ? g.range(1, style == 1 ? 1500 : 30) : 0;
	for (int i = 0; i < n_early; ++i) early(g.chance(50) ? g.pick(l1) : g.pick(l2));
	if (style == 1) gate.store(0, RLX);

	flat = 0;
	for (auto &s : sockets) {
		for (auto &p : s.peers) {
			void *q = new_peer((void *) *ctx, p);
			zmq_connect(q, s.addr.c_str());
			s.sock.push_back(q);
			++flat;
		}
	}
	// the peers introduce themselves: the network socket can only address peers it has heard of
	auto inbound = [&](int si, int pi, uint64_t seed2) {
		auto &s = sockets[(std::size_t) si];
		tag_t t;
		int f = 0;
		for (int i = 0; i < si; ++i) f += (int) sockets[(std::size_t) i].peers.size();
		t.emitter = 200 + f + pi;
		t.seq = ++driver_seq;
		t.seed = seed2;
		driver_log.push_back(emitted{s.key, s.peers[(std::size_t) pi], t, false});
		expected.fetch_add(subscribers[s.key], RLX);
		auto m = for_socket(s.key, "", t, light);
		peer_send(s.sock[(std::size_t) pi], m.data);
	};
	for (std::size_t i = 0; i < sockets.size(); ++i)
		for (std::size_t p = 0; p < sockets[i].peers.size(); ++p) inbound((int) i, (int) p, g.next() & ~3ull);

	std::atomic<int> returned{0};
	std::string thrown;
	vi_phase(1);
	std::thread loop([&] {
		loop_tid.store(gettid_(), RLX);
		try {
			r->start_loop();
		} catch (const std::exception &e) {
			thrown = e.what();
		}
		returned.store(1, RLX);
	});
	auto wait = [&](bool final_one) {
		int64_t last = now_ns(), quiet = 0;
		long before = -1;
		while (true) {
			drain(true);
			long a = arrived.load(RLX), x = expected.load(RLX);
			if (returned.load(RLX)) return;
			if (a != before) { before = a; last = now_ns(); }
			if (a >= x) {
				if (!quiet) quiet = now_ns();
				if (now_ns() - quiet > (final_one ? 40 : 3) * 1000000ll) return;
			} else {
				quiet = 0;
				if (now_ns() - last > 20 * 1000000000ll) return; // no progress at all for a long time
			}
			nap(300);
		}
	};
	rep::phase("delivery: introduction");
	if (style == 1) {
		// the synchronous handler must see them while the asynchronous one is blocked
		int64_t t0 = now_ns();
		while (handlers[1]->inside.load(RLX) == 0 && arrived.load(RLX) == 0 && now_ns() - t0 < 20000000000ll) nap(500);
	} else wait(false);
	rep::phase("delivery: traffic");
	int total = style == 1 ? g.range(2500, 5000) : style == 2 ? g.range(50, 300) : g.range(30, 250);
	if (TSAN) total /= style == 1 ? 4 : 2;
	for (int i = 0; i < total; ++i) {
		int si = (int) g.below(sockets.size());
		inbound(si, (int) g.below(sockets[(std::size_t) si].peers.size()), style == 1 ? (g.next() & ~2ull) & (g.chance(20) ? ~0ull : ~1ull) : (g.next() | 2));
		++rep::steps;
		if (g.chance(10)) drain(true);
		if (g.chance(style == 1 ? 0 : 4)) nap(g.range(10, 2500));
	}
	if (style == 1) {
		// let the backlog build up: everything has been passed on when the synchronous handler has seen it all
		int64_t t0 = now_ns();
		long before = -1;
		while (now_ns() - t0 < 5000000000ll) {
			long a = arrived.load(RLX);
			if (a == before) break;
			before = a;
			nap(60000);
		}
		event("largest backlog of an asynchronous handler", 0);
		{
			std::lock_guard<std::mutex> l(rep::mutex);
			auto &v = rep::events["largest backlog of an asynchronous handler"];
			v = std::max<uint64_t>(v, (uint64_t) std::max(0l, expected.load(RLX) - arrived.load(RLX)));
		}
		gate.store(1, RLX);
	}
	rep::phase("delivery: waiting for the rest");
	wait(true);
	r->terminate();
	rep::phase("delivery: termination");
	loop.join();
	vi_phase(0);
	if (!thrown.empty()) bad({"C15", "C18", "C11"}, "the event loop failed: " + thrown);
	r.reset();
	dead.store(1, RLX);
	vi_delays(0, 0, 0);
	drain(true);
	rep::phase("delivery: end");
	nap(2000);
	for (auto &s : sockets) for (auto q : s.sock) zmq_close(q);
	if (calls_after_death.load(RLX)) bad({"C18"}, "a handler was called after the reactor was destroyed");
	verify("");
	(void) shutdown_race;
}

void episode::verify(const std::string &)
{
	uint64_t history = 0;
	// what was sent under each key
	std::map<std::string, std::vector<emitted>> sent; // handler keys and inbound sockets
	std::map<std::pair<std::string, std::string>, std::vector<emitted>> out; // (socket, peer)
	for (auto &e : driver_log) sent[e.key].push_back(e);
	for (auto &h : handlers)
		for (auto &e : h->sent) {
			if (e.to_socket) out[{e.key, e.peer}].push_back(e);
			else sent[e.key].push_back(e);
		}
	auto judge = [&](const std::string &who, const std::vector<emitted> &want, const std::vector<received> &got, bool async, bool network) {
		std::vector<std::string> props = {"C15"};
		if (network) props.push_back("C24");
		std::map<std::string, int> seen;
		std::map<int, long> last;
		bool told_order = false;
		for (auto &r : got) {
			if (!r.why.empty()) { bad(props, who + ": " + r.why); continue; }
			seen[r.tag.str()]++;
			auto &l = last[r.tag.emitter];
			if (r.tag.seq <= l && seen[r.tag.str()] == 1 && !told_order) {
				told_order = true;
				bad({"C15"}, who + ": message " + r.tag.str() + " came after a later one (" + std::to_string(l) + ") of the same sender");
			}
			l = std::max(l, r.tag.seq);
		}
		int missing = 0, twice = 0;
		std::string example;
		std::set<std::string> known;
		for (auto &e : want) {
			known.insert(e.tag.str());
			int n = seen.count(e.tag.str()) ? seen[e.tag.str()] : 0;
			if (n == 0) { if (!missing++) example = e.tag.str(); }
			if (n > 1) { if (!twice++) example = e.tag.str(); }
		}
		if (missing) bad(props, who + ": " + std::to_string(missing) + " of " + std::to_string(want.size()) + " messages never arrived, e.g. " + example);
		if (twice) bad(props, who + ": " + std::to_string(twice) + " messages arrived more than once, e.g. " + example);
		for (auto &r : got)
			if (r.why.empty() && !known.count(r.tag.str())) { bad(props, who + ": got a message not meant for it: " + r.tag.str()); break; }
		uint64_t s = mix(mix((uint64_t) async + 2 * network, std::min<std::size_t>(want.size(), 40)), last.size());
		uint64_t order = 0;
		for (auto &r : got) order = mix(order, (uint64_t) r.tag.emitter);
		hit("C15", mix(s, order));
		if (network) hit("C24", mix(s, order));
		history = mix(history, order);
		event(async ? "deliveries to asynchronous handlers" : network ? "deliveries to network peers" : "deliveries to synchronous handlers", got.size());
	};
	std::map<std::string, std::vector<std::string>> orders;
	for (auto &h : handlers) {
		std::map<std::string, std::vector<received>> by_key;
		for (auto &r : h->log) {
			if (!r.why.empty() && !h->subs.count(r.key)) bad({"C15"}, "handler " + std::to_string(h->id) + " got a message of a key it is not subscribed to: " + show(r.key) + ": " + r.why);
			by_key[r.key].push_back(r);
		}
		for (auto &k : h->subs) {
			if (k == "timer") continue;
			std::string who = std::string(h->async ? "asynchronous" : "synchronous") + " handler " + std::to_string(h->id) + ", key '" + show(k).substr(0, 20) + "'";
			judge(who, sent[k], by_key[k], h->async, false);
			if (layer[k] == 0) {
				for (auto &r : by_key[k]) {
					// the identity must be the one of the peer that sent it
					int f = 0;
					for (auto &s : sockets) for (auto &p : s.peers) { if (200 + f == r.tag.emitter && r.why.empty() && p != r.from) bad({"C15", "C24"}, who + ": the message of peer " + show(p) + " has the identity " + show(r.from)); ++f; }
				}
				hit("C24", mix(7, by_key[k].size()));
			}
			std::vector<std::string> order;
			for (auto &r : by_key[k]) order.push_back(r.tag.str());
			if (!orders.count(k)) orders[k] = order;
			else if (orders[k] != order && orders[k].size() == order.size()) {
				std::size_t i = 0;
				while (orders[k][i] == order[i]) ++i;
				bad({"C15"}, who + ": sees the messages of the key in another order than another handler (position " + std::to_string(i) + ": " + order[i] + " / " + orders[k][i] + ")");
			}
		}
		// threads
		if (h->overlapped) bad({"C19"}, "handler " + std::to_string(h->id) + ": two calls at the same time");
		if (h->async) {
			if (h->tids.size() > 1) bad({"C19"}, "asynchronous handler " + std::to_string(h->id) + " was called from " + std::to_string(h->tids.size()) + " threads");
			if (h->tids.count(loop_tid.load(RLX)) || h->tids.count(gettid_())) bad({"C19"}, "asynchronous handler " + std::to_string(h->id) + " was called from the thread of the main loop");
		} else {
			for (auto t : h->tids) if (t != loop_tid.load(RLX) && t != gettid_()) bad({"C19"}, "synchronous handler " + std::to_string(h->id) + " was called from a foreign thread");
		}
		hit("C19", mix(mix(h->async, h->slow_us > 0), mix(h->log.size(), h->tids.size())));
	}
	for (std::size_t i = 0; i < handlers.size(); ++i)
		for (std::size_t j = i + 1; j < handlers.size(); ++j)
			if (handlers[i]->async && handlers[j]->async)
				for (auto t : handlers[i]->tids) if (handlers[j]->tids.count(t)) bad({"C19"}, "two asynchronous handlers share a thread");
	// ticks: everybody subscribed sees the same ones
	const std::vector<std::string> *longest = nullptr;
	for (auto &h : handlers) if (h->subs.count("timer") && (!longest || h->ticks.size() > longest->size())) longest = &h->ticks;
	if (longest)
		for (auto &h : handlers) {
			if (!h->subs.count("timer")) continue;
			if (!h->async && h->ticks.size() != longest->size()) bad({"C15"}, "synchronous handlers got different numbers of ticks");
			for (std::size_t i = 0; i < h->ticks.size(); ++i)
				if (h->ticks[i] != (*longest)[i]) { bad({"C15", "C17"}, "handlers were given different ticks: '" + show(h->ticks[i]) + "' and '" + show((*longest)[i]) + "'"); break; }
			event("ticks", h->ticks.size());
		}
	int flat = 0;
	for (auto &s : sockets)
		for (auto &p : s.peers) {
			std::string who = "peer " + show(p).substr(0, 20) + " of socket '" + show(s.key) + "'";
			judge(who, out[{s.key, p}], peer_log[flat], false, true);
			++flat;
		}
	if (const char *v = vi_violation()) bad({"C19"}, std::string("socket discipline: ") + v);
	hit("C19", mix(history, 19));
	rep::histories.insert(history);
	if (rep::samples.size() < 6) {
		std::string s = "style " + std::to_string(style) + ", " + std::to_string(sockets.size()) + " sockets, handlers";
		for (auto &h : handlers) s += std::string(" ") + (h->async ? "async" : "sync") + "(" + std::to_string(h->log.size()) + " received, " + std::to_string(h->sent.size()) + " sent)";
		rep::sample(s);
	}
}

#include "rea_more.h"

int main(int argc, char **argv)
{
	std::string out, profile = "delivery";
	uint64_t seed = 1;
	long budget = 0; // seconds
	int64_t budget_from = budget_clock();
	long runs = 10;
	bool one = false;
	int hang = 60;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") out = next();
		else if (a == "--profile") profile = next();
		else if (a == "--seed") seed = std::stoull(next());
		else if (a == "--budget") budget = std::stol(next());
		else if (a == "--runs") runs = std::stol(next());
		else if (a == "--epseed") { rep::epseed = std::stoull(next()); one = true; }
		else if (a == "--trace") rep::trace = true;
		else if (a == "--broker") g_broker = next();
		else if (a == "--hang") hang = std::stoi(next());
	}
	rep::install();
	rep::start_watchdog();
	rep::profile = profile;
	std::string dirname = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : "/tmp") + "/rea-XXXXXX";
	char *dir = &dirname[0];
	if (!mkdtemp(dir)) { fprintf(stderr, "HARNESS no scratch directory\n"); return 93; }
	g_scratch = dir;
	int rc = 0;
	int64_t began = now_ns();
	for (long i = 0; i < runs; ++i) {
		if (budget && i > 0 && budget_clock() - budget_from > budget) break;
		if (!one) rep::epseed = mix(mix(seed, hash_str(profile)), (uint64_t) i);
		rep::watch(hang);
		if (!run_profile(profile, rep::epseed)) { fprintf(stderr, "HARNESS unknown profile %s\n", profile.c_str()); rc = 93; break; }
		++rep::episodes;
		if (one || rep::findings.size() > 100 || (!rep::findings.empty() && now_ns() - began > 30000000000ll)) break;
	}
	rep::watch(0);
	event("socket operations: sends", vi_count(0));
	event("socket operations: receives", vi_count(1));
	event("socket operations: polls", vi_count(2));
	event("injected delays", vi_count(5));
	if (DIR *d = opendir(dir)) {
		while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((g_scratch + "/" + e->d_name).c_str());
		closedir(d);
	}
	rmdir(dir);
	if (rc) return rc;
	return rep::output(out);
}
