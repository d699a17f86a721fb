// Simulator of clients, workers and hostile peers around the real broker_handler, with an online trace monitor.
//
// The broker logic (broker_handler + worker_registry + one of the queue managers) runs unmodified; time is virtual
// (clock ticks are messages). Every step hands one message to the handler, records everything it sends, compares
// the registry before and after, and judges the step against a specification state kept from inputs and outputs
// only. A violation names the properties it contradicts.
#include "common.h"

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <memory>
#include <signal.h>
#include <sstream>
#include <sys/syscall.h>
#include <time.h>
#include <unordered_set>
#include <unistd.h>

#include "broker_connect.h"
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker.h"
#include "worker_registry.h"
#include <spdlog/sinks/base_sink.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

// ---------------------------------------------------------------- clocks the code under test sees
static int64_t g_real_offset_ns = 0; // may go backwards
static int64_t g_mono_offset_ns = 0; // only grows
extern "C" int clock_gettime(clockid_t id, struct timespec *ts)
{
	long r = syscall(SYS_clock_gettime, id, ts);
	if (r != 0) return (int) r;
	int64_t off = 0;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) off = g_real_offset_ns;
	else if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME) off = g_mono_offset_ns;
	if (off) {
		int64_t n = (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec + off;
		ts->tv_sec = n / 1000000000ll;
		ts->tv_nsec = n % 1000000000ll;
	}
	return 0;
}

using frames = std::vector<std::string>;
using headers_t = std::multimap<std::string, std::string>;
using props = std::set<std::string>;

// ---------------------------------------------------------------- results of the whole process
struct finding { props p; std::string msg, profile; uint64_t seed; long step; };
static std::vector<finding> g_findings;
struct counter { long evals = 0; std::unordered_set<uint64_t> distinct; };
static counter g_hits[100];
static std::map<std::string, long> g_events;
static std::unordered_set<uint64_t> g_histories, g_states;
static std::vector<std::string> g_samples;
static long kind_count[20];
static long g_steps = 0, g_episodes = 0;
static bool g_trace = false;
static std::string g_profile;
static uint64_t g_epseed;
static long g_step;
static std::string g_text = "(nothing yet)";
static const message_container *g_message = nullptr;
static std::string current() { return g_message ? g_message->key + " from '" + show(g_message->identity) + "' " + show(g_message->data) : g_text; }

static void hit(const char *p, uint64_t sig) { auto &c = g_hits[(p[1] - '0') * 10 + p[2] - '0']; ++c.evals; if (c.distinct.size() < 200000) c.distinct.insert(sig); }

static void death_note()
{
	fprintf(stderr, "DEATH profile=%s epseed=%llu step=%ld input=%s\n", g_profile.c_str(), (unsigned long long) g_epseed, g_step, current().c_str());
	fflush(stderr);
}
static void on_signal(int s)
{
	fprintf(stderr, "%s signal=%d\n", s == SIGALRM ? "HANG" : "CRASH", s);
	death_note();
	_exit(s == SIGALRM ? 91 : 92);
}

// ---------------------------------------------------------------- memory held by the code under test
// Allocations made while the handler runs (and not in our callback) are tracked until they are freed.
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static bool g_inside = false;
static long g_live_bytes = 0, g_live_count = 0;
static const size_t TABLE = 1u << 20;
static const volatile void *g_tab_ptr[TABLE];
static size_t g_tab_size[TABLE];
static size_t slot_of(const volatile void *p) { return (((uintptr_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 40) & (TABLE - 1); }
static void malloc_hook(const volatile void *p, size_t n)
{
	if (!g_inside || !p) return;
	size_t i = slot_of(p);
	for (size_t k = 0; k < 4096; ++k, i = (i + 1) & (TABLE - 1)) {
		if (g_tab_ptr[i] && g_tab_ptr[i] != (const void *) 1) continue;
		g_tab_ptr[i] = p; g_tab_size[i] = n;
		g_live_bytes += (long) n; g_live_count++;
		return;
	}
}
static void free_hook(const volatile void *p)
{
	if (!p || !g_live_count) return;
	size_t i = slot_of(p);
	for (size_t k = 0; k < 4096; ++k, i = (i + 1) & (TABLE - 1)) {
		if (!g_tab_ptr[i]) return;
		if (g_tab_ptr[i] != p) continue;
		g_tab_ptr[i] = (const void *) 1;
		g_live_bytes -= (long) g_tab_size[i]; g_live_count--;
		return;
	}
}

// ---------------------------------------------------------------- reference reading of requirements
static bool plain_number(const std::string &s)
{
	if (s.empty() || s.size() > 18) return false;
	for (char c : s) if (c < '0' || c > '9') return false;
	return true;
}
static bool ref_header(const std::string &hwgroup, const headers_t &declared, const std::string &k, const std::string &v)
{
	if (k == "hwgroup") {
		std::size_t at = 0;
		while (at <= v.size()) {
			std::size_t end = v.find('|', at);
			if (end == std::string::npos) end = v.size();
			if (end > at && v.substr(at, end - at) == hwgroup) return true;
			at = end + 1;
		}
		return false;
	}
	auto r = declared.equal_range(k);
	for (auto it = r.first; it != r.second; ++it) {
		if (k == "threads") {
			if (plain_number(v) && plain_number(it->second) && std::stol(it->second) >= std::stol(v)) return true;
		} else if (it->second == v) return true;
	}
	return false;
}
static bool ref_headers(const std::string &hwgroup, const headers_t &declared, const headers_t &req)
{
	for (auto &h : req) if (!ref_header(hwgroup, declared, h.first, h.second)) return false;
	return true;
}
static std::string ref_hex(const std::string &s)
{
	std::string r;
	char b[4];
	for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; }
	return r;
}

// ---------------------------------------------------------------- reading of input messages
enum kind { K_EVAL, K_EVAL_BAD, K_STATS, K_FREEZE, K_UNFREEZE, K_CLIENT_JUNK, K_INIT, K_INIT_BAD, K_DONE, K_PING, K_PROGRESS, K_WORKER_JUNK, K_TICK, K_OTHER };
static const char *kind_name[] = {"eval", "eval-malformed", "stats", "freeze", "unfreeze", "client-junk", "init", "init-malformed", "done", "ping", "progress", "worker-junk", "tick", "other"};
struct parsed {
	kind k = K_OTHER;
	bool ambiguous = false; // the properties do not settle what it means: never generated
	std::string id, hwgroup, description, current_job, status, message;
	bool has_job = false;
	bool done_valid = false;
	headers_t headers;
	frames payload;
	long ms = 0;
};
static bool split_header(const std::string &f, std::string &k, std::string &v)
{
	auto p = f.find('=');
	if (p == std::string::npos) { k = f; v = f; return false; }
	k = f.substr(0, p);
	v = f.substr(p + 1);
	return true;
}
static bool odd_number(const std::string &v) { return !plain_number(v) && !(v.empty() || isalpha((unsigned char) v[0])); }
static parsed read_message(const message_container &m)
{
	parsed r;
	auto &d = m.data;
	if (m.key == "timer") { r.k = K_TICK; r.ms = std::stol(d.at(0)); return r; }
	if (m.key == "clients") {
		r.k = K_CLIENT_JUNK;
		if (d[0] == "get-runtime-stats" || d[0] == "freeze" || d[0] == "unfreeze") {
			r.k = d[0] == "freeze" ? K_FREEZE : d[0] == "unfreeze" ? K_UNFREEZE : K_STATS;
			if (d.size() > 1) r.ambiguous = true;
		} else if (d[0] == "eval") {
			r.k = K_EVAL_BAD;
			if (d.size() > 1) r.id = d[1];
			std::size_t i = 2;
			for (; i < d.size() && !d[i].empty(); ++i) {
				std::string k, v;
				if (!split_header(d[i], k, v)) { r.ambiguous = true; }
				if (k == "threads" && odd_number(v)) r.ambiguous = true;
				if (k.substr(0, 5) == "meta.") continue;
				r.headers.emplace(k, v);
			}
			if (i < d.size()) {
				r.k = K_EVAL;
				if (r.id.empty()) r.ambiguous = true;
				r.payload.assign(d.begin() + i + 1, d.end());
			} else r.ambiguous = false;
		}
		return r;
	}
	if (m.key == "workers") {
		r.k = K_WORKER_JUNK;
		if (d[0] == "ping") { r.k = K_PING; if (d.size() > 1) r.k = K_WORKER_JUNK; }
		else if (d[0] == "progress") { r.k = K_PROGRESS; r.payload.assign(d.begin() + 1, d.end()); }
		else if (d[0] == "done") {
			r.k = K_DONE;
			if (d.size() > 1) r.id = d[1];
			if (d.size() > 2) r.status = d[2];
			if (d.size() > 3) r.message = d[3];
			if (d.size() >= 3) {
				if (r.status == "OK") { r.done_valid = true; if (d.size() > 4) r.ambiguous = true; }
				else if (r.status == "FAILED" || r.status == "INTERNAL_ERROR") { r.done_valid = d.size() == 4; if (d.size() > 4) r.ambiguous = true; }
			}
		} else if (d[0] == "init") {
			if (d.size() < 2) { r.k = K_INIT_BAD; return r; }
			r.k = K_INIT;
			r.hwgroup = d[1];
			if (r.hwgroup.empty()) r.ambiguous = true;
			std::size_t i = 2;
			std::string k, v;
			std::map<std::string, int> nk;
			for (; i < d.size() && !d[i].empty(); ++i) {
				if (!split_header(d[i], k, v) && k.substr(0, 4) != "junk") r.ambiguous = true;
				if (k == "hwgroup" || (k == "threads" && odd_number(v))) r.ambiguous = true;
				r.headers.emplace(k, v);
			}
			for (; i < d.size(); ++i) {
				bool eq = split_header(d[i], k, v);
				if (k == "description") { if (!eq || nk[k]++) r.ambiguous = true; r.description = v; }
				if (k == "current_job") { if (!eq || nk[k]++ || v.empty()) r.ambiguous = true; r.has_job = true; r.current_job = v; }
			}
		}
		return r;
	}
	return r;
}

// ---------------------------------------------------------------- specification state
enum jstate { J_WAITING, J_RUNNING, J_DONE };
struct job {
	std::string id;
	headers_t headers;
	frames payload;
	bool announced = false;
	jstate st = J_WAITING;
	long submit_step = 0, wait_since = 0;
	long hand_step = -1, hand_pos = -1; // multi mode: handed over in this step as the n-th job waiting for hand_from
	std::string hand_from;
	std::size_t failures = 0, sends = 0;
	int finals = 0;
	bool by_death = false, by_rereg = false, during_freeze = false;
	std::set<std::string> bound; // multi mode: workers whose queue may hold it (empty: unknown)
	const char *how = "";
};
using job_p = std::shared_ptr<job>;
struct workerm {
	std::string identity, hwgroup, description;
	headers_t headers;
	job_p cur;
	int64_t heard = 0;
	int64_t maxtick = 0;
	long reg_step = 0, last_idle = -1;
	long chosen = 0; // 0: never
	bool chosen_known = true;
	int registrations = 1;
	bool spoke = false;
	std::vector<std::pair<long, long>> sent; // (step, submission of the job)
	std::map<std::pair<long, std::string>, std::pair<long, std::string>> handed; // latest of the jobs handed over together that it was sent
	bool capable(const headers_t &h) const { return ref_headers(hwgroup, headers, h); }
};

struct profile {
	std::string name;
	int steps = 300;
	// weights of actions
	int submit = 20, burst = 2, finish = 30, ping = 15, progress = 5, tick = 10, quiet = 3, revive = 6, arrive = 4, reinit_same = 2, reinit_diff = 1, announce = 1, freeze = 0, stats = 3, hostile = 0, stale = 2, badone = 1, bigtick = 2, massdeath = 0, clockjump = 2;
	int fail_pct = 10, internal_pct = 15;
	int max_workers = 6, burst_size = 10;
	int homogeneous = 0; // percent of episodes with all workers alike
	int unservable = 10; // percent of submissions nobody declared
	int multi_pct = 50;
	int max_tracked = 400;
};

class simulation
{
public:
	rng R;
	profile P;
	bool multi;
	std::size_t L, F;
	long I;
	std::shared_ptr<worker_registry> registry = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> queue;
	std::shared_ptr<broker_handler> handler;
	std::shared_ptr<broker_config> config;
	bool track_memory = false;
	bool broken = false; // the broker threw: episode over
	std::size_t viol_before;

	// specification state
	std::map<std::string, job_p> jobs; // submitted and accepted
	std::set<std::string> rejected, frozen_rejected, malformed, announced_ids, used_ids;
	std::map<std::string, workerm> W;
	int64_t now = 0;
	bool ticked = false, frozen = false, ever_frozen = false;
	long evaluated = 0, failed = 0;
	std::map<std::string, long> snapshot;
	long choose_counter = 0;
	std::vector<job_p> waiting;
	uint64_t history = 0;
	std::deque<std::string> tail;

	// actors
	struct actor { std::string identity, hwgroup, desc; frames header_frames; bool alive = true; std::string held; std::vector<std::string> past; bool known_dead = false; };
	std::vector<actor> A;
	int next_id = 0, next_worker = 0;
	std::vector<std::string> clients;

	simulation(const profile &p, uint64_t seed) : R(seed), P(p)
	{
		multi = R.chance(P.multi_pct);
		L = R.range(1, 5);
		F = R.range(1, 4);
		I = R.chance(20) ? R.range(1, 10) : R.range(50, 2000);
		YAML::Node n;
		n["workers"]["max_liveness"] = L;
		n["workers"]["ping_interval"] = I;
		n["workers"]["max_request_failures"] = F;
		config = std::make_shared<broker_config>(n);
		if (config->get_max_worker_liveness() != L || config->get_max_request_failures() != F || config->get_worker_ping_interval().count() != I) {
			fprintf(stderr, "HARNESS configuration was not taken over\n");
			_exit(93);
		}
		if (multi) queue = std::make_shared<multi_queue_manager>();
		else queue = std::make_shared<single_queue_manager<>>();
		auto sink = std::make_shared<line_sink>(lines);
		auto logger = std::make_shared<spdlog::logger>("sim", sink);
		logger->set_level(spdlog::level::trace);
		handler = std::make_shared<broker_handler>(config, registry, queue, logger);
		for (int i = R.range(1, 4); i > 0; --i) clients.push_back(random_identity());
		viol_before = g_findings.size();
		log("config mode=" + std::string(multi ? "multi" : "single") + " liveness=" + std::to_string(L) + " max_failures=" + std::to_string(F) + " interval=" + std::to_string(I));
	}

	bool logging() const { return g_trace || g_samples.empty(); }
	void log(const std::string &s)
	{
		if (g_trace) { printf("%s\n", s.c_str()); fflush(stdout); }
		if (g_samples.empty()) { tail.push_back(s); if (tail.size() > 40) tail.pop_front(); }
	}
	void bad(props p, const std::string &msg)
	{
		log("  !!! " + msg);
		if (g_findings.size() - viol_before > 60) return;
		if (g_findings.size() < 5000) g_findings.push_back({p, msg, P.name, g_epseed, g_step});
	}

	std::string random_identity()
	{
		std::string s;
		do {
			switch (R.below(4)) {
			case 0: s = std::string(1, '\0') + R.bytes(4); break;
			case 1: s = "peer" + std::to_string(next_worker++); break;
			case 2: s = R.bytes(R.range(1, 8)); break;
			default: s = "w\x80\xff" + std::to_string(next_worker++); break;
			}
		} while (seen_identities.count(s));
		seen_identities.insert(s);
		return s;
	}
	std::set<std::string> seen_identities;

	// ------------------------------------------------------------ one step
	std::vector<message_container> step(const std::string &key, const std::string &identity, frames data)
	{
		std::vector<message_container> out;
		if (broken) return out;
		for (auto &f : data) f.shrink_to_fit();
		data.shrink_to_fit();
		message_container m(key, identity, data);
		m.data.shrink_to_fit();
		parsed in = read_message(m);
		++g_steps;
		g_step++;
		struct scope { ~scope() { g_message = nullptr; } } scope_;
		g_message = &m;
		if (logging()) log("[" + std::to_string(g_step) + "] " + current());
		kind_count[in.k]++;
		alarm(60);
		try {
			std::function<void(const message_container &)> cb = [&](const message_container &o) { bool in_ = g_inside; g_inside = false; out.push_back(o); g_inside = in_; };
			lines.clear();
			names_before.clear();
			for (auto &w : W) names_before[w.first] = w.second.description;
			g_inside = track_memory;
			handler->on_request(m, cb);
			g_inside = false;
		} catch (const std::exception &e) {
			g_inside = false;
			bad({"*"}, std::string("uncaught exception kills the broker: ") + e.what() + " after " + current());
			broken = true;
			return out;
		} catch (...) {
			g_inside = false;
			bad({"*"}, "uncaught exception kills the broker after " + current());
			broken = true;
			return out;
		}
		if (logging()) for (auto &o : out) log("      -> " + o.key + " '" + show(o.identity) + "' " + show(o.data));
		observe(m, in, out);
		judge_names(m, out);
		// actors learn what they were sent
		for (auto &o : out)
			if (o.key == "workers" && o.data.size() >= 2 && o.data[0] == "eval")
				for (auto &a : A)
					if (a.identity == o.identity) { if (!a.held.empty()) a.past.push_back(a.held); a.held = o.data[1]; }
		return out;
	}

	// ------------------------------------------------------------ how workers are named in logs and reports (C28)
	struct line_sink : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
		std::vector<std::string> &to;
		explicit line_sink(std::vector<std::string> &to) : to(to) {}
		void sink_it_(const spdlog::details::log_msg &msg) override
		{
			bool in_ = g_inside;
			g_inside = false;
			to.emplace_back(msg.payload.data(), msg.payload.size());
			g_inside = in_;
		}
		void flush_() override {}
	};
	std::vector<std::string> lines;
	std::map<std::string, std::string> names_before;

	void judge_names(const message_container &m, const std::vector<message_container> &out)
	{
		if (lines.empty() && out.empty()) return;
		std::map<std::string, std::set<std::string>> names; // identity -> descriptions it has or had in this step
		for (auto &n : names_before) names[n.first].insert(n.second);
		for (auto &w : W) names[w.first].insert(w.second.description);
		auto hexdigit = [](char c) { return isxdigit((unsigned char) c) != 0; };
		auto look = [&](const std::string &text, bool report, const std::string &about) {
			for (auto &n : names) {
				const std::string &id = n.first;
				if (id.size() < 4) continue;
				std::string h = ref_hex(id);
				for (std::size_t at = text.find(h); at != std::string::npos; at = text.find(h, at + 1)) {
					if ((at && hexdigit(text[at - 1])) || (at + h.size() < text.size() && hexdigit(text[at + h.size()]))) continue;
					hit("C28", mix(mix(step_kind, report), hash_str(id)));
					g_events[report ? "names in reports" : "names in log lines"]++;
					bool fits = false;
					for (auto &d : n.second) fits = fits || d.empty() || text.compare(at + h.size(), d.size() + 3, " (" + d + ")") == 0;
					if (!fits) bad({"C28"}, std::string(report ? "a report" : "a log line") + " names worker '" + show(id) + "' without its description '" + show(*n.second.rbegin()) + "': " + show(text));
					if (report && id != m.identity && !died_now.count(id) && !gone_workers.count(id)) bad({"C28"}, "a report names worker '" + show(id) + "' which has nothing to do with it: " + show(text));
					if (report && !about.empty() && died_now.count(id)) {
						// somebody who died was running the job: then that is the one to be named
						bool runner = false, this_one = false;
						// (a job which was announced by a worker may wait for, or run on, others at the same time)
						for (auto &g : gone_workers)
							if (g.second.cur && g.second.cur->id == about) { runner = true; this_one = this_one || g.first == id || g.second.cur->announced || announced_ids.count(about); }
						if (runner) hit("C28", mix(3, died_now.size()));
						if (runner && !this_one) bad({"C28"}, "the report about job '" + show(about) + "' names worker '" + show(id) + "' which was not running it: " + show(text));
					}
				}
				// its bytes as they are
				bool plain = true;
				for (char c : id) plain = plain && hexdigit(c);
				if (plain || text.find(id) == std::string::npos) continue;
				bool elsewhere = false;
				for (auto &f : m.data) elsewhere = elsewhere || f.find(id) != std::string::npos;
				for (auto &j : jobs) elsewhere = elsewhere || j.first.find(id) != std::string::npos;
				for (auto &k : names) for (auto &d : k.second) elsewhere = elsewhere || d.find(id) != std::string::npos;
				if (!elsewhere) bad({"C28"}, std::string(report ? "a report" : "a log line") + " names worker '" + show(id) + "' by its bytes: " + show(text));
			}
		};
		for (auto &l : lines) look(l, false, "");
		for (auto &o : out)
			if (o.key == "status_notifier")
			{
				std::string about;
				for (std::size_t i = 0; i + 1 < o.data.size(); i += 2) if (o.data[i] == "id") about = o.data[i + 1];
				for (std::size_t i = 0; i + 1 < o.data.size(); i += 2) if (o.data[i] == "message") look(o.data[i + 1], true, about);
			}
	}

	bool any_capable(const headers_t &h)
	{
		for (auto &w : W) if (w.second.capable(h)) return true;
		return false;
	}

	// expectations of one step
	struct expectation { std::string status; props tags; bool monitor_failed; };
	std::multimap<std::string, expectation> exp_final;
	std::map<std::string, props> exp_aborted;
	std::map<std::string, props> no_fail; // ids whose FAILED report would be a violation of these
	job_p step_job; // job whose attempt ended in this step
	kind step_kind;
	std::string step_sender;
	bool step_invalid_done = false, step_replaced = false;
	std::set<std::string> died_now;

	void set_waiting(const job_p &j)
	{
		j->st = J_WAITING;
		j->wait_since = g_step;
		j->bound.clear();
		if (std::find(waiting.begin(), waiting.end(), j) == waiting.end()) waiting.push_back(j);
	}
	void drop_waiting(const job_p &j) { waiting.erase(std::remove(waiting.begin(), waiting.end(), j), waiting.end()); }
	void finish(const job_p &j, const char *how)
	{
		if (j->st == J_WAITING) drop_waiting(j);
		j->st = J_DONE;
		j->how = how;
	}

	uint64_t sig(uint64_t extra = 0)
	{
		auto b = [](std::size_t n) -> uint64_t { return n < 4 ? n : n < 8 ? 4 : n < 16 ? 5 : n < 64 ? 6 : 7; };
		uint64_t idle = 0;
		for (auto &w : W) idle += !w.second.cur;
		uint64_t h = mix(mix(mix(mix(multi, step_kind), b(W.size())), b(waiting.size())), b(idle));
		return mix(mix(mix(h, frozen), mix(L, F)), extra);
	}

	// multi mode: who may have been chosen for a job that is enqueued now; `to` is the worker it was sent to at once
	void choose(const job_p &j, const std::string &to, bool judged)
	{
		std::vector<workerm *> cand;
		for (auto &w : W) if (w.second.capable(j->headers)) cand.push_back(&w.second);
		auto minimal = [&](workerm *c) {
			if (!c->chosen_known) return true;
			for (auto o : cand) if (o->chosen_known && o->chosen < c->chosen) return false;
			return true;
		};
		if (!to.empty()) {
			auto it = W.find(to);
			if (it == W.end()) return;
			if (judged) {
				hit("C25", sig(mix(cand.size(), it->second.chosen == 0)));
				if (it->second.capable(j->headers) && !minimal(&it->second)) bad({"C25"}, "job '" + show(j->id) + "' was given to worker '" + show(to) + "' although another capable worker was chosen less recently");
			}
			it->second.chosen = ++choose_counter;
			it->second.chosen_known = true;
			return;
		}
		std::vector<workerm *> targets;
		for (auto c : cand) if (c->cur && minimal(c)) targets.push_back(c);
		if (judged) hit("C25", sig(mix(cand.size(), 100 + targets.size())));
		if (targets.empty()) {
			if (judged && !cand.empty()) bad({"C25", "C02"}, "job '" + show(j->id) + "' was put into a queue although the capable workers chosen least recently are idle");
			for (auto c : cand) c->chosen_known = false;
			return;
		}
		if (targets.size() == 1) {
			targets[0]->chosen = ++choose_counter;
			targets[0]->chosen_known = true;
			j->bound = {targets[0]->identity};
		} else {
			for (auto t : targets) { t->chosen_known = false; j->bound.insert(t->identity); }
		}
	}
	void unknown_choice(const job_p &j)
	{
		for (auto &w : W) if (w.second.capable(j->headers)) w.second.chosen_known = false;
	}

	void on_dispatch(const std::string &to, const frames &d)
	{
		g_events["out:dispatch"]++;
		const std::string id = d.size() > 1 ? d[1] : "";
		auto jt = jobs.find(id);
		if (jt == jobs.end()) {
			props t = {"C01", "C09"};
			if (announced_ids.count(id)) t.insert("C13");
			if (malformed.count(id)) { t.insert("C10"); t.insert("C11"); }
			if (frozen_rejected.count(id)) t.insert("C26");
			if (rejected.count(id)) { t.insert("C10"); t.insert("C03"); }
			bad(t, "something that is not an accepted job was sent to worker '" + show(to) + "': " + show(d));
			auto wt = W.find(to);
			if (wt != W.end() && wt->second.cur) bad({"C04", "C13"}, "worker '" + show(to) + "' was sent '" + show(id) + "' while it is busy with '" + show(wt->second.cur->id) + "'");
			return;
		}
		job_p j = jt->second;
		j->sends++;
		auto wt = W.find(to);
		hit("C04", sig(1));
		hit("C05", sig(mix(2, j->failures)));
		if (j->sends > F) bad({"C05"}, "job '" + show(id) + "' was sent to workers " + std::to_string(j->sends) + " times, the limit is " + std::to_string(F));
		if (j->st == J_DONE) {
			props t = {"C01"};
			if (j->failures >= F) t.insert("C05");
			if (!strcmp(j->how, "FAILED by worker")) t.insert("C05");
			if (step_invalid_done) t.insert("C14");
			bad(t, "job '" + show(id) + "' was sent to a worker after its final status (" + j->how + ")");
			return;
		}
		if (j->st == J_RUNNING) {
			props t = {"C04"};
			if (step_invalid_done) t.insert("C14");
			if (step_kind == K_INIT) t.insert("C27");
			if (step_kind == K_TICK) t.insert("C07");
			bad(t, "job '" + show(id) + "' was sent to worker '" + show(to) + "' while another worker is running it");
			for (auto &w : W) if (w.second.cur == j) w.second.cur = nullptr;
		}
		// the payload
		frames want = {"eval", id};
		want.insert(want.end(), j->payload.begin(), j->payload.end());
		hit("C09", mix(mix(want.size(), j->sends), hash_str(P.name) ^ multi ^ (j->payload.empty() ? 0 : std::min<std::size_t>(j->payload[0].size(), 8))));
		if (d != want) bad({"C09"}, "worker '" + show(to) + "' received " + show(d) + " instead of " + show(want));
		if (wt == W.end()) {
			props t = {"C04", "C03"};
			if (step_kind == K_TICK) { t.insert("C05"); t.insert("C07"); }
			bad(t, "job '" + show(id) + "' was sent to '" + show(to) + "' which is not a registered worker" + (died_now.count(to) ? " (declared dead in this step)" : ""));
			j->st = J_RUNNING; // as far as the broker is concerned it is gone
			drop_waiting(j);
			return;
		}
		workerm &w = wt->second;
		if (w.cur) {
			props t = {"C04"};
			if (w.cur->announced) t.insert("C13");
			if (step_invalid_done) t.insert("C14");
			if (w.registrations > 1) t.insert("C27");
			bad(t, "worker '" + show(to) + "' was sent '" + show(id) + "' while it is busy with '" + show(w.cur->id) + "'");
		}
		hit("C03", mix(hash_str(w.hwgroup), [&] { uint64_t h = w.headers.size(); for (auto &x : j->headers) h = mix(h, hash_str(x.first + "=" + x.second)); for (auto &x : w.headers) h = mix(h, hash_str(x.first + "=" + x.second)); return h; }()));
		if (!w.capable(j->headers)) {
			props t = {"C03"};
			if (w.registrations > 1) t.insert("C27");
			bad(t, "job '" + show(id) + "' was sent to worker '" + show(to) + "' which does not satisfy its requirements");
		}
		// order
		bool retried_at_once = step_kind == K_DONE && step_job == j && to == step_sender;
		if (!multi) {
			for (auto &y : waiting) {
				if (retried_at_once) break; // not overtaking: it goes on where it failed
				if (y == j || !w.capable(y->headers)) continue;
				hit("C08", sig(mix(waiting.size(), y->wait_since < j->submit_step)));
				if (y->wait_since < j->submit_step) { bad({"C08"}, "job '" + show(id) + "' (submitted in step " + std::to_string(j->submit_step) + ") overtook job '" + show(y->id) + "' waiting since step " + std::to_string(y->wait_since) + " on worker '" + show(to) + "'"); break; }
			}
		} else if (j->st == J_WAITING && j->wait_since < g_step) {
			hit("C08", sig(w.sent.size()));
			for (auto &s : w.sent)
				if (s.first > j->wait_since && s.second > j->wait_since) { bad({"C08"}, "job '" + show(id) + "' waiting since step " + std::to_string(j->wait_since) + " was overtaken on worker '" + show(to) + "' by a job submitted in step " + std::to_string(s.second)); break; }
			hit("C02", sig(5));
			if (w.last_idle >= j->wait_since && w.last_idle < g_step) bad({"C02"}, "worker '" + show(to) + "' was idle after step " + std::to_string(w.last_idle) + " although job '" + show(id) + "' was waiting in its queue since step " + std::to_string(j->wait_since));
			if (!j->bound.empty()) {
				hit("C25", sig(7));
				if (!j->bound.count(to)) bad({"C25"}, "job '" + show(id) + "' was bound to another worker than '" + show(to) + "' which got it");
			}
			if (w.reg_step > j->wait_since) bad({"C25"}, "job '" + show(id) + "' waiting since step " + std::to_string(j->wait_since) + " was sent to worker '" + show(to) + "' which arrived later");
		}
		if (multi && j->st == J_WAITING && j->hand_pos >= 0 && j->hand_step == j->wait_since) {
			auto &h = w.handed[{j->hand_step, j->hand_from}];
			if (!h.second.empty()) hit("C08", sig(mix(88, (uint64_t) j->hand_pos)));
			if (!h.second.empty() && h.first > j->hand_pos) bad({"C08"}, "job '" + show(id) + "' waited for worker '" + show(j->hand_from) + "' before job '" + show(h.second) + "' did, but after both were handed over in step " + std::to_string(j->hand_step) + " worker '" + show(to) + "' got the latter first");
			h = {j->hand_pos, j->id};
		}
		drop_waiting(j);
		j->st = J_RUNNING;
		j->bound.clear();
		w.cur = j;
		if (!retried_at_once) w.sent.emplace_back(g_step, j->submit_step);
		if (w.sent.size() > 600) w.sent.erase(w.sent.begin(), w.sent.begin() + 200);
		dispatched.emplace_back(j, to);
	}
	std::vector<std::pair<job_p, std::string>> dispatched;

	// the job of a worker that is gone (death or replaced registration), and the waiting jobs
	void lose_jobs(const std::vector<job_p> &running, const std::set<std::string> &gone, bool rereg)
	{
		const props base = rereg ? props{"C27"} : props{"C07"};
		auto with = [&](std::initializer_list<const char *> l) { props p = base; for (auto x : l) p.insert(x); return p; };
		for (auto &j : running) {
			j->failures++;
			j->by_death = true;
			if (rereg) j->by_rereg = true;
			if (j->announced) {
				exp_final.emplace(j->id, expectation{"FAILED", with({"C13", "C01"}), true});
				finish(j, "lost with its worker");
				hit("C13", sig(3));
			} else if (j->failures >= F) {
				exp_final.emplace(j->id, expectation{"FAILED", with({"C05", "C01"}), true});
				finish(j, "given up: limit of failures");
				hit("C05", sig(mix(4, j->failures)));
			} else if (any_capable(j->headers)) {
				set_waiting(j);
				requeued.push_back(j);
				exp_aborted[j->id] = base;
				no_fail[j->id] = with({"C05", "C01"});
				hit("C05", sig(mix(5, j->failures)));
			} else {
				exp_final.emplace(j->id, expectation{"FAILED", with({"C01"}), true});
				finish(j, "given up: no capable worker");
			}
			hit("C07", sig(mix(j->failures, mix(j->announced, mix((int) j->st, gone.size())))));
		}
		std::map<std::string, std::vector<job_p>> behind; // jobs certainly waiting for a worker that is gone
		if (multi)
			for (auto &j : waiting)
				if (j->bound.size() == 1 && gone.count(*j->bound.begin()) && std::find(running.begin(), running.end(), j) == running.end()) behind[*j->bound.begin()].push_back(j);
		for (auto &b : behind) {
			auto together = [](const job_p &x, const job_p &y) { return x->hand_pos >= 0 && y->hand_pos >= 0 && x->hand_step == x->wait_since && y->hand_step == y->wait_since && x->hand_from == y->hand_from; };
			std::stable_sort(b.second.begin(), b.second.end(), [&](const job_p &x, const job_p &y) { return x->wait_since != y->wait_since ? x->wait_since < y->wait_since : together(x, y) && x->hand_pos < y->hand_pos; });
			std::vector<long> pos(b.second.size());
			for (std::size_t i = 0; i < pos.size(); ++i) {
				bool known = true;
				for (std::size_t k = 0; k < pos.size(); ++k) if (k != i && b.second[k]->wait_since == b.second[i]->wait_since && !together(b.second[k], b.second[i])) known = false;
				pos[i] = known ? (long) i : -1;
			}
			for (std::size_t i = 0; i < pos.size(); ++i) { b.second[i]->hand_step = g_step; b.second[i]->hand_from = b.first; b.second[i]->hand_pos = pos[i]; }
		}
		for (auto &j : std::vector<job_p>(waiting)) {
			if (std::find(running.begin(), running.end(), j) != running.end()) continue;
			bool touched = false;
			for (auto &g : gone) if (gone_workers.at(g).capable(j->headers)) touched = true;
			if (!any_capable(j->headers)) {
				exp_final.emplace(j->id, expectation{"FAILED", with({"C01"}), true});
				finish(j, "given up: no capable worker");
				hit("C07", sig(mix(77, gone.size())));
			} else {
				if (touched) {
					hit("C07", sig(mix(78, gone.size())));
					hit("C05", sig(mix(78, gone.size())));
				}
				no_fail[j->id] = with({"C05", "C01"});
				if (multi && touched) {
					bool certain_elsewhere = !j->bound.empty();
					for (auto &g : gone) if (j->bound.count(g)) certain_elsewhere = false;
					if (!certain_elsewhere) { j->wait_since = g_step; j->bound.clear(); rebound.push_back(j); }
				}
			}
		}
	}
	std::vector<job_p> requeued, rebound;
	std::map<std::string, workerm> gone_workers;

	void observe(const message_container &m, const parsed &in, const std::vector<message_container> &out)
	{
		exp_final.clear(); exp_aborted.clear(); no_fail.clear(); died_now.clear(); dispatched.clear(); requeued.clear(); rebound.clear(); gone_workers.clear();
		step_kind = in.k;
		step_sender = m.identity;
		step_invalid_done = false;
		step_job = nullptr;
		step_replaced = false;
		history = mix(history, mix(in.k, out.size()));

		// ---- sort the outputs
		std::vector<message_container> to_clients, to_monitor, reports;
		std::vector<std::pair<std::string, frames>> dispatches;
		int pongs = 0, intros = 0, other_worker = 0;
		for (auto &o : out) {
			if (o.key == "clients") to_clients.push_back(o);
			else if (o.key == "monitor") to_monitor.push_back(o);
			else if (o.key == "status_notifier") reports.push_back(o);
			else if (o.key == "workers") {
				if (o.data.size() >= 1 && o.data[0] == "eval") dispatches.emplace_back(o.identity, o.data);
				else if (o.data == frames{"pong"} && o.identity == m.identity && m.key == "workers") ++pongs;
				else if (o.data == frames{"intro"} && o.identity == m.identity && m.key == "workers") ++intros;
				else { ++other_worker; bad({"C09", "C06", "C11"}, "unexpected message to worker '" + show(o.identity) + "': " + show(o.data)); }
			} else bad({"C11"}, "message to an unknown destination '" + show(o.key) + "'");
		}

		// ---- the registry after the step
		std::map<std::string, int> reg;
		for (auto &w : registry->get_workers()) reg[w->identity]++;
		for (auto &r : reg) if (r.second > 1) {
			props t = {"C04"};
			if (in.k == K_INIT) t.insert("C27");
			bad(t, "worker '" + show(r.first) + "' is registered " + std::to_string(r.second) + " times");
		}
		hit("C04", sig(2));
		if (m.key == "workers") {
			auto it = W.find(m.identity);
			if (it != W.end()) { it->second.heard = now; it->second.maxtick = 0; }
		}
		if (in.k == K_TICK) {
			now += in.ms;
			for (auto &w : W) w.second.maxtick = std::max<int64_t>(w.second.maxtick, in.ms);
		}
		bool known_before = m.key == "workers" && W.count(m.identity);
		auto &me = m.key == "workers" && known_before ? W.at(m.identity) : dummy;

		// ---- who disappeared
		std::set<std::string> gone;
		for (auto &w : W) if (!reg.count(w.first)) gone.insert(w.first);
		if (in.k == K_TICK) {
			for (auto &w : W) {
				int64_t silence = now - w.second.heard;
				hit("C06", mix(mix(mix(L, gone.count(w.first)), w.second.spoke), mix(std::min<int64_t>(silence * 4 / I, 40), w.second.maxtick > I)));
				if (gone.count(w.first)) {
					if (silence < (int64_t) L * I) bad({"C06"}, "worker '" + show(w.first) + "' was declared dead after " + std::to_string(silence) + " ms of silence (liveness " + std::to_string(L) + ", interval " + std::to_string(I) + ")");
				} else if (silence > (int64_t) L * (I + w.second.maxtick)) bad({"C06"}, "worker '" + show(w.first) + "' is still registered after " + std::to_string(silence) + " ms of silence (liveness " + std::to_string(L) + ", interval " + std::to_string(I) + ", longest tick " + std::to_string(w.second.maxtick) + ")");
			}
		} else if (!gone.empty()) {
			bad({"C06", "C11"}, "worker '" + show(*gone.begin()) + "' disappeared while a message of another kind was processed");
		}
		if (known_before) me.spoke = true;

		// ---- effect of the input
		bool rejected_now = false, accepted_now = false;
		job_p new_job;
		std::vector<std::string> expect_clients_exact; // kinds
		switch (in.k) {
		case K_EVAL: {
			bool cap = any_capable(in.headers);
			// the verdict of the broker
			frames answers;
			for (auto &c : to_clients) if (c.identity == m.identity) answers.push_back(c.data.empty() ? "" : c.data[0]);
			hit("C10", sig(mix(1, mix(cap, in.headers.size()))));
			bool ok = answers.size() == 2 && answers[0] == "ack" && (answers[1] == "accept" || answers[1] == "reject") && to_clients.size() == 2;
			if (ok && answers[1] == "accept" && to_clients[1].data.size() != 1) ok = false;
			if (ok && answers[1] == "reject" && (to_clients[1].data.size() != 2 || to_clients[1].data[1].empty())) ok = false;
			if (!ok) {
				props t = {"C10"};
				if (frozen) t.insert("C26");
				bad(t, "a submission was not answered by 'ack' and one of 'accept' and 'reject'");
			}
			for (auto &a : answers) { if (a == "accept") accepted_now = true; if (a == "reject") rejected_now = true; }
			if (frozen) {
				hit("C26", sig(1));
				if (accepted_now || !rejected_now) bad({"C26"}, "a frozen broker did not reject a submission");
				if (!dispatches.empty() || !reports.empty() || !to_monitor.empty()) bad({"C26"}, "a submission to a frozen broker had an effect");
			} else {
				if (ever_frozen) hit("C26", sig(mix(2, cap)));
				hit("C03", mix(sig(3), mix(cap, hash_headers(in.headers))));
				props t = {"C03"};
				if (ever_frozen) t.insert("C26");
				if (cap && !accepted_now) bad(t, "a submission was not accepted although a capable worker is registered: " + current());
				if (!cap && accepted_now) bad({"C03"}, "a submission was accepted although no capable worker is registered: " + current());
				if (rejected_now) {
					int n = 0;
					for (auto &x : to_monitor) if (x.data == frames{in.id, "FAILED"} && x.identity == "recodex-monitor") ++n;
					if (n != 1) bad({"C03"}, "the monitor was told " + std::to_string(n) + " times that a rejected job failed");
				}
			}
			if (accepted_now) {
				new_job = std::make_shared<job>();
				new_job->id = in.id; new_job->headers = in.headers; new_job->payload = in.payload;
				new_job->submit_step = g_step;
				jobs[in.id] = new_job;
				set_waiting(new_job);
				g_events["accepted"]++;
			} else {
				(frozen ? frozen_rejected : rejected).insert(in.id);
				g_events["rejected"]++;
				hit("C01", sig(9));
			}
			break;
		}
		case K_EVAL_BAD:
			hit("C10", sig(mix(2, m.data.size())));
			hit("C11", sig(mix(2, m.data.size())));
			malformed.insert(in.id);
			for (auto &c : to_clients) if (c.data.empty() || c.data[0] == "accept") bad({"C10", "C11"}, "a truncated submission was accepted");
			break;
		case K_STATS: check_stats(m, to_clients); break;
		case K_FREEZE: case K_UNFREEZE:
			hit("C26", sig(mix(3, in.k)));
			hit("C10", sig(mix(3, in.k)));
			if (to_clients.size() != 1 || to_clients[0].identity != m.identity || to_clients[0].data != frames{"ack"}) bad({"C10", "C26"}, "a freeze or unfreeze request was not acknowledged exactly once");
			if (to_clients.size() != out.size()) bad({"C10", "C26"}, "a freeze or unfreeze request had a side effect");
			frozen = in.k == K_FREEZE;
			if (frozen) { ever_frozen = true; for (auto &j : jobs) if (j.second->st != J_DONE) j.second->during_freeze = true; }
			break;
		case K_INIT: observe_init(m, in, out, reports, known_before, gone, reg); break;
		case K_DONE: {
			if (known_before && in.done_valid && me.cur && me.cur->id == in.id) {
				job_p j = me.cur;
				step_job = j;
				me.cur = nullptr;
				g_events["done:" + in.status]++;
				if (in.status == "OK") {
					++evaluated;
					props t = {"C01"};
					if (j->announced) t.insert("C13");
					if (j->by_death) t.insert("C07");
					if (me.registrations > 1) t.insert("C27");
					if (frozen) t.insert("C26");
					exp_final.emplace(j->id, expectation{"OK", t, false});
					finish(j, "OK");
				} else if (in.status == "FAILED") {
					++failed;
					j->failures++;
					props t = {"C01", "C05"};
					if (j->announced) t.insert("C13");
					if (frozen) t.insert("C26");
					exp_final.emplace(j->id, expectation{"FAILED", t, false});
					finish(j, "FAILED by worker");
					hit("C05", sig(mix(11, j->failures)));
				} else {
					++failed;
					j->failures++;
					hit("C05", sig(mix(10, mix(j->failures, j->announced))));
					if (j->announced) {
						exp_final.emplace(j->id, expectation{"FAILED", {"C13", "C01"}, false});
						finish(j, "announced job failed");
					} else if (j->failures >= F) {
						exp_final.emplace(j->id, expectation{"FAILED", {"C05", "C01"}, true});
						finish(j, "given up: limit of failures");
					} else if (any_capable(j->headers)) {
						set_waiting(j);
						requeued.push_back(j);
						no_fail[j->id] = {"C05", "C01"};
						if (frozen) no_fail[j->id].insert("C26");
					} else {
						exp_final.emplace(j->id, expectation{"FAILED", {"C05", "C01"}, true});
						finish(j, "given up: no capable worker");
					}
				}
				hit("C01", sig(mix(hash_str(in.status), j->failures)));
				if (j->announced) hit("C13", sig(mix(hash_str(in.status), 1)));
				if (frozen) hit("C26", sig(mix(4, hash_str(in.status))));
				hit("C12", sig(mix(8, hash_str(in.status))));
			} else {
				step_invalid_done = true;
				int why = !known_before ? 0 : !me.cur ? 1 : me.cur->id != in.id ? 2 : 3;
				hit("C14", mix(mix(sig(why), std::min<std::size_t>(m.data.size(), 6)), jobs.count(in.id)));
				g_events["stale-done"]++;
				if (!out.empty()) {
					props t = {"C14"};
					for (auto &r : reports) { (void) r; t.insert("C01"); }
					bad(t, "a result that is not valid for its sender had an effect: " + current() + " -> " + out[0].key + " " + show(out[0].data));
				}
			}
			break;
		}
		case K_PING:
			hit("C06", sig(mix(known_before, 99)));
			if (known_before ? !(pongs == 1 && intros == 0) : !(pongs == 0 && intros == 1)) bad({"C06"}, std::string("a ping of ") + (known_before ? "a registered" : "an unknown") + " worker was not answered by exactly one " + (known_before ? "'pong'" : "'intro'"));
			if (out.size() > 1) bad({"C06", "C11"}, "a ping had a side effect");
			if (me.registrations > 1) hit("C27", sig(50));
			break;
		case K_PROGRESS: {
			hit("C09", mix(mix(1000 + in.payload.size(), known_before), in.payload.empty() ? 0 : std::min<std::size_t>(in.payload[0].size(), 16)));
			int n = 0;
			for (auto &x : to_monitor) {
				if (x.data == in.payload && x.identity == "recodex-monitor") ++n;
				else bad({"C09"}, "the monitor was sent " + show(x.data) + " for progress " + show(in.payload));
			}
			if (n > 1 || (n == 0 && known_before && !in.payload.empty())) bad({"C09"}, "a progress message was forwarded " + std::to_string(n) + " times");
			if (to_monitor.size() != out.size()) bad({"C09", "C11"}, "a progress message had a side effect");
			break;
		}
		case K_TICK: {
			ticked = true;
			std::vector<job_p> running;
			for (auto &g : gone) {
				auto it = W.find(g);
				gone_workers[g] = it->second;
				if (it->second.cur) running.push_back(it->second.cur);
				died_now.insert(g);
			}
			for (auto &g : gone) W.erase(g);
			if (!gone.empty()) { g_events["deaths"] += (long) gone.size(); lose_jobs(running, gone, false); if (frozen) hit("C26", sig(60)); }
			break;
		}
		case K_CLIENT_JUNK: case K_WORKER_JUNK: case K_INIT_BAD: case K_OTHER:
			hit("C11", mix(mix(sig(in.k), hash_str(m.data.empty() ? "" : m.data[0].substr(0, 8))), m.data.size()));
			for (auto &o : out) if (o.identity != m.identity || o.key != m.key) bad({"C11"}, "an invalid message had an effect: " + current() + " -> " + o.key + " " + show(o.data));
			break;
		}
		if (!gone.empty() && in.k != K_TICK && !(in.k == K_INIT && gone.size() == 1 && *gone.begin() == m.identity)) {
			for (auto &g : gone) W.erase(g);
		}

		// ---- registry against the specification
		for (auto &r : reg) if (!W.count(r.first)) { bad({"C11", "C06"}, "'" + show(r.first) + "' is registered without having registered"); }
		for (auto &w : std::map<std::string, workerm>(W)) if (!reg.count(w.first)) { props t = {"C04", "C02"}; if (in.k == K_INIT) t.insert("C27"); if (in.k == K_INIT && w.second.registrations == 1) t.insert("C23"); bad(t, "worker '" + show(w.first) + "' is not registered"); W.erase(w.first); }

		// ---- clients
		if (in.k != K_EVAL && in.k != K_STATS && in.k != K_FREEZE && in.k != K_UNFREEZE) {
			for (auto &c : to_clients) if (m.key != "clients" || c.identity != m.identity) bad({"C10"}, "a client that asked nothing received " + show(c.data));
		} else {
			for (auto &c : to_clients) if (c.identity != m.identity) bad({"C10"}, "a client that asked nothing received " + show(c.data));
		}
		if (m.key != "workers" && (pongs || intros)) bad({"C06"}, "pong or intro without ping");
		if (in.k != K_PING && in.k != K_WORKER_JUNK && (pongs || intros)) bad({"C06"}, "pong or intro without ping");

		// ---- dispatches, in the order they were sent
		for (auto &d : dispatches) on_dispatch(d.first, d.second);

		// ---- reports to the frontend
		if (in.k != K_PROGRESS) check_reports(in, reports, to_monitor);

		// ---- multi mode bookkeeping of choices
		if (multi) {
			auto sent_to = [&](const job_p &j) { for (auto &d : dispatched) if (d.first == j) return d.second; return std::string(); };
			if (new_job && in.k == K_EVAL) {
				// the worker was idle when chosen, so its model entry must not count as busy
				std::string to = sent_to(new_job);
				choose(new_job, to, dispatched.size() <= 1);
			}
			std::size_t moved = requeued.size() + rebound.size();
			for (auto &j : requeued) {
				std::string to = sent_to(j);
				if (moved == 1 && in.k == K_DONE) {
					// internal error: the worker itself is idle at the moment of the choice
					requeue_choice(j, m.identity, to);
				} else unknown_choice(j);
			}
			for (auto &j : rebound) unknown_choice(j);
			for (auto &w : W) if (!w.second.cur) w.second.last_idle = g_step;
		}

		// ---- nobody idle who should work
		check_idle();

		if (in.k == K_TICK) {
			snapshot.clear();
			long idle = 0;
			for (auto &w : W) idle += !w.second.cur;
			snapshot["queued-jobs"] = (long) waiting.size();
			snapshot["worker-count"] = (long) W.size();
			snapshot["idle-worker-count"] = idle;
			snapshot["jobs-in-progress"] = (long) W.size() - idle;
		}
		g_states.insert(sig());
	}
	workerm dummy;

	uint64_t hash_headers(const headers_t &h) { uint64_t r = 1; for (auto &x : h) r = mix(r, hash_str(x.first + "=" + x.second)); return r; }

	void requeue_choice(const job_p &j, const std::string &self, const std::string &to)
	{
		// like choose(), but `self` was idle when the job was put back
		auto it = W.find(self);
		if (it == W.end()) { unknown_choice(j); return; }
		job_p saved = it->second.cur;
		it->second.cur = nullptr;
		if (!to.empty()) choose(j, to, true);
		else choose(j, "", true);
		it->second.cur = saved;
	}

	void check_idle()
	{
		std::size_t idle = 0;
		for (auto &w : W) idle += !w.second.cur;
		if (!waiting.empty()) hit("C02", sig(1)); else if (idle) g_hits[2].evals++;
		if (!idle || waiting.empty()) return;
		props t = {"C02"};
		if (frozen) t.insert("C26");
		if (!multi) {
			for (auto &w : W) {
				if (w.second.cur) continue;
				for (auto &j : waiting)
					if (w.second.capable(j->headers)) {
						if (j->failures) t.insert("C05");
						if (step_job && step_job->announced) t.insert("C13");
						if (!gone_workers.empty()) t.insert("C07");
						bad(t, "job '" + show(j->id) + "' waits although worker '" + show(w.first) + "' is idle and capable, after " + current());
						return;
					}
			}
		} else {
			for (auto &j : waiting) {
				if (j->bound.size() == 1) {
					auto it = W.find(*j->bound.begin());
					if (it != W.end() && !it->second.cur) { bad(t, "worker '" + show(it->first) + "' is idle although job '" + show(j->id) + "' waits in its queue, after " + current()); j->bound.clear(); return; }
				}
			}
			if (idle == W.size()) bad(t, "all workers are idle although job '" + show(waiting[0]->id) + "' is waiting, after " + current());
		}
	}

	void observe_init(const message_container &m, const parsed &in, const std::vector<message_container> &out, const std::vector<message_container> &reports, bool known, const std::set<std::string> &, std::map<std::string, int> &)
	{
		int errors = 0;
		for (auto &r : reports) { for (std::size_t i = 0; i + 1 < r.data.size(); i += 2) if (r.data[i] == "type" && r.data[i + 1] == "error") ++errors; }
		if (known) {
			workerm &w = W.at(m.identity);
			bool same = w.hwgroup == in.hwgroup && w.headers == in.headers;
			hit("C27", sig(mix(same, mix(!!w.cur, mix(in.has_job, w.cur && in.has_job && w.cur->id == in.current_job)))));
			hit("C28", hash_str(m.identity));
			if (same) {
				if (!out.empty()) bad({"C27"}, "a repeated identical registration had an effect: " + out[0].key + " " + show(out[0].data));
				return;
			}
			if (errors != 1) bad({"C27"}, "a changed registration was reported to the frontend " + std::to_string(errors) + " times");
			for (auto &r : reports) {
				bool err = false; std::string msg;
				for (std::size_t i = 0; i + 1 < r.data.size(); i += 2) { if (r.data[i] == "type" && r.data[i + 1] == "error") err = true; if (r.data[i] == "message") msg = r.data[i + 1]; }
				if (err && msg.find(ref_hex(m.identity)) == std::string::npos) bad({"C28"}, "the error report does not name the worker " + ref_hex(m.identity) + ": " + show(msg));
			}
			step_replaced = true;
			workerm old = w;
			workerm nw;
			nw.identity = m.identity; nw.hwgroup = in.hwgroup; nw.headers = in.headers; nw.description = in.description;
			nw.heard = now; nw.reg_step = g_step; nw.registrations = old.registrations + 1;
			nw.spoke = true;
			std::vector<job_p> running;
			if (in.has_job && old.cur && old.cur->id == in.current_job) nw.cur = old.cur;
			else {
				if (old.cur) running.push_back(old.cur);
				if (in.has_job) { nw.cur = announced_job(in.current_job); }
			}
			gone_workers[m.identity] = old;
			W[m.identity] = nw;
			g_events["replaced"]++;
			lose_jobs(running, {m.identity}, true);
			if (multi) for (auto &x : W) x.second.chosen_known = false;
			return;
		}
		if (errors) bad({"C27"}, "a first registration was reported as an error");
		workerm nw;
		nw.identity = m.identity; nw.hwgroup = in.hwgroup; nw.headers = in.headers; nw.description = in.description;
		nw.heard = now; nw.reg_step = g_step;
		if (in.has_job) nw.cur = announced_job(in.current_job);
		W[m.identity] = nw;
		g_events["registered"]++;
		hit("C23", sig(mix(3, in.has_job)));
	}
	job_p announced_job(const std::string &id)
	{
		auto j = std::make_shared<job>();
		j->id = id; j->announced = true; j->st = J_RUNNING; j->submit_step = g_step;
		announced_ids.insert(id);
		g_events["announced"]++;
		hit("C13", sig(mix(12, jobs.count(id))));
		return j;
	}

	void check_reports(const parsed &in, const std::vector<message_container> &reports, const std::vector<message_container> &to_monitor)
	{
		std::map<std::string, int> mon_failed, mon_aborted;
		for (auto &x : to_monitor) {
			if (x.identity != "recodex-monitor" || x.data.size() != 2 || (x.data[1] != "FAILED" && x.data[1] != "ABORTED")) { bad({"C07", "C09"}, "unexpected message to the monitor '" + show(x.identity) + "': " + show(x.data)); continue; }
			(x.data[1] == "FAILED" ? mon_failed : mon_aborted)[x.data[0]]++;
		}
		if (in.k == K_EVAL || step_invalid_done) mon_failed.clear();
		std::multimap<std::string, expectation> expect = exp_final;
		for (auto &r : reports) {
			std::map<std::string, std::string> kv;
			bool odd = r.data.size() % 2;
			for (std::size_t i = 0; i + 1 < r.data.size(); i += 2) kv[r.data[i]] = r.data[i + 1];
			if (odd || !kv.count("type")) { bad({"C01"}, "malformed report " + show(r.data)); continue; }
			if (kv["type"] == "error") continue;
			if (kv["type"] != "job-status" || !kv.count("id") || (kv["status"] != "OK" && kv["status"] != "FAILED")) { bad({"C01"}, "malformed report " + show(r.data)); continue; }
			g_events["out:final:" + kv["status"]]++;
			const std::string &id = kv["id"];
			auto rg = expect.equal_range(id);
			bool found = false;
			for (auto it = rg.first; it != rg.second; ++it)
				if (it->second.status == kv["status"]) { expect.erase(it); found = true; break; }
			if (found) {
				auto jt = jobs.find(id);
				if (jt != jobs.end() && jt->second->st == J_DONE) jt->second->finals++;
				continue;
			}
			props t = {"C01"};
			auto nf = no_fail.find(id);
			if (nf != no_fail.end()) t.insert(nf->second.begin(), nf->second.end());
			for (auto it = rg.first; it != rg.second; ++it) t.insert(it->second.tags.begin(), it->second.tags.end());
			if (step_invalid_done) t.insert("C14");
			if (in.k == K_TICK) t.insert("C07");
			if (step_kind == K_INIT) t.insert("C27");
			if (announced_ids.count(id)) t.insert("C13");
			if (frozen_rejected.count(id)) t.insert("C26");
			bad(t, "unexpected final status " + kv["status"] + " of job '" + show(id) + "' reported (" + show(kv["message"]) + ") after " + current());
			auto jt = jobs.find(id);
			if (jt != jobs.end() && jt->second->st == J_WAITING) finish(jt->second, "unexpected report");
		}
		for (auto &e : expect) bad(e.second.tags, "status " + e.second.status + " of job '" + show(e.first) + "' was not reported to the frontend after " + current());
		// the monitor
		std::map<std::string, std::pair<int, props>> need;
		for (auto &e : exp_final) if (e.second.monitor_failed) { need[e.first].first++; need[e.first].second.insert(e.second.tags.begin(), e.second.tags.end()); }
		for (auto &n : need) {
			props t = n.second.second;
			t.erase("C01");
			if (mon_failed[n.first] < 1) bad(t, "the monitor was not told that job '" + show(n.first) + "' failed, after " + current());
		}
		for (auto &f : mon_failed) {
			if (!f.second) continue;
			if (exp_final.count(f.first)) continue; // final anyway
			auto nf = no_fail.find(f.first);
			if (nf != no_fail.end() || jobs.count(f.first)) {
				props t = nf != no_fail.end() ? nf->second : props{"C07"};
				t.erase("C01");
				bad(t, "the monitor was told that job '" + show(f.first) + "' failed although it goes on, after " + current());
			}
		}
		for (auto &a : exp_aborted) {
			hit("C07", sig(mix(500, to_monitor.size())));
			if (mon_aborted[a.first] != 1) bad(a.second, "the monitor was told " + std::to_string(mon_aborted[a.first]) + " times that the attempt at job '" + show(a.first) + "' was aborted, after " + current());
		}
		for (auto &a : mon_aborted) {
			if (!a.second || exp_aborted.count(a.first)) continue;
			auto jt = jobs.find(a.first);
			bool moved = false;
			for (auto &j : rebound) if (j->id == a.first) moved = true;
			for (auto &j : requeued) if (j->id == a.first) moved = true;
			if (!moved && jt != jobs.end() && (in.k == K_TICK || in.k == K_INIT)) bad({step_replaced ? "C27" : "C07"}, "the monitor was told that the attempt at job '" + show(a.first) + "' was aborted although its worker did not die");
		}
	}

	void check_stats(const message_container &m, const std::vector<message_container> &to_clients)
	{
		hit("C10", sig(30));
		if (to_clients.size() != 1 || to_clients[0].identity != m.identity || to_clients[0].data.size() % 2 != 0) { bad({"C10", "C12"}, "a statistics request was not answered by one list of names and values"); return; }
		std::map<std::string, std::string> kv;
		for (std::size_t i = 0; i + 1 < to_clients[0].data.size(); i += 2) kv[to_clients[0].data[i]] = to_clients[0].data[i + 1];
		auto expect = [&](const std::string &k, long v) {
			hit("C12", mix(hash_str(k), mix(std::min<long>(v, 50), sig())));
			if (kv[k] != std::to_string(v)) { props t = {"C12"}; if (k == "is-frozen") t.insert("C26"); bad(t, "statistics say " + k + "=" + show(kv[k]) + " instead of " + std::to_string(v)); }
		};
		expect("evaluated-jobs", evaluated);
		expect("failed-jobs", failed);
		expect("is-frozen", frozen);
		if (ticked) for (auto &s : snapshot) expect(s.first, s.second);
	}

	// ------------------------------------------------------------ generators
	std::vector<std::string> groups = {"g1", "g10", "g2", "group_with-long.name", "G1"};
	std::vector<std::string> envs = {"c", "cpp", "cpp11", "java", "a=b", "python 3", "", "C"};
	frames random_worker_headers()
	{
		frames h;
		int n = R.range(0, 3);
		std::set<std::string> used;
		for (int i = 0; i < n; ++i) {
			std::string e = "env=" + R.pick(envs);
			if (used.insert(e).second) h.push_back(e);
		}
		std::sort(h.begin(), h.end());
		if (R.chance(60)) {
			int t1 = R.chance(20) ? R.range(1, 100000) : R.range(1, 16);
			h.push_back("threads=" + std::to_string(t1));
			if (R.chance(15)) h.push_back("threads=" + std::to_string(t1 + R.range(1, 9)));
		}
		if (R.chance(5)) h.push_back("threads=many");
		if (R.chance(2)) h.push_back("threads=" + std::to_string(4294967296l + (long) R.below(20)));
		if (R.chance(20)) h.push_back("os=linux");
		if (R.chance(10)) h.push_back("environ=c");
		if (R.chance(5)) h.push_back("meta=x");
		return h;
	}
	frames random_requirements()
	{
		frames h;
		// usually derived from some actor so that it can be served
		if (!A.empty() && !R.chance(P.unservable)) {
			auto &a = R.pick(A);
			if (R.chance(60)) {
				std::string g = a.hwgroup;
				if (R.chance(40)) g = R.chance(50) ? g + "|" + R.pick(groups) : R.pick(groups) + "|" + g;
				if (R.chance(10)) g = "zz|" + g + "|yy";
				h.push_back("hwgroup=" + g);
			}
			for (auto &x : a.header_frames) {
				if (!R.chance(50) || x.find('=') == std::string::npos) continue;
				if (x.substr(0, 8) == "threads=" && plain_number(x.substr(8))) {
					long v = std::stol(x.substr(8));
					h.push_back("threads=" + std::to_string(R.chance(30) ? v : R.chance(10) ? v + 1 : (long) R.below((uint64_t) v + 1)));
				} else h.push_back(x);
			}
		} else {
			if (R.chance(70)) h.push_back("hwgroup=" + R.pick(groups) + (R.chance(30) ? "|" + R.pick(groups) : ""));
			if (R.chance(50)) h.push_back("env=" + R.pick(envs));
			if (R.chance(30)) h.push_back("threads=" + std::to_string(R.below(20)));
			if (R.chance(5)) h.push_back("threads=many");
			if (R.chance(20)) h.push_back("os=" + std::string(R.chance(50) ? "linux" : "windows"));
			if (R.chance(10)) h.push_back("nobody=has");
			if (R.chance(5)) h.push_back("metadata=no");
			if (R.chance(5)) h.push_back("meta=x");
		}
		if (R.chance(20)) h.push_back("meta.env=none");
		if (R.chance(10)) h.push_back("meta.hwgroup=none");
		if (R.chance(5)) h.push_back("meta.threads=9999");
		for (std::size_t i = h.size(); i > 1; --i) std::swap(h[i - 1], h[R.below(i)]);
		return h;
	}
	std::string new_job_id()
	{
		std::string s;
		do {
			switch (R.below(8)) {
			case 0: s = "job-" + R.bytes(6); break;
			case 1: s = "student_" + std::to_string(next_id++) + " & x=y/?#%"; break;
			case 2: s = R.bytes(R.range(1, 12)); break;
			default: s = "exercise_" + std::to_string(next_id++);
			}
		} while (s.empty() || used_ids.count(s));
		used_ids.insert(s);
		return s;
	}
	frames random_payload()
	{
		frames p;
		int n = R.chance(10) ? 0 : R.chance(10) ? R.range(4, 12) : R.range(1, 3);
		for (int i = 0; i < n; ++i) {
			switch (R.below(8)) {
			case 0: p.push_back(""); break;
			case 1: p.push_back(R.bytes(R.range(1, 40))); break;
			case 2: p.push_back("env=c"); break;
			case 3: p.push_back("eval"); break;
			case 4: if (R.chance(4)) { p.push_back(R.bytes(R.range(1000, 70000))); break; } /* fall through */
			default: p.push_back("http://files/" + std::to_string(R.below(100000)) + ".zip");
			}
		}
		return p;
	}
	void submit()
	{
		frames m = {"eval", new_job_id()};
		for (auto &h : random_requirements()) m.push_back(h);
		m.push_back("");
		for (auto &p : random_payload()) m.push_back(p);
		if (read_message(message_container("clients", "x", m)).ambiguous) return;
		step("clients", R.pick(clients), m);
	}
	frames init_frames(actor &a, const std::string &job)
	{
		frames m = {"init", a.hwgroup};
		for (auto &h : a.header_frames) m.push_back(h);
		if (!a.desc.empty() || !job.empty() || R.chance(20)) m.push_back("");
		if (!a.desc.empty()) m.push_back("description=" + a.desc);
		if (!job.empty()) m.push_back("current_job=" + job);
		if (m.size() > 2 && R.chance(3)) m.push_back("unknown=info");
		return m;
	}
	void arrive(bool with_job)
	{
		int alive = 0;
		for (auto &a : A) alive += a.alive;
		if (alive >= P.max_workers) return;
		if (A.size() > 40) return;
		actor a;
		a.identity = random_identity();
		if (homogeneous && !A.empty()) { a.hwgroup = A[0].hwgroup; a.header_frames = A[0].header_frames; }
		else if (!A.empty() && R.chance(40)) { auto &o = R.pick(A); a.hwgroup = o.hwgroup; a.header_frames = o.header_frames; if (R.chance(30)) a.hwgroup = R.pick(groups); }
		else { a.hwgroup = R.pick(groups); a.header_frames = random_worker_headers(); }
		if (R.chance(30)) a.desc = "worker " + std::to_string(A.size());
		std::string job;
		if (with_job) job = new_job_id();
		auto f = init_frames(a, job);
		if (read_message(message_container("workers", "x", f)).ambiguous) return;
		a.held = job;
		A.push_back(a);
		step("workers", A.back().identity, f);
	}
	bool homogeneous = false;

	void worker_does(actor &a, int what)
	{
		// 0 ping, 1 progress, 2 junk
		if (what == 0) {
			auto out = step("workers", a.identity, {"ping"});
			for (auto &o : out) if (o.key == "workers" && o.data == frames{"intro"}) {
				// a real worker introduces itself again, telling what it is working on
				std::string job = a.held;
				if (!job.empty() && R.chance(40)) { a.past.push_back(job); a.held.clear(); job.clear(); }
				auto f = init_frames(a, job);
				if (!read_message(message_container("workers", "x", f)).ambiguous) { a.held = job; std::string id = a.identity; step("workers", id, f); }
				break;
			}
		} else if (what == 1) {
			frames f = {"progress", a.held.empty() ? "none" : a.held};
			for (auto &p : random_payload()) f.push_back(p);
			step("workers", a.identity, f);
		} else step("workers", a.identity, {"state", "whatever"});
	}
	void finish_job(actor &a, int fail_pct, int internal_pct)
	{
		if (a.held.empty()) return;
		std::string j = a.held;
		a.past.push_back(j);
		a.held.clear();
		int x = (int) R.below(100);
		if (x < fail_pct) step("workers", a.identity, {"done", j, "FAILED", R.chance(20) ? "" : "compilation: \x01 & 100% \xff"});
		else if (x < fail_pct + internal_pct) step("workers", a.identity, {"done", j, "INTERNAL_ERROR", "disk full"});
		else if (R.chance(20)) step("workers", a.identity, {"done", j, "OK", ""});
		else step("workers", a.identity, {"done", j, "OK"});
	}
	frames hostile_frames(bool worker)
	{
		static const std::vector<std::string> cmds = {"eval", "init", "done", "ping", "progress", "freeze", "unfreeze", "get-runtime-stats", "", "EVAL", "pong", "intro", "quit", "eval ", std::string("eval\0x", 6), "done\n"};
		frames m;
		m.push_back(R.chance(85) ? cmds[R.below(worker ? 8 : 16)] : R.bytes(R.range(0, 10)));
		if (R.chance(30)) m[0] = cmds[R.below(cmds.size())];
		int n = R.chance(10) ? R.range(6, 40) : R.range(0, 6);
		for (int i = 0; i < n; ++i) {
			switch (R.below(16)) {
			case 0: m.push_back(""); break;
			case 1: if (!jobs.empty()) { auto it = jobs.begin(); std::advance(it, R.below(jobs.size())); m.push_back(it->first); } break;
			case 2: m.push_back("OK"); break;
			case 3: m.push_back("FAILED"); break;
			case 4: m.push_back("INTERNAL_ERROR"); break;
			case 5: m.push_back("threads=abc"); break;
			case 6: m.push_back("threads="); break;
			case 7: m.push_back("hwgroup=" + std::string(R.range(0, 3), '|')); break;
			case 8: m.push_back(R.bytes(R.range(0, 30))); break;
			case 9: m.push_back("=" + std::string(R.range(0, 2), '=')); break;
			case 10: m.push_back("junk"); break;
			case 11: m.push_back("meta."); break;
			case 12: m.push_back("env=" + R.pick(envs)); break;
			case 13: m.push_back("description=" + R.bytes(3)); break;
			case 14: m.push_back("{} {0} %s %n"); break;
			default: m.push_back(R.chance(5) ? std::string(100000, 'x') : "x" + std::to_string(R.below(5)));
			}
		}
		return m;
	}
	void hostile()
	{
		bool worker = R.chance(60);
		std::string id;
		if (worker && !A.empty() && R.chance(70)) id = R.pick(A).identity;
		else if (R.chance(50)) id = R.pick(clients);
		else id = R.chance(10) ? "" : R.bytes(R.range(1, 6));
		frames m = hostile_frames(worker);
		if (R.chance(5)) { step("monitor", "recodex-monitor", m); return; }
		std::string key = worker ? "workers" : "clients";
		auto in = read_message(message_container(key, id, m));
		if (in.ambiguous) return;
		if (in.k == K_EVAL && used_ids.count(in.id)) return;
		if (in.k == K_EVAL) used_ids.insert(in.id);
		if ((in.k == K_FREEZE || in.k == K_UNFREEZE) && !R.chance(20)) return;
		if (in.k == K_INIT) {
			if (in.has_job && used_ids.count(in.current_job)) return;
			if (W.size() > 14) return;
			bool known = false;
			for (auto &a : A) if (a.identity == id) known = true;
			if (!known) { actor a; a.identity = id; a.hwgroup = in.hwgroup; a.alive = false; if (id.empty()) return; for (std::size_t i = 2; i < m.size() && !m[i].empty(); ++i) a.header_frames.push_back(m[i]); A.push_back(a); }
		}
		step(key, id, m);
		if (in.k == K_DONE && in.done_valid) for (auto &a : A) if (a.identity == id && a.held == in.id && W.count(id) && !W[id].cur) a.held.clear();
	}
	void stale(actor &a)
	{
		std::string j;
		if (!a.past.empty() && R.chance(60)) j = R.pick(a.past);
		else if (!jobs.empty()) { auto it = jobs.begin(); std::advance(it, R.below(jobs.size())); j = it->first; }
		else j = "no-such-job";
		if (j == a.held) return;
		static const std::vector<std::string> st = {"OK", "FAILED", "INTERNAL_ERROR"};
		std::string s = st[R.below(3)];
		std::string from = R.chance(15) ? R.bytes(5) : a.identity;
		frames m = {"done", j, s};
		if (s != "OK") m.push_back("late");
		// could be valid by accident for a job the worker is thought to hold
		step("workers", from, m);
	}
	void malformed_done(actor &a)
	{
		std::string j = a.held.empty() ? "x" : a.held;
		switch (R.below(8)) {
		case 0: step("workers", a.identity, {"done"}); break;
		case 1: step("workers", a.identity, {"done", j}); break;
		case 2: step("workers", a.identity, {"done", j, "ok"}); break;
		case 3: step("workers", a.identity, {"done", j, "FAILED"}); break;
		case 4: step("workers", a.identity, {"done", j, "INTERNAL_ERROR"}); break;
		case 5: step("workers", a.identity, {"done", j, ""}); break;
		case 6: step("workers", a.identity, {"done", j + "x", "OK"}); break;
		default: step("workers", a.identity, {"done", j, "SKIPPED", "message"}); break;
		}
	}
	void reinit_diff(actor &a)
	{
		if (!W.count(a.identity)) return;
		actor b = a;
		if (R.chance(40)) b.hwgroup = R.pick(groups);
		else b.header_frames = random_worker_headers();
		std::string job;
		if (R.chance(50)) job = a.held;
		else if (R.chance(20)) job = new_job_id();
		auto f = init_frames(b, job);
		auto in = read_message(message_container("workers", a.identity, f));
		if (in.ambiguous) return;
		auto &w = W[a.identity];
		if (w.hwgroup == in.hwgroup && w.headers == in.headers) return;
		a.hwgroup = b.hwgroup;
		a.header_frames = b.header_frames;
		if (!a.held.empty() && a.held != job) a.past.push_back(a.held);
		a.held = job;
		std::string id = a.identity;
		step("workers", id, f);
	}
	void tick(long ms) { step("timer", "", {std::to_string(ms)}); }
	void heartbeat(bool all)
	{
		for (std::size_t i = 0; i < A.size(); ++i) if (A[i].alive && (all || R.chance(80))) worker_does(A[i], R.chance(75) ? 0 : R.chance(70) ? 1 : 2);
	}
	void jump_clock()
	{
		switch (R.below(5)) {
		case 0: g_real_offset_ns -= (int64_t) R.below(10000) * 1000000000ll; break;
		case 1: g_real_offset_ns += (int64_t) R.below(10000) * 1000000000ll; break;
		default: g_mono_offset_ns += (int64_t) R.below(5000) * 1000ll + (R.chance(10) ? 3600ll * 1000000000ll : 0); g_real_offset_ns -= R.below(20) * 1000000ll;
		}
	}
	actor *some(bool need_alive, bool need_job = false)
	{
		std::vector<actor *> c;
		for (auto &a : A) if ((!need_alive || a.alive) && (!need_job || !a.held.empty())) c.push_back(&a);
		return c.empty() ? nullptr : c[R.below(c.size())];
	}

	void act()
	{
		struct choice { int w; int what; };
		int ws[] = {P.submit, P.burst, P.finish, P.ping, P.progress, P.tick, P.quiet, P.revive, P.arrive, P.reinit_same, P.reinit_diff, P.announce, P.freeze, P.stats, P.hostile, P.stale, P.badone, P.bigtick, P.massdeath, P.clockjump};
		int total = 0;
		for (int w : ws) total += w;
		int x = (int) R.below((uint64_t) total), i = 0;
		while (x >= ws[i]) x -= ws[i++];
		actor *a;
		switch (i) {
		case 0: if ((int) waiting.size() < P.max_tracked) submit(); break;
		case 1: for (int n = R.range(2, P.burst_size); n > 0 && (int) waiting.size() < P.max_tracked; --n) submit(); break;
		case 2: if ((a = some(true, true))) finish_job(*a, P.fail_pct, P.internal_pct); break;
		case 3: if ((a = some(true))) worker_does(*a, 0); break;
		case 4: if ((a = some(true))) worker_does(*a, 1); break;
		case 5: if (R.chance(50)) heartbeat(false); tick(R.chance(15) ? 0 : (long) R.below((uint64_t) I + 1)); break;
		case 6: if ((a = some(true))) a->alive = false; break;
		case 7: { std::vector<actor *> c; for (auto &y : A) if (!y.alive) c.push_back(&y); if (!c.empty()) { a = c[R.below(c.size())]; int alive = 0; for (auto &y : A) alive += y.alive; if (alive < P.max_workers) { a->alive = true; worker_does(*a, R.chance(80) ? 0 : 1); } } break; }
		case 8: arrive(false); break;
		case 9: if ((a = some(true)) && W.count(a->identity)) { actor b = *a; if (R.chance(20)) b.desc = "renamed"; auto f = init_frames(b, R.chance(30) ? a->held : ""); if (R.chance(10)) f = init_frames(b, new_job_id()); if (!read_message(message_container("workers", "x", f)).ambiguous) step("workers", b.identity, f); } break;
		case 10: if ((a = some(true))) reinit_diff(*a); break;
		case 11: arrive(true); break;
		case 12: step("clients", R.pick(clients), {R.chance(50) ? "freeze" : "unfreeze"}); break;
		case 13: if (R.chance(50)) tick(0); if (R.chance(20)) submit(); step("clients", R.pick(clients), {"get-runtime-stats"}); break;
		case 14: hostile(); break;
		case 15: if ((a = some(false))) stale(*a); break;
		case 16: if ((a = some(false))) malformed_done(*a); break;
		case 17: if (R.chance(70)) heartbeat(false); tick(R.chance(80) ? R.range((int) I, (int) (3 * I) + 1) : (long) (I * 20 + (long) R.below(1000))); break;
		case 18: { int n = R.range(2, 5); for (int k = 0; k < n; ++k) if ((a = some(true))) a->alive = false; for (std::size_t k = 0; k < L + 1 + R.below(2) && !broken; ++k) { if (R.chance(90)) heartbeat(true); tick(I + 1 + (long) R.below((uint64_t) I + 1)); } break; }
		case 19: jump_clock(); break;
		}
	}

	void run()
	{
		homogeneous = R.chance(P.homogeneous);
		int first = R.range(0, P.max_workers);
		for (int i = 0; i < first; ++i) arrive(R.chance(5) && P.announce);
		for (int i = 0; i < P.steps && !broken; ++i) act();
		drain();
	}

	void drain()
	{
		if (broken) return;
		if (frozen && R.chance(50)) step("clients", R.pick(clients), {"unfreeze"});
		// every surviving worker answers, everybody else is noticed to be dead
		for (int round = 0; round < 3000 && !broken; ++round) {
			bool busy = false;
			for (std::size_t i = 0; i < A.size() && !broken; ++i) {
				if (!A[i].alive) continue;
				// a worker that holds something finishes it; the broker's view decides what counts
				if (!A[i].held.empty()) {
					auto it = W.find(A[i].identity);
					if (it == W.end()) { worker_does(A[i], 0); busy = true; continue; }
					finish_job(A[i], 5, 10);
					busy = true;
				} else {
					auto it = W.find(A[i].identity);
					if (it == W.end() && round < 5) { worker_does(A[i], 0); busy = true; }
					else if (it != W.end() && it->second.cur) { std::string j = it->second.cur->id; step("workers", A[i].identity, {"done", j, "OK"}); busy = true; }
				}
			}
			bool silent = false;
			for (auto &w : W) { bool alive = false; for (auto &a : A) if (a.identity == w.first && a.alive) alive = true; if (!alive) silent = true; }
			if (silent) { heartbeat(true); tick(I + 1); busy = true; }
			if (!busy) break;
		}
		if (broken) return;
		tick(0);
		step("clients", clients[0], {"get-runtime-stats"});
		bool anyone_busy = false;
		for (auto &w : W) if (w.second.cur) anyone_busy = true;
		for (auto &jp : jobs) {
			auto &j = jp.second;
			hit("C01", mix(mix(j->sends, j->failures), mix(j->finals, hash_str(j->how) ^ multi)));
			if (announced_ids.count(j->id)) continue; // judged per result above
			if (j->st == J_DONE && j->finals == 1) continue;
			if (j->st == J_DONE && j->finals == 0) continue; // already reported as missing
			props t = {"C01"};
			if (j->st != J_DONE) {
				if (anyone_busy) t.insert("C02");
				if (j->failures) t.insert("C05");
				if (j->by_death) t.insert("C07");
				if (j->by_rereg) t.insert("C27");
				if (j->during_freeze) t.insert("C26");
				bad(t, "job '" + show(j->id) + "' was accepted but has no final status although all workers have finished (" + (j->st == J_WAITING ? "waiting" : "thought to run") + ", " + std::to_string(j->sends) + " sends, " + std::to_string(j->failures) + " failures)");
			} else bad(t, "job '" + show(j->id) + "' has " + std::to_string(j->finals) + " final statuses");
		}
	}
};

#include "sim_extra.h"

static std::map<std::string, profile> profiles()
{
	std::map<std::string, profile> r;
	auto add = [&](const std::string &n, std::function<void(profile &)> f) { profile p; p.name = n; f(p); r[n] = p; };
	add("mixed", [](profile &) {});
	add("backlog", [](profile &p) { p.burst = 12; p.burst_size = 40; p.finish = 60; p.max_workers = 4; p.steps = 250; p.clockjump = 10; p.tick = 5; p.unservable = 3; p.quiet = 1; });
	add("failures", [](profile &p) { p.internal_pct = 55; p.fail_pct = 5; p.finish = 45; p.max_workers = 4; p.steps = 250; });
	add("deaths", [](profile &p) { p.massdeath = 5; p.quiet = 8; p.bigtick = 8; p.burst = 4; p.revive = 10; p.arrive = 8; p.steps = 200; });
	add("churn", [](profile &p) { p.reinit_diff = 12; p.reinit_same = 8; p.announce = 4; p.revive = 8; p.steps = 200; p.max_workers = 4; });
	add("announce", [](profile &p) { p.announce = 10; p.arrive = 2; p.max_workers = 8; p.quiet = 6; p.revive = 10; p.internal_pct = 30; p.bigtick = 5; p.steps = 200; });
	add("hostile", [](profile &p) { p.hostile = 60; p.steps = 300; p.stale = 6; p.badone = 6; });
	add("stale", [](profile &p) { p.stale = 25; p.badone = 15; p.quiet = 6; p.revive = 10; p.bigtick = 6; p.steps = 250; });
	add("freeze", [](profile &p) { p.freeze = 8; p.stats = 6; p.massdeath = 2; p.internal_pct = 25; });
	add("spread", [](profile &p) { p.multi_pct = 100; p.homogeneous = 40; p.announce = 0; p.reinit_diff = 0; p.quiet = 1; p.bigtick = 0; p.burst = 4; p.internal_pct = 8; p.unservable = 2; p.max_workers = 7; });
	add("ticks", [](profile &p) { p.tick = 60; p.bigtick = 10; p.ping = 10; p.progress = 8; p.quiet = 6; p.revive = 10; p.submit = 5; p.arrive = 10; p.burst = 0; p.steps = 400; });
	add("stats", [](profile &p) { p.stats = 30; p.stale = 6; p.badone = 4; p.freeze = 2; p.internal_pct = 25; p.announce = 3; });
	add("small", [](profile &p) { p.steps = 25; p.max_workers = 2; p.massdeath = 3; p.internal_pct = 30; p.quiet = 4; p.burst_size = 4; p.announce = 2; p.reinit_diff = 2; p.freeze = 1; });
	return r;
}

int main(int argc, char **argv)
{
	std::string out_file, prof = "mixed";
	uint64_t seed = 1;
	long budget = 0; // seconds
	int64_t budget_from = budget_clock();
	long runs = 100;
	bool one = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") out_file = next();
		else if (a == "--profile") prof = next();
		else if (a == "--seed") seed = std::stoull(next());
		else if (a == "--budget") budget = std::stol(next());
		else if (a == "--runs") runs = std::stol(next());
		else if (a == "--epseed") { g_epseed = std::stoull(next()); one = true; }
		else if (a == "--trace") g_trace = true;
	}
	__sanitizer_set_death_callback(death_note);
	signal(SIGALRM, on_signal);
	signal(SIGABRT, on_signal);
	auto ps = profiles();
	for (long i = 0; i < runs; ++i) {
		if (budget && i > 0 && budget_clock() - budget_from > budget) break;
		if (!one) g_epseed = mix(mix(seed, hash_str(prof)), (uint64_t) i);
		g_profile = prof;
		g_step = 0;
		if (extra_profile(prof, g_epseed)) { ++g_episodes; if (one) break; continue; }
		if (!ps.count(prof)) { fprintf(stderr, "HARNESS unknown profile %s\n", prof.c_str()); return 93; }
		simulation s(ps[prof], g_epseed);
		s.run();
		++g_episodes;
		g_histories.insert(s.history);
		if (g_samples.empty()) g_samples.assign(s.tail.begin(), s.tail.end());
		if (one) break;
		if (g_findings.size() > 200) break;
	}
	alarm(0);
	for (int k = 0; k <= K_OTHER; ++k) if (kind_count[k]) g_events[std::string("in:") + kind_name[k]] = kind_count[k];
	std::ostringstream o;
	o << "{\"episodes\":" << g_episodes << ",\"steps\":" << g_steps << ",\"histories\":" << g_histories.size() << ",\"states\":" << g_states.size() << ",\"hits\":{";
	bool first = true;
	for (int i = 0; i < 100; ++i) {
		auto &h = g_hits[i];
		if (!h.evals) continue;
		char name[8];
		snprintf(name, sizeof name, "C%02d", i);
		o << (first ? "" : ",") << json_str(name) << ":{\"evals\":" << h.evals << ",\"distinct\":[";
		first = false;
		bool f2 = true;
		for (auto d : h.distinct) { o << (f2 ? "" : ",") << "\"" << std::hex << (d & 0xffffffffffffull) << std::dec << "\""; f2 = false; }
		o << "]}";
	}
	o << "},\"events\":{";
	first = true;
	for (auto &e : g_events) { o << (first ? "" : ",") << json_str(e.first) << ":" << e.second; first = false; }
	o << "},\"samples\":[";
	first = true;
	for (auto &s : g_samples) { o << (first ? "" : ",") << json_str(s); first = false; }
	o << "],\"findings\":[";
	first = true;
	for (auto &f : g_findings) {
		o << (first ? "" : ",") << "{\"props\":[";
		bool f2 = true;
		for (auto &p : f.p) { o << (f2 ? "" : ",") << json_str(p); f2 = false; }
		o << "],\"msg\":" << json_str(f.msg) << ",\"profile\":" << json_str(f.profile) << ",\"epseed\":\"" << f.seed << "\",\"step\":" << f.step << "}";
		first = false;
	}
	o << "]}\n";
	if (!out_file.empty()) { std::ofstream(out_file) << o.str(); }
	else if (!g_trace) fputs(o.str().c_str(), stdout);
	if (g_trace) for (auto &f : g_findings) { std::string ps2; for (auto &p : f.p) ps2 += p + " "; printf("FINDING step %ld [%s] %s\n", f.step, ps2.c_str(), f.msg.c_str()); }
	return g_findings.empty() ? 0 : 1;
}
