// Findings, counters and JSON output of the multi-threaded harnesses.
#pragma once
#include "common.h"
#include <atomic>
#include <thread>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <mutex>
#include <sstream>
#include <unistd.h>
#include <unordered_set>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace rep
{
	struct finding { std::vector<std::string> props; std::string msg; uint64_t seed; };
	struct counter { uint64_t evals = 0; std::unordered_set<uint64_t> distinct; };
	inline std::vector<finding> findings;
	inline std::map<std::string, counter> hits;
	inline std::map<std::string, uint64_t> events;
	inline std::vector<std::string> samples;
	inline std::unordered_set<uint64_t> histories;
	inline std::string profile;
	inline uint64_t epseed = 0;
	inline long episodes = 0;
	inline long steps = 0;
	inline bool trace = false;
	inline std::mutex mutex;
	inline char doing[256] = "?";
	inline char profile_text[64];

	// called only while no code under test runs concurrently, or where the extra ordering does not matter
	inline void bad(const std::vector<std::string> &props, const std::string &msg)
	{
		std::lock_guard<std::mutex> l(mutex);
		if (findings.size() < 300) findings.push_back({props, msg, epseed});
	}
	inline void hit(const std::string &prop, uint64_t sig)
	{
		std::lock_guard<std::mutex> l(mutex);
		auto &c = hits[prop];
		++c.evals;
		if (c.distinct.size() < 100000) c.distinct.insert(sig);
	}
	inline void event(const std::string &name, uint64_t n = 1)
	{
		std::lock_guard<std::mutex> l(mutex);
		events[name] += n;
	}
	inline void sample(const std::string &s)
	{
		std::lock_guard<std::mutex> l(mutex);
		if (samples.size() < 12) samples.push_back(s);
	}
	inline void phase(const std::string &what)
	{
		snprintf(doing, sizeof doing, "%s", what.c_str());
		snprintf(profile_text, sizeof profile_text, "%s", profile.c_str());
	}
	// The following may run anywhere, at any time, and must not be looked at by ThreadSanitizer.
	#define RAW __attribute__((no_sanitize("thread"), no_sanitize_address))
	RAW inline void put(char *buf, int &n, const char *text)
	{
		for (int i = 0; text[i] && n < 500; ++i) buf[n++] = text[i];
	}
	RAW inline void put(char *buf, int &n, unsigned long long v)
	{
		char digits[24];
		int k = 0;
		do { digits[k++] = (char) ('0' + v % 10); v /= 10; } while (v);
		while (k) buf[n++] = digits[--k];
	}
	RAW inline void death_note()
	{
		static char buf[640];
		int n = 0;
		put(buf, n, "DEATH profile=");
		put(buf, n, profile_text);
		put(buf, n, " epseed=");
		put(buf, n, (unsigned long long) epseed);
		put(buf, n, " step=");
		put(buf, n, (unsigned long long) steps);
		put(buf, n, " input=");
		put(buf, n, doing);
		buf[n++] = '\n';
		syscall(SYS_write, 2, buf, (size_t) n);
	}
	RAW inline void on_signal(int s)
	{
		if (s == SIGALRM) syscall(SYS_write, 2, "HANG\n", (size_t) 5);
		else syscall(SYS_write, 2, "CRASH\n", (size_t) 6);
		death_note();
		syscall(SYS_exit_group, s == SIGALRM ? 91 : 92);
	}
	inline void install()
	{
		if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death_note);
		struct sigaction sa;
		memset(&sa, 0, sizeof sa);
		sa.sa_handler = on_signal;
		sa.sa_flags = SA_RESTART;
		sigaction(SIGALRM, &sa, nullptr);
		sigaction(SIGABRT, &sa, nullptr);
		signal(SIGPIPE, SIG_IGN);
	}
	// a hang is noticed by a thread of its own: a signal would wait for the thread that hangs
	inline std::atomic<int64_t> watch_until{0};
	inline int64_t watch_now()
	{
		timespec t;
		syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
		return (int64_t) t.tv_sec * 1000 + t.tv_nsec / 1000000;
	}
	inline void watch(int seconds)
	{
		watch_until.store(seconds ? watch_now() + seconds * 1000ll : 0, std::memory_order_relaxed);
	}
	inline void start_watchdog()
	{
		std::thread([] {
			for (;;) {
				timespec t = {0, 200000000};
				syscall(SYS_nanosleep, &t, nullptr);
				int64_t u = watch_until.load(std::memory_order_relaxed);
				if (u && watch_now() > u) on_signal(SIGALRM);
			}
		}).detach();
	}
	inline int output(const std::string &file)
	{
		std::ostringstream o;
		o << "{\"episodes\":" << episodes << ",\"steps\":" << steps << ",\"histories\":" << histories.size() << ",\"hits\":{";
		bool first = true;
		for (auto &h : hits) {
			o << (first ? "" : ",") << json_str(h.first) << ":{\"evals\":" << h.second.evals << ",\"distinct\":[";
			first = false;
			bool f2 = true;
			for (auto d : h.second.distinct) { o << (f2 ? "" : ",") << "\"" << std::hex << (d & 0xffffffffffffull) << std::dec << "\""; f2 = false; }
			o << "]}";
		}
		o << "},\"events\":{";
		first = true;
		for (auto &e : events) { o << (first ? "" : ",") << json_str(e.first) << ":" << e.second; first = false; }
		o << "},\"samples\":[";
		first = true;
		for (auto &s : samples) { o << (first ? "" : ",") << json_str(s); first = false; }
		o << "],\"findings\":[";
		first = true;
		for (auto &f : findings) {
			o << (first ? "" : ",") << "{\"props\":[";
			bool f2 = true;
			for (auto &p : f.props) { o << (f2 ? "" : ",") << json_str(p); f2 = false; }
			o << "],\"msg\":" << json_str(f.msg) << ",\"profile\":" << json_str(profile) << ",\"epseed\":\"" << f.seed << "\",\"step\":0}";
			first = false;
		}
		o << "]}\n";
		if (!file.empty()) { std::ofstream(file) << o.str(); }
		else if (!trace) fputs(o.str().c_str(), stdout);
		if (trace) for (auto &f : findings) { std::string p; for (auto &x : f.props) p += x + " "; printf("FINDING [%s] %s\n", p.c_str(), f.msg.c_str()); }
		return findings.empty() ? 0 : 1;
	}
}
