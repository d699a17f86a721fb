// Shared helpers of the harnesses: seeded random numbers, hex, JSON output.
#pragma once
#include <cstdint>
#include <cstdio>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>

struct rng {
	uint64_t s;
	explicit rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
	uint64_t next()
	{
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// uniform in [0, n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }
	bool chance(int percent) { return (int) below(100) < percent; }
	template <class C> auto &pick(C &c) { return c[below(c.size())]; }
	std::string bytes(std::size_t n)
	{
		std::string r;
		for (std::size_t i = 0; i < n; ++i) r.push_back((char) below(256));
		return r;
	}
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	return h * 0xff51afd7ed558ccdull;
}
inline uint64_t hash_str(const std::string &s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
	return h;
}

inline std::string show(const std::string &s)
{
	std::string r;
	char buf[8];
	std::size_t n = 0;
	for (unsigned char c : s) {
		if (++n > 120) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
		if (c >= 0x20 && c < 0x7f && c != '\\') r.push_back((char) c);
		else { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
	}
	return r;
}
inline std::string show(const std::vector<std::string> &v)
{
	std::string r = "[";
	std::size_t n = 0;
	for (auto &s : v) {
		if (n) r += ", ";
		if (++n > 40) { r += "...(" + std::to_string(v.size()) + " frames)"; break; }
		r += "'" + show(s) + "'";
	}
	return r + "]";
}
inline std::string json_str(const std::string &s)
{
	std::string r = "\"";
	char buf[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back((char) c); }
		else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
		else r.push_back((char) c);
	}
	return r + "\"";
}

// seconds; not what the code under test sees of the clock
inline int64_t budget_clock()
{
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return (int64_t) t.tv_sec;
}
