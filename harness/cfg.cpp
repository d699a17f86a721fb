// C21: generated YAML documents against an independent reading of them.
#include "config/broker_config.h"
#include "report.h"
#include <functional>
#include <new>

using rep::bad;
using rep::event;
using rep::hit;

// ---------------------------------------------------------------- the documented settings
enum kind { TEXT, PORT, SIZE, MSEC };
struct setting { const char *section, *key; kind k; std::string fallback; };
static const std::vector<setting> &all()
{
	static const std::vector<setting> s = {
		{"", "queue_manager", TEXT, "single"},
		{"clients", "address", TEXT, "*"}, {"clients", "port", PORT, "0"},
		{"workers", "address", TEXT, "*"}, {"workers", "port", PORT, "0"}, {"workers", "max_liveness", SIZE, "4"}, {"workers", "max_request_failures", SIZE, "3"}, {"workers", "ping_interval", MSEC, "1000"},
		{"monitor", "address", TEXT, "127.0.0.1"}, {"monitor", "port", PORT, "7894"},
		{"notifier", "address", TEXT, ""}, {"notifier", "port", PORT, "0"}, {"notifier", "username", TEXT, ""}, {"notifier", "password", TEXT, ""},
		{"logger", "file", TEXT, "/var/log/recodex/broker"}, {"logger", "level", TEXT, "debug"}, {"logger", "max-size", SIZE, "1048576"}, {"logger", "rotations", SIZE, "3"},
	};
	return s;
}
static std::string plain_path(std::string p)
{
	std::string r;
	for (char c : p) if (!(c == '/' && !r.empty() && r.back() == '/')) r.push_back(c);
	return r;
}
static std::string joined(const std::string &dir, const std::string &base)
{
	if (dir.empty()) return base;
	return plain_path(dir + "/" + base);
}
// what the object says
static std::vector<std::string> values(const broker_config &c)
{
	auto n = c.get_notifier_config();
	auto l = c.get_log_config();
	return {c.get_queue_manager(), c.get_client_address(), std::to_string(c.get_client_port()), c.get_worker_address(), std::to_string(c.get_worker_port()), std::to_string(c.get_max_worker_liveness()),
		std::to_string(c.get_max_request_failures()), std::to_string((long long) c.get_worker_ping_interval().count()), c.get_monitor_address(), std::to_string(c.get_monitor_port()), n.address, std::to_string(n.port), n.username, n.password,
		joined(l.log_path, l.log_basename), l.log_level, std::to_string(l.log_file_size), std::to_string(l.log_files_count)};
}

// ---------------------------------------------------------------- independent reading of a number
// 0: certainly not a number in range, 1: certainly `value`, 2: depends on the reading (other notations): an error or `value`
static int number(const std::string &raw, unsigned long long max, unsigned long long &value)
{
	value = 0;
	std::string t = raw;
	bool odd = false;
	while (!t.empty() && isspace((unsigned char) t.back())) { t.pop_back(); odd = true; }
	while (!t.empty() && isspace((unsigned char) t.front())) { t.erase(0, 1); odd = true; }
	if (!t.empty() && t[0] == '+') { t.erase(0, 1); odd = true; }
	if (t == "-0") { t = "0"; odd = true; } // zero, in a way
	if (t.empty()) return 0;
	unsigned base = 10;
	std::size_t i = 0;
	if (t.size() > 2 && t[0] == '0' && (t[1] == 'x' || t[1] == 'X')) { base = 16; i = 2; odd = true; }
	else if (t.size() > 2 && t[0] == '0' && t[1] == 'o') { base = 8; i = 2; odd = true; }
	else if (t.size() > 1 && t[0] == '0') { odd = true; base = 8; i = 1; }
	unsigned __int128 v = 0;
	for (; i < t.size(); ++i) {
		int d = t[i] >= '0' && t[i] <= '9' ? t[i] - '0' : t[i] >= 'a' && t[i] <= 'f' ? t[i] - 'a' + 10 : t[i] >= 'A' && t[i] <= 'F' ? t[i] - 'A' + 10 : 99;
		if (d >= (int) base) return base == 8 && d < 10 ? 3 : 0; // 09: not octal, perhaps decimal
		v = v * base + (unsigned) d;
		if (v > ((unsigned __int128) 1 << 100)) v = (unsigned __int128) 1 << 100;
	}
	if (v > max) return odd && base == 8 ? 3 : 0;
	value = (unsigned long long) v;
	return odd ? (base == 8 ? 3 : 2) : 1; // 3: octal or decimal or an error: not judged
}

struct outcome {
	bool judged = true; // false: the document is ambiguous (duplicate keys and the like)
	bool must_fail = false, may_fail = false;
	std::vector<std::string> want;
	std::vector<bool> sure;
};
static outcome reference(const YAML::Node &doc)
{
	outcome o;
	for (auto &s : all()) { o.want.push_back(s.fallback); o.sure.push_back(true); }
	if (doc.Type() != YAML::NodeType::Map) { o.must_fail = true; return o; }
	auto entries = [&](const YAML::Node &m, const std::string &key) {
		std::vector<YAML::Node> r;
		for (auto it = m.begin(); it != m.end(); ++it) {
			if (it->first.Type() == YAML::NodeType::Scalar) { if (it->first.Scalar() == key) r.push_back(it->second); }
			else o.may_fail = true; // strange keys
		}
		return r;
	};
	for (std::size_t i = 0; i < all().size(); ++i) {
		auto &s = all()[i];
		YAML::Node at = doc;
		if (*s.section) {
			auto secs = entries(doc, s.section);
			if (secs.size() > 1) { o.judged = false; return o; }
			if (secs.empty() || secs[0].Type() != YAML::NodeType::Map) continue;
			at.reset(secs[0]);
		}
		auto v = entries(at, s.key);
		if (v.size() > 1) { o.judged = false; return o; }
		if (v.empty() || v[0].Type() != YAML::NodeType::Scalar) continue;
		std::string text = v[0].Scalar();
		if (s.k == TEXT) {
			o.want[i] = std::string(s.key) == "file" ? plain_path(text) : text;
			if (std::string(s.key) == "file" && (text.empty() || text.back() == '/' || text.find("/.") != std::string::npos || text[0] == '.' || text.compare(0, 2, "//") == 0)) o.sure[i] = false;
			continue;
		}
		unsigned long long n, max = s.k == PORT ? 65535ull : s.k == SIZE ? ~0ull : 9223372036854775807ull;
		switch (number(text, max, n)) {
		case 0: o.must_fail = true; break;
		case 1: o.want[i] = std::to_string(n); break;
		case 2: o.may_fail = true; o.want[i] = std::to_string(n); break;
		default: o.may_fail = true; o.sure[i] = false;
		}
	}
	return o;
}

// ---------------------------------------------------------------- generation
static std::string quoted(rng &g, const std::string &v, bool flow)
{
	bool simple = !v.empty();
	for (char c : v) if (!(isalnum((unsigned char) c) || c == '.' || c == '/' || c == '_' || (c == '-' && v.size() > 1))) simple = false;
	if (v == "~" || v == "null" || v == "Null" || v == "NULL" || (!v.empty() && (v[0] == '.' || v[0] == '-'))) simple = simple && v != "null" && v != "Null" && v != "NULL";
	if (simple && g.chance(60)) return v;
	bool printable = true;
	for (unsigned char c : v) if (c < 0x20 || c > 0x7e) printable = false;
	if (printable && g.chance(40)) {
		std::string r = "'";
		for (char c : v) { r.push_back(c); if (c == '\'') r.push_back('\''); }
		return r + "'";
	}
	(void) flow;
	std::string r = "\"";
	char b[8];
	for (unsigned char c : v) {
		if (c == '"' || c == '\\') { r.push_back('\\'); r.push_back((char) c); }
		else if (c < 0x20 || c == 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r.push_back((char) c);
	}
	return r + "\"";
}
static std::string some_text(rng &g, const setting &s)
{
	if (std::string(s.key) == "file" && g.chance(70)) {
		static const char *f[] = {"/var/log/recodex/broker", "broker", "/broker", "logs/broker", "/a b/c d", "/x/y.z/broker.log", "a/b/c/d/e"};
		return f[g.below(7)];
	}
	static const char *t[] = {"*", "127.0.0.1", "single", "multi", "", "0", "007", "true", "null", "~", "1.50", "a: b # c", "- x", "{}", "[1]", "http://h/p?q=1&r", "p@ss'w\"o\\rd", " lead", "trail ", "x\ty", "P\xc5\x99\xc3\xadli\xc5\xa1", "debug", "err", "&a", "*b", "!t", "%x", "@", "`", "a\nb", "very-long-"};
	std::string r = t[g.below(31)];
	if (g.chance(5)) r = std::string(5000, 'z');
	if (g.chance(10)) for (int i = 0; i < 8; ++i) r.push_back((char) g.range(0x20, 0x7e));
	return r;
}
static std::string some_number(rng &g, kind k, bool good)
{
	if (good) {
		unsigned long long m = k == PORT ? 65535 : 0;
		static const unsigned long long big[] = {0, 1, 2, 3, 255, 256, 1000, 65535, 65536, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9223372036854775807ull, 1234567890123ull};
		if (m) return std::to_string(g.chance(30) ? (g.chance(50) ? 65535 : g.chance(50) ? 0 : 32768) : g.below(65536));
		if (k == SIZE && g.chance(10)) return "18446744073709551615";
		return std::to_string(g.chance(60) ? big[g.below(15)] : g.next() >> g.range(1, 60));
	}
	switch (g.below(12)) {
	case 0: return "-" + std::to_string(g.below(100000) + 1);
	case 1: return k == PORT ? std::to_string(65536 + g.below(70000)) : k == SIZE ? "18446744073709551616" : std::to_string(9223372036854775808ull + (g.next() >> 1));
	case 2: return "99999999999999999999999999";
	case 3: return std::to_string(g.below(1000)) + ".5";
	case 4: return "abc";
	case 5: return "";
	case 6: return std::to_string(g.below(1000)) + "x";
	case 7: return std::to_string(g.below(100)) + " " + std::to_string(g.below(100));
	case 8: return "1e3";
	case 9: return "true";
	case 10: return k == PORT ? "4294967376" : "-18446744073709551615"; // 80 modulo 2^32; 1 modulo 2^64
	default: return "0x" + std::string(k == PORT ? "1ffff" : "1ffffffffffffffff");
	}
}
static std::string document(rng &g, uint64_t &shape)
{
	int style = (int) g.below(4);
	shape = (uint64_t) style;
	std::vector<std::string> secs = {"", "clients", "workers", "monitor", "notifier", "logger"};
	for (std::size_t i = secs.size(); i > 1; --i) std::swap(secs[i - 1], secs[g.below(i)]);
	int present = style == 0 ? 100 : g.range(10, 90), wrong = g.chance(60) ? 0 : 12;
	std::string r;
	auto value = [&](const setting &s, bool flow) -> std::string {
		shape = mix(shape, hash_str(std::string(s.section) + "." + s.key));
		if (wrong && g.chance(wrong)) {
			shape = mix(shape, 99);
			switch (g.below(5)) {
			case 0: return "[1, 2]";
			case 1: return "{a: 1}";
			case 2: return "~";
			default: if (s.k != TEXT) return quoted(g, some_number(g, s.k, false), flow);
			}
		}
		return quoted(g, s.k == TEXT ? some_text(g, s) : some_number(g, s.k, true), flow);
	};
	for (auto &sec : secs) {
		std::vector<const setting *> mine;
		for (auto &s : all()) if (sec == s.section && g.chance(present)) mine.push_back(&s);
		for (std::size_t i = mine.size(); i > 1; --i) std::swap(mine[i - 1], mine[g.below(i)]);
		if (sec.empty()) { for (auto s : mine) r += std::string(s->key) + ": " + value(*s, false) + "\n"; continue; }
		if (mine.empty() && g.chance(70)) continue;
		if (wrong && g.chance(wrong)) {
			static const char *odd[] = {"5", "[]", "~", "text", "[{port: 5}]", "{}"};
			r += sec + ": " + odd[g.below(6)] + "\n";
			shape = mix(shape, 77);
			continue;
		}
		if (mine.empty()) { r += sec + ":\n"; continue; }
		if (g.chance(50)) {
			r += sec + ":\n";
			for (auto s : mine) r += "    " + std::string(s->key) + ": " + value(*s, false) + (g.chance(10) ? "   # remark" : "") + "\n";
			if (g.chance(10)) r += "    unknown: [1, {a: b}]\n";
		} else {
			r += sec + ": {";
			for (std::size_t i = 0; i < mine.size(); ++i) r += std::string(i ? ", " : "") + mine[i]->key + ": " + value(*mine[i], true);
			r += "}\n";
		}
	}
	// settings at the wrong place mean nothing
	if (g.chance(15)) r += "port: 1234\naddress: wrong\nmax_liveness: x\n";
	if (g.chance(10)) r += "other: {clients: {port: 77}, port: 78}\n";
	if (g.chance(5)) r += "? [complex, key]\n: value\n";
	if (g.chance(3)) { static const char *n[] = {"[]", "5", "~", "", "- clients: {port: 1}"}; r = n[g.below(5)]; }
	return r;
}
static std::string mutate(rng &g, std::string s)
{
	int n = g.range(1, 4);
	for (int i = 0; i < n && !s.empty(); ++i) {
		std::size_t p = g.below(s.size());
		static const char alphabet[] = "0123456789-+:{}[],'\"#&*!|>% \n\tax~.";
		switch (g.below(4)) {
		case 0: s[p] = alphabet[g.below(sizeof alphabet - 1)]; break;
		case 1: s.erase(p, (std::size_t) g.range(1, 3)); break;
		case 2: s.insert(p, 1, alphabet[g.below(sizeof alphabet - 1)]); break;
		default: { std::size_t q = g.below(s.size()), l = std::min<std::size_t>(s.size() - q, (std::size_t) g.range(1, 20)); s.insert(p, s.substr(q, l)); }
		}
	}
	return s;
}

static void judge(rng &g, const std::string &text, uint64_t shape)
{
	YAML::Node doc;
	try {
		doc = YAML::Load(text);
	} catch (const YAML::Exception &) {
		event("not YAML at all");
		return;
	}
	outcome o;
	try {
		o = reference(doc);
	} catch (const YAML::Exception &) {
		return;
	}
	// whatever was in memory before must not matter
	alignas(broker_config) static unsigned char mem[sizeof(broker_config)];
	bool failed = false;
	std::vector<std::string> got, before;
	std::string why;
	for (int round = 0; round < 2; ++round) {
		memset(mem, round ? 0x5a : (int) g.below(256), sizeof mem);
		rep::phase(show(text));
		bool f = false;
		got.clear();
		try {
			broker_config *c = new (mem) broker_config(doc);
			got = values(*c);
			c->~broker_config();
		} catch (const config_error &e) {
			f = true;
			why = e.what();
			if (why.empty()) bad({"C21"}, "a configuration error without a message: " + show(text));
		} catch (const std::exception &e) {
			bad({"C21"}, std::string("another exception than a configuration error: ") + e.what() + ", document " + text);
			return;
		}
		if (round && (f != failed || got != before)) { bad({"C21"}, "the same document was read in two ways: " + text); return; }
		failed = f;
		before = got;
	}
	++rep::steps;
	event(failed ? "documents refused" : "documents read");
	if (!o.judged) { event("ambiguous documents (only exceptions and determinacy judged)"); return; }
	uint64_t sig = mix(shape, (uint64_t) o.must_fail * 2 + failed);
	if (o.must_fail) {
		if (!failed) bad({"C21"}, "no error although a number is not in range or the document is no map: " + text);
	} else if (failed) {
		if (!o.may_fail) bad({"C21"}, "a valid document was refused (" + why + "): " + text);
	} else {
		for (std::size_t i = 0; i < got.size(); ++i) {
			if (o.sure[i] && got[i] != o.want[i]) bad({"C21"}, std::string(all()[i].section) + "." + all()[i].key + " is '" + show(got[i]) + "' instead of '" + show(o.want[i]) + "' in: " + text);
			if (o.want[i] != all()[i].fallback) sig = mix(sig, i);
		}
		event("settings compared", got.size());
	}
	hit("C21", sig);
	rep::histories.insert(hash_str(text));
}

int main(int argc, char **argv)
{
	std::string out;
	uint64_t seed = 1;
	long budget = 0; // seconds
	int64_t budget_from = budget_clock();
	long runs = 1000;
	bool one = false;
	rep::profile = "documents";
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--out") out = next();
		else if (a == "--profile") rep::profile = next();
		else if (a == "--seed") seed = std::stoull(next());
		else if (a == "--budget") budget = std::stol(next());
		else if (a == "--runs") runs = std::stol(next());
		else if (a == "--epseed") { rep::epseed = std::stoull(next()); one = true; }
		else if (a == "--trace") rep::trace = true;
	}
	rep::install();
	for (long i = 0; i < runs; ++i) {
		if (budget && i > 0 && budget_clock() - budget_from > budget) break;
		if (!one) rep::epseed = mix(mix(seed, hash_str(rep::profile)), (uint64_t) i);
		rng g(rep::epseed);
		alarm(60);
		uint64_t shape = 0;
		std::string text = document(g, shape);
		if (rep::profile == "mutated") { text = mutate(g, text); shape = mix(shape, hash_str(text) % 64); }
		if (one) printf("%s\n", text.c_str());
		judge(g, text, shape);
		if (i < 3) rep::sample(show(text));
		// the defaults
		if (i == 0) {
			alignas(broker_config) static unsigned char mem[sizeof(broker_config)];
			for (int fill : {0, 0xff, 0x5a}) {
				memset(mem, fill, sizeof mem);
				broker_config *c = new (mem) broker_config();
				auto v = values(*c);
				for (std::size_t k = 0; k < v.size(); ++k) if (v[k] != all()[k].fallback) bad({"C21"}, std::string("default of ") + all()[k].section + "." + all()[k].key + " is '" + show(v[k]) + "'");
				c->~broker_config();
			}
		}
		++rep::episodes;
		if (one || rep::findings.size() > 100) break;
	}
	alarm(0);
	return rep::output(out);
}
