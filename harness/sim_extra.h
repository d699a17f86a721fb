// Workloads that are not episodes of the simulation.
#pragma once

// ---------------------------------------------------------------- matching of requirements in bulk (C03)
static void matching_profile(uint64_t seed)
{
	rng R(seed);
	std::vector<std::string> groups = {"g1", "g10", "g2", "g", "G1", "g 1", "1g", "g1g"};
	std::vector<std::string> keys = {"env", "environ", "threads", "os", "ENV", "Threads", "thread", "e"};
	std::vector<std::string> vals = {"c", "cpp", "", "C", "c ", "a=b", "c|cpp", "10", "9", "008x"};
	auto value = [&](const std::string &k) -> std::string {
		if (k == "threads") return R.chance(10) ? "many" : R.chance(5) ? "" : R.chance(12) ? std::to_string((R.chance(50) ? 4294967296ul : R.chance(50) ? 2147483648ul : R.chance(50) ? 65536ul : 1000000000000ul) - 3 + R.below(10)) : (R.chance(4) ? "0" : "") + std::to_string(R.chance(15) ? R.below(100000) : R.below(20));
		return R.pick(vals);
	};
	for (int i = 0; i < 60; ++i) {
		headers_t declared, req;
		std::string g = R.pick(groups);
		for (int n = R.range(0, 5); n > 0; --n) { std::string k = R.pick(keys); declared.emplace(k, value(k)); }
		worker w(R.bytes(5), g, declared);
		for (int k = 0; k < 12; ++k) {
			req.clear();
			if (R.chance(70)) {
				std::string alt;
				for (int n = R.range(1, 4); n > 0; --n) alt += (alt.empty() ? "" : "|") + (R.chance(40) ? g : R.pick(groups));
				if (R.chance(10)) alt += "|";
				if (R.chance(10)) alt = "|" + alt;
				if (R.chance(10)) { auto p = alt.find('|'); if (p != std::string::npos) alt.insert(p, "|"); }
				req.emplace("hwgroup", alt);
			}
			if (R.chance(10)) req.emplace("hwgroup", g + "|x");
			for (auto &d : declared) if (R.chance(40)) req.emplace(d.first, d.first == "threads" && plain_number(d.second) && R.chance(70) ? std::to_string(R.chance(30) ? std::stoul(d.second) + R.below(2) : R.below(std::stoul(d.second) + 2)) : d.second);
			for (int n = R.chance(60) ? 0 : R.range(1, 2); n > 0; --n) { std::string q = R.pick(keys); req.emplace(q, value(q)); }
			bool want = ref_headers(g, declared, req), got;
			std::string desc = "group '" + g + "' declares";
			for (auto &d : declared) desc += " " + d.first + "=" + d.second;
			desc += "; required";
			for (auto &d : req) desc += " " + d.first + "=" + d.second;
			g_text = desc;
			if (g_trace) printf("%s -> %d\n", desc.c_str(), want);
			++g_steps;
			try { got = w.check_headers(req); } catch (const std::exception &e) {
				g_findings.push_back({{"C03", "C11"}, "exception " + std::string(e.what()) + " while matching: " + desc, "matching", seed, i});
				continue;
			}
			uint64_t h = hash_str(desc);
			hit("C03", h);
			g_events[want ? "match" : "no-match"]++;
			if (got != want) g_findings.push_back({{"C03"}, std::string(got ? "a worker is taken to satisfy" : "a worker is not taken to satisfy") + " requirements: " + desc, "matching", seed, i});
		}
	}
}

// ---------------------------------------------------------------- names of workers (C28)
static void naming_profile(uint64_t seed)
{
	rng R(seed);
	std::map<std::string, std::string> names;
	for (int i = 0; i < 400; ++i) {
		std::string id;
		if (i < 256) id = std::string(1, (char) i);
		else id = R.bytes(R.range(1, 40));
		if (i % 5 == 4 && i >= 256) id = std::string(1, '\0') + R.bytes(4);
		std::string d = R.chance(50) ? "" : R.chance(50) ? "worker " + std::to_string(i) : R.bytes(R.range(1, 20));
		worker w(id, "g", {});
		w.description = d;
		std::string want = ref_hex(id) + (d.empty() ? "" : " (" + d + ")"), got = w.get_description();
		++g_steps;
		hit("C28", mix(hash_str(id), hash_str(d)));
		g_text = "name of " + show(id);
		if (g_trace) printf("identity '%s' -> '%s'\n", show(id).c_str(), show(got).c_str());
		if (got != want) g_findings.push_back({{"C28"}, "worker with identity '" + show(id) + "' is named '" + show(got) + "' instead of '" + show(want) + "'", "naming", seed, i});
		if (d.empty()) {
			auto r = names.emplace(got, id);
			if (!r.second && r.first->second != id) g_findings.push_back({{"C28"}, "two identities have the same name " + show(got), "naming", seed, i});
		}
	}
	g_events["names"] += 400;
}

// ---------------------------------------------------------------- what is left behind (C23)
// The same scenario (same sizes, other names) is played again and again on one broker; at the end of every
// generation no worker is registered and no job is unfinished. The memory in use must not depend on how many
// generations came before.
static void leftovers_profile(uint64_t seed)
{
	std::vector<long> bytes, counts;
	static bool hooked = false;
	if (!hooked) { __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook); hooked = true; }
	profile P;
	P.name = "leftovers";
	simulation s(P, seed);
	const uint64_t script = s.R.next();
	s.track_memory = true;
	const int generations = 50, warm = 5;
	const int kinds = (int) (script % 6);
	bool homog = (script >> 8) & 1;
	for (int g = 0; g < generations && !s.broken; ++g) {
		rng G(script); // the same choices in every generation
		char buf[32];
		std::vector<std::string> ids;
		int nw = G.range(1, 5), nj = G.range(3, 25);
		auto wid = [&](int i) { snprintf(buf, sizeof buf, "worker-%05d-%02d-identity", g, i); return std::string(buf); };
		auto jid = [&](int i) { snprintf(buf, sizeof buf, "job-%05d-%03d-with-long-name", g, i); return std::string(buf); };
		std::vector<std::string> hg;
		for (int i = 0; i < nw; ++i) {
			simulation::actor a;
			a.identity = wid(i);
			a.hwgroup = homog ? "g1" : G.chance(50) ? "g1" : "g2";
			a.header_frames = {"env=c", "threads=8"};
			if (kinds & 1) a.desc = "some description";
			a.alive = true;
			s.A.push_back(a);
			std::string job = G.chance(20) ? jid(900 + i) : "";
			s.A.back().held = job;
			auto f = frames{"init", a.hwgroup, "env=c", "threads=8", "", "description=long description of the worker"};
			if (!job.empty()) f.push_back("current_job=" + job);
			s.step("workers", wid(i), f);
		}
		for (int i = 0; i < nj; ++i) {
			frames m = {"eval", jid(i), G.chance(50) ? "hwgroup=g1" : "hwgroup=g1|g2", "env=c", "meta.x=y", "", "payload of the job that is long enough", "another"};
			s.step("clients", s.clients[0], m);
			int x = (int) G.below(10);
			for (std::size_t k = 0; k < s.A.size(); ++k) {
				auto &a = s.A[k];
				if (a.held.empty() || !G.chance(40)) continue;
				std::string j = a.held;
				a.held.clear();
				if (x < 4) s.step("workers", a.identity, {"done", j, "OK"});
				else if (x < 6) s.step("workers", a.identity, {"done", j, "FAILED", "no"});
				else s.step("workers", a.identity, {"done", j, "INTERNAL_ERROR", "no"});
			}
			if (G.chance(10)) s.step("workers", "unknown-peer", {"ping"});
			if (G.chance(10)) { snprintf(buf, sizeof buf, "stranger-%05d-%03d", g, i); std::string st = buf; s.step("workers", st, {"ping"}); s.step("workers", st, {"done", jid(i), "OK"}); s.step("workers", st, {"progress", "x"}); s.step("clients", st, {"eval", "bad" + jid(i), "nobody=has", ""}); s.step("clients", st, {"get-runtime-stats"}); }
			if (G.chance(8) && !s.A.empty() && s.A[0].held.empty()) { std::string id = s.A[0].identity; s.step("workers", id, {"init", "g1", "env=c", "threads=" + std::to_string(9 + (i % 3))}); }
		}
		bool answer = G.chance(60);
		// part of the generations finish their work, in the others the workers die with it
		for (int r = 0; answer && r < 200; ++r) {
			bool any = false;
			for (std::size_t k = 0; k < s.A.size(); ++k) {
				auto &a = s.A[k];
				if (a.held.empty()) continue;
				std::string j = a.held;
				a.held.clear();
				s.step("workers", a.identity, {"done", j, "OK"});
				any = true;
			}
			if (!any) break;
		}
		for (std::size_t k = 0; k < s.L + 1 && !s.W.empty(); ++k) s.tick(s.I + 1);
		for (int k = 0; k < 3; ++k) s.tick(s.I + 1);
		if (!s.W.empty() || !s.waiting.empty()) { g_findings.push_back({{"C23"}, "workers or jobs remain although all workers are dead", "leftovers", seed, g}); break; }
		s.A.clear();
		s.jobs.clear();
		bytes.push_back(g_live_bytes);
		counts.push_back(g_live_count);
	}
	g_events["generations"] += (long) bytes.size();
	if ((int) bytes.size() == generations) {
		// worst of the early against best of the late generations: one-time growth of buffers does not matter
		long b0 = *std::max_element(bytes.begin() + warm, bytes.begin() + 2 * warm), b1 = *std::min_element(bytes.end() - warm, bytes.end());
		long c0 = *std::max_element(counts.begin() + warm, counts.begin() + 2 * warm), c1 = *std::min_element(counts.end() - warm, counts.end());
		const int n = generations - 3 * warm;
		hit("C23", mix(script, (uint64_t) s.multi));
		if (g_trace) for (std::size_t i = 0; i < bytes.size(); ++i) printf("in use: %ld objects, %ld bytes\n", counts[i], bytes[i]);
		if (c1 - c0 >= n / 2 || b1 - b0 >= 64 * n) g_findings.push_back({{"C23"}, "memory in use grows with every generation of workers and jobs: " + std::to_string(c1 - c0) + " objects, " + std::to_string(b1 - b0) + " bytes in " + std::to_string(n) + " generations (" + (s.multi ? "multi" : "single") + " queue)", "leftovers", seed, generations});
	}
}

static bool extra_profile(const std::string &p, uint64_t seed)
{
	if (p == "matching") { matching_profile(seed); return true; }
	if (p == "naming") { naming_profile(seed); return true; }
	if (p == "leftovers") { leftovers_profile(seed); return true; }
	return false;
}
