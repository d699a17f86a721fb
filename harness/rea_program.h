// C22: the broker program as a whole, started with good and bad configurations.
#include <fcntl.h>
#include <ftw.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>

static std::string g_broker; // the program under test
static std::string g_broker_copy;

static int rm_entry(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static void remove_tree(const std::string &p)
{
	if (p.compare(0, g_scratch.size() + 1, g_scratch + "/") == 0) nftw(p.c_str(), rm_entry, 16, FTW_DEPTH | FTW_PHYS);
}
static void write_file(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary) << s; }
static std::string read_file(const std::string &p)
{
	std::ifstream f(p, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}

struct program {
	pid_t pid = -1;
	int status = 0;
	bool ended = false;
	std::string dir;

	// runs as an unprivileged user with only the scratch directory of its own
	bool start(const std::string &d, const std::vector<std::string> &args)
	{
		dir = d;
		std::string out = dir + "/.stdout", err = dir + "/.stderr";
		int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0666), e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0666);
		std::vector<char *> av;
		av.push_back((char *) g_broker_copy.c_str());
		for (auto &a : args) av.push_back((char *) a.c_str());
		av.push_back(nullptr);
		pid = fork();
		if (pid == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			if (chdir(dir.c_str())) _exit(90);
			dup2(o, 1);
			dup2(e, 2);
			int n = open("/dev/null", O_RDONLY);
			dup2(n, 0);
			if (setgid(65534) || setuid(65534)) {
				// stays what it is
			}
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			signal(SIGPIPE, SIG_DFL);
			alarm(0);
			execv(av[0], av.data());
			_exit(90);
		}
		close(o);
		close(e);
		return pid > 0;
	}
	bool poll()
	{
		if (!ended && pid > 0 && waitpid(pid, &status, WNOHANG) == pid) ended = true;
		return ended;
	}
	bool wait(int ms)
	{
		int64_t t0 = now_ns();
		while (!poll() && now_ns() - t0 < (int64_t) ms * 1000000) nap(2000);
		return ended;
	}
	void kill9()
	{
		if (poll() || pid <= 0) return;
		::kill(pid, SIGKILL);
		waitpid(pid, &status, 0);
		ended = true;
	}
	std::string err() const { return read_file(dir + "/.stderr"); }
	std::string how() const
	{
		std::string s = WIFEXITED(status) ? "exit status " + std::to_string(WEXITSTATUS(status)) : "signal " + std::to_string(WTERMSIG(status));
		return s + ", stderr: " + show(err()).substr(0, 900);
	}
};

static bool can_connect(const std::string &host, int port)
{
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	inet_pton(AF_INET, host.c_str(), &a.sin_addr);
	a.sin_port = htons((uint16_t) port);
	bool ok = connect(fd, (sockaddr *) &a, sizeof a) == 0;
	close(fd);
	return ok;
}

struct settings {
	std::string queue, client_address = "127.0.0.1", worker_address = "127.0.0.1", log_file, level = "debug", extra;
	long long client_port = 0, worker_port = 0, monitor_port = 0, ping_interval = 60000, max_liveness = 4, max_failures = 3;
	std::string frontend = "http://127.0.0.1", user = "u", password = "p";
	int frontend_port = 1;
	bool defaults = false; // leave out what has the wanted default
	std::string yaml(rng &g) const
	{
		std::vector<std::string> parts;
		auto q = [](const std::string &s) { return "\"" + s + "\""; };
		if (!queue.empty()) parts.push_back("queue_manager: " + q(queue) + "\n");
		parts.push_back("clients:\n" + (client_address == "*" && defaults ? std::string() : "    address: " + q(client_address) + "\n") + "    port: " + std::to_string(client_port) + "\n");
		parts.push_back("workers:\n" + (worker_address == "*" && defaults ? std::string() : "    address: " + q(worker_address) + "\n") + "    port: " + std::to_string(worker_port) + "\n    max_liveness: " + std::to_string(max_liveness) +
			"\n    ping_interval: " + std::to_string(ping_interval) + "\n" + (max_failures == 3 && defaults ? std::string() : "    max_request_failures: " + std::to_string(max_failures) + "\n"));
		parts.push_back("monitor:\n" + (defaults ? std::string() : std::string("    address: 127.0.0.1\n")) + "    port: " + std::to_string(monitor_port) + "\n");
		parts.push_back("notifier:\n    address: " + q(frontend) + "\n    port: " + std::to_string(frontend_port) + "\n    username: " + q(user) + "\n    password: " + q(password) + "\n");
		parts.push_back("logger:\n    file: " + q(log_file) + "\n    level: " + q(level) + "\n    max-size: 1048576\n    rotations: 2\n");
		if (!extra.empty()) parts.push_back(extra);
		for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[g.below(i)]);
		std::string r = g.chance(30) ? "---\n# configuration\n" : "";
		for (auto &p : parts) r += p;
		return r;
	}
};

static std::string program_dir(uint64_t seed)
{
	std::string d = g_scratch + "/p" + std::to_string(seed % 1000000007ull);
	chmod(g_scratch.c_str(), 0755);
	mkdir(d.c_str(), 0755);
	chmod(d.c_str(), 0777);
	if (g_broker_copy.empty()) {
		g_broker_copy = g_scratch + "/recodex-broker";
		write_file(g_broker_copy, read_file(g_broker));
		chmod(g_broker_copy.c_str(), 0755);
	}
	return d;
}
static std::vector<std::string> command_line(rng &g, const std::string &dir, const std::string &yaml, std::string &form)
{
	std::string f = dir + "/settings.yml";
	int k = (int) g.below(5);
	if (k == 0) f = dir + "/config.yml";
	write_file(f, yaml);
	chmod(f.c_str(), 0644);
	switch (k) {
	case 0: form = "config.yml in the working directory"; return {};
	case 1: form = "-c file"; return {"-c", f};
	case 2: form = "--config file"; return {"--config", f};
	case 3: form = "--config=file"; return {"--config=" + f};
	default: form = "relative path"; return {"-c", "settings.yml"};
	}
}

// ---------------------------------------------------------------- valid configurations
static std::string program_valid(rng &g, const std::string &dir, bool &again)
{
	const int PATIENCE = 20000;
	again = false;
	rep::phase("program: valid configuration");
	http_server fe;
	if (!fe.start()) { fprintf(stderr, "HARNESS no port for the frontend\n"); _exit(93); }
	void *ctx = zmq_ctx_new();
	std::vector<void *> socks;
	auto peer = [&](const std::string &id, int type = ZMQ_DEALER) { void *s = new_peer(ctx, id, type); socks.push_back(s); return s; };
	settings c;
	void *mon = peer("recodex-monitor", ZMQ_ROUTER);
	for (int i = 0; i < 20 && !c.monitor_port; ++i) {
		int p = free_port();
		if (zmq_bind(mon, ("tcp://127.0.0.1:" + std::to_string(p)).c_str()) == 0) c.monitor_port = p;
	}
	c.client_port = free_port();
	do c.worker_port = free_port(); while (c.worker_port == c.client_port);
	c.defaults = g.chance(40);
	static const char *queues[] = {"", "single", "multi"};
	static const char *hosts[] = {"127.0.0.1", "*", "127.0.0.7", "127.0.0.1"};
	c.queue = queues[g.below(3)];
	c.client_address = hosts[g.below(4)];
	c.worker_address = hosts[g.below(4)];
	c.max_failures = g.range(1, 4);
	bool dying = g.chance(30); // a configuration in which silent workers die quickly
	int how = (int) g.below(3);
	if (dying) { c.ping_interval = g.range(50, 150); c.max_liveness = g.range(1, 3); }
	else if (how == 0) { c.ping_interval = 60000; c.max_liveness = g.range(1, 5); }
	else if (how == 1) { c.ping_interval = g.range(20, 100); c.max_liveness = 5000; }
	else { c.ping_interval = 20000; c.max_liveness = 10; }
	std::string prefix = g.chance(50) ? "/api/broker" : "";
	c.frontend = "http://127.0.0.1" + prefix;
	c.frontend_port = fe.port;
	if (g.chance(30)) c.user = c.password = "";
	else { c.user = "user" + std::to_string(g.below(10)); c.password = "pw " + std::to_string(g.below(10)); }
	int where = (int) g.below(4);
	c.log_file = where == 0 ? dir + "/log/deep/er/brk" : where == 1 ? dir + "/brk" : where == 2 ? "brk" : "log/brk";
	std::string log_at = c.log_file[0] == '/' ? c.log_file : dir + "/" + c.log_file;
	c.level = g.chance(50) ? "debug" : g.chance(50) ? "info" : g.chance(50) ? "off" : "critical";
	if (g.chance(20)) c.extra = "unknown_section: {a: 1}\n";
	std::string yaml = c.yaml(g), form, trouble;
	auto args = command_line(g, dir, yaml, form);
	program p;
	std::vector<std::string> f;
	std::string at_client = c.client_address == "*" ? "127.0.0.1" : c.client_address, at_worker = c.worker_address == "*" ? "127.0.0.1" : c.worker_address;
	std::string what = "queue manager " + (c.queue.empty() ? std::string("not named") : c.queue) + ", clients " + c.client_address + ", workers " + c.worker_address + ", log " + c.log_file + " at " + c.level + ", " + form;
	auto run = [&]() -> std::string {
		if (!p.start(dir, args)) { fprintf(stderr, "HARNESS cannot start the program\n"); _exit(93); }
		void *cl = peer("cl");
		zmq_connect(cl, ("tcp://" + at_client + ":" + std::to_string(c.client_port)).c_str());
		peer_send(cl, {"unfreeze"});
		int64_t t0 = now_ns();
		bool up = false;
		while (!up && !p.poll() && now_ns() - t0 < (int64_t) PATIENCE * 1000000) up = await(cl, f, 20);
		if (p.ended) {
			// somebody else may have taken a port in the meantime
			again = can_connect(at_client, (int) c.client_port) || can_connect(at_worker, (int) c.worker_port) || p.err().find("ddress already in use") != std::string::npos;
			return "the program ended: " + p.how();
		}
		if (!up) return "a client at the configured address is not answered";
		auto worker = [&](const std::string &id) {
			void *w = peer(id);
			zmq_connect(w, ("tcp://" + at_worker + ":" + std::to_string(c.worker_port)).c_str());
			return w;
		};
		if (dying) {
			void *w = worker("mortal");
			peer_send(w, {"init", "gm", "env=c"});
			peer_send(w, {"ping"});
			if (!await(w, f, PATIENCE)) return "a worker at the configured address is not answered";
			nap((c.ping_interval * (c.max_liveness + 2) + 2500) * 1000); // the event loop waits for up to 1 s
			peer_send(w, {"ping"});
			if (!await(w, f, PATIENCE) || f != std::vector<std::string>{"intro"}) return "a worker silent for " + std::to_string(c.max_liveness + 2) + " intervals of " + std::to_string(c.ping_interval) + " ms was answered " + show(f) + " (max_liveness " + std::to_string(c.max_liveness) + ")";
		} else {
			void *w0 = worker("w0");
			int64_t registered = now_ns();
			peer_send(w0, {"init", "g", "env=c"});
			peer_send(w0, {"ping"});
			if (!await(w0, f, PATIENCE) || f != std::vector<std::string>{"pong"}) return "a worker at the configured address was answered " + show(f);
			// the queue manager
			auto submit = [&](const std::string &id, const std::string &group) {
				peer_send(cl, {"eval", id, "hwgroup=" + group, "", "x"});
				return await(cl, f, PATIENCE) && f == std::vector<std::string>{"ack"} && await(cl, f, PATIENCE) && f == std::vector<std::string>{"accept"};
			};
			if (!submit("j1", "g")) return "a submission was answered " + show(f);
			if (!await(w0, f, PATIENCE) || f.size() < 2 || f[1] != "j1") return "a job was not dispatched";
			if (!submit("j2", "g")) return "a submission was answered " + show(f);
			void *w1 = worker("w1");
			peer_send(w1, {"init", "g", "env=c"});
			peer_send(w1, {"ping"});
			bool moved = false;
			while (true) {
				if (!await(w1, f, PATIENCE)) return "a ping was not answered";
				if (f[0] == "pong") break;
				if (f.size() > 1 && f[0] == "eval" && f[1] == "j2") moved = true;
			}
			if (moved != (c.queue != "multi")) return std::string("a job waiting for a busy worker was ") + (moved ? "" : "not ") + "given to a newly registered one";
			// the addresses
			for (int side = 0; side < 2; ++side) {
				std::string a = side ? c.worker_address : c.client_address;
				int port = (int) (side ? c.worker_port : c.client_port);
				for (const char *h : {"127.0.0.1", "127.0.0.7", "127.0.0.9"}) {
					bool want = a == "*" || a == h;
					if (can_connect(h, port) != want) { again = true; return std::string(side ? "workers" : "clients") + ": the program configured for " + a + " does " + (want ? "not " : "") + "listen on " + h; }
				}
			}
			// the monitor
			bool seen = false;
			for (int k = 0; k < 400 && !seen; ++k) {
				peer_send(w0, {"progress", "j1", "TASK"});
				if (await(mon, f, 50)) seen = f.size() == 3 && f[1] == "j1" && f[2] == "TASK";
			}
			if (!seen) return "no progress message reached the monitor at the configured address";
			// failures
			void *w2 = worker("w2");
			peer_send(w2, {"init", "gf", "env=c"});
			peer_send(w2, {"ping"});
			if (!await(w2, f, PATIENCE)) return "a worker is not answered";
			if (!submit("jf", "gf")) return "a submission was answered " + show(f);
			int sends = 0;
			if (!await(w2, f, PATIENCE) || f.size() < 2 || f[0] != "eval" || f[1] != "jf") return "a job was not dispatched";
			while (true) {
				++sends;
				peer_send(w2, {"done", "jf", "INTERNAL_ERROR", "bad luck"});
				peer_send(w2, {"ping"});
				// the repeated job, if any, comes before the pong
				if (!await(w2, f, PATIENCE)) return "no answer";
				if (f[0] != "eval" || sends > 20) break;
				if (!await(w2, f, PATIENCE) || f[0] != "pong") return "a ping was answered with " + show(f);
			}
			if (sends != c.max_failures) return "a job that always fails was sent " + std::to_string(sends) + " times, max_request_failures is " + std::to_string(c.max_failures);
			// the frontend
			int64_t f0 = now_ns();
			while (fe.count() < 1 && now_ns() - f0 < (int64_t) PATIENCE * 1000000) nap(2000);
			auto reqs = fe.requests();
			if (reqs.empty()) return "the failure was not reported to the frontend at the configured address";
			while (fe.requests()[0].answered_ns == 0 && now_ns() - f0 < (int64_t) PATIENCE * 1000000) nap(2000);
			report r = decode_report(fe.requests()[0], prefix, c.user.empty() ? "" : "Basic " + base64(c.user + ":" + c.password));
			if (!r.ok) return "the report to the frontend: " + r.why;
			if (r.type != "job-status" || r.id != "jf" || r.status != "FAILED") return "the frontend was told " + r.type + " " + show(r.id) + " " + show(r.status);
			// the workers are still known
			int64_t lived = (now_ns() - registered) / 1000000;
			if (lived < c.ping_interval * c.max_liveness / 2) {
				peer_send(w1, {"ping"});
				do if (!await(w1, f, PATIENCE)) return "a ping was not answered"; while (f[0] == "eval");
				if (f[0] != "pong") return "a worker was forgotten after " + std::to_string(lived) + " ms of silence (interval " + std::to_string(c.ping_interval) + " ms, max_liveness " + std::to_string(c.max_liveness) + ")";
			}
		}
		if (p.poll()) return "the program ended: " + p.how();
		// the log
		struct stat st;
		bool there = stat(log_at.c_str(), &st) == 0 || stat((log_at + ".log").c_str(), &st) == 0;
		if (!there) return "there is no log file at the configured place";
		if (c.level != "off" && st.st_size == 0) return "nothing was logged at level " + c.level;
		if (c.level == "off" && st.st_size != 0) return "something was logged with level off";
		return "";
	};
	trouble = run();
	p.kill9();
	std::string err = p.err();
	if (trouble.empty() && (err.find("Sanitizer") != std::string::npos || err.find("runtime error") != std::string::npos)) trouble = "sanitizer report: " + show(err).substr(0, 900);
	for (auto s : socks) zmq_close(s);
	zmq_ctx_term(ctx);
	fe.stop();
	hit("C22", mix(hash_str(what), mix((uint64_t) c.max_failures * 2 + dying, (uint64_t) c.ping_interval)));
	event("valid configurations started");
	rep::histories.insert(hash_str(what));
	rep::sample("valid: " + what);
	return trouble.empty() ? "" : what + ": " + trouble + (rep::trace ? "\n" + yaml : "");
}

// ---------------------------------------------------------------- invalid ones
static void program_invalid(rng &g, const std::string &dir)
{
	const int PATIENCE = 30000;
	rep::phase("program: invalid configuration");
	settings c;
	c.client_port = free_port();
	do c.worker_port = free_port(); while (c.worker_port == c.client_port);
	c.monitor_port = free_port();
	c.log_file = dir + "/log/broker";
	c.queue = g.chance(50) ? "single" : "multi";
	std::string yaml, form, what;
	std::vector<std::string> args;
	bool have_args = false;
	int blocker = -1;
	auto replace = [&](const std::string &a, const std::string &b) {
		yaml = c.yaml(g);
		auto i = yaml.find(a);
		if (i == std::string::npos) { fprintf(stderr, "HARNESS %s is not in the configuration\n", a.c_str()); _exit(93); }
		yaml.replace(i, a.size(), b);
		what = b.substr(0, 60);
	};
	auto occupy = [&](int port, const char *host) {
		blocker = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		sockaddr_in a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		inet_pton(AF_INET, host, &a.sin_addr);
		a.sin_port = htons((uint16_t) port);
		return bind(blocker, (sockaddr *) &a, sizeof a) == 0 && listen(blocker, 4) == 0;
	};
	static const char *bad_numbers[] = {"-1", "seven", "65536", "99999999999999999999999", "1.5", "\"\"", "0x1FFFF", "12a", "-80", "4294967297", "9658,9659"};
	static const char *bad_sizes[] = {"-1", "many", "99999999999999999999999", "2.5", "\"\"", "3 4", "-9223372036854775809"};
	static const char *bad_hosts[] = {"256.256.256.256", "192.0.2.17", "1.2.3.4.5.6", "no such host", "", "/", "203.0.113.250"};
	static const char *bad_queues[] = {"Single", "multi ", "fifo", "", "MULTI", "singlemulti", "null", "1"};
	std::string num = bad_numbers[g.below(sizeof bad_numbers / sizeof *bad_numbers)], size = bad_sizes[g.below(sizeof bad_sizes / sizeof *bad_sizes)], host = bad_hosts[g.below(sizeof bad_hosts / sizeof *bad_hosts)];
	bool side = g.chance(50);
	int kind = (int) g.below(20);
	switch (kind) {
	case 0: args = {"-c", dir + "/missing.yml"}; have_args = true; what = "missing configuration file"; break;
	case 1: args = {"-c", dir}; have_args = true; what = "a directory as the configuration file"; break;
	case 2:
		write_file(dir + "/secret.yml", c.yaml(g));
		chmod(dir.c_str(), 0777);
		chmod((dir + "/secret.yml").c_str(), 0);
		args = {"-c", dir + "/secret.yml"};
		have_args = true;
		what = "unreadable configuration file";
		if (geteuid() != 0) return;
		break;
	case 3: { static const char *t[] = {"clients: [", "a: b: c\n", "\tclients:\n\t\tport: 1\n", "{", "clients:\n  port: 1\n workers:\n", "\"abc", "- a\nb: c\n", "%YAML 9.9.9\n---\n*x\n", "a: *undefined\n", "clients: {address: \"x}\n"}; yaml = t[g.below(10)]; what = "malformed: " + show(yaml); bool fine = false; try { fine = YAML::Load(yaml).IsMap(); } catch (...) {} if (fine) yaml = "["; break; }
	case 4: { static const char *t[] = {"", "just text\n", "- 1\n- 2\n", "42\n", "~\n", "# nothing\n", "[]\n", "--- |\n  clients: 1\n"}; yaml = t[g.below(8)]; what = "not a map: " + show(yaml); break; }
	case 5: { yaml = g.bytes((std::size_t) g.range(1, 200)); what = "binary garbage"; bool fine = false; try { fine = YAML::Load(yaml).IsMap(); } catch (...) {} if (fine) yaml = "["; break; }
	case 6: case 7: replace("port: " + std::to_string(side ? c.client_port : c.worker_port), "port: " + num); break;
	case 8: { const char *k[] = {"max_liveness: 4", "ping_interval: 60000", "max_request_failures: 3", "max-size: 1048576", "rotations: 2"}; std::string x = k[g.below(5)]; replace(x, x.substr(0, x.find(':')) + ": " + size); break; }
	case 9: if (g.chance(50)) replace("port: " + std::to_string(c.monitor_port), "port: " + num); else replace("port: 1\n", "port: " + num + "\n"); break;
	case 10: case 11: c.queue = "QQ"; replace("queue_manager: \"QQ\"", std::string("queue_manager: \"") + bad_queues[g.below(8)] + "\""); break;
	case 12: case 13: c.client_address = side ? host : "127.0.0.1"; c.worker_address = side ? "127.0.0.1" : host; yaml = c.yaml(g); what = std::string(side ? "client" : "worker") + " address '" + host + "'"; break;
	case 14:
		if (g.chance(50)) { c.client_address = c.worker_address = "*"; }
		if (!occupy((int) (side ? c.client_port : c.worker_port), "127.0.0.1")) { if (blocker >= 0) close(blocker); return; }
		yaml = c.yaml(g);
		what = std::string(side ? "client" : "worker") + " port in use";
		break;
	case 15: c.worker_port = c.client_port; if (g.chance(50)) c.client_address = "*"; yaml = c.yaml(g); what = "the same port for clients and workers"; break;
	case 16: write_file(dir + "/afile", "x"); c.log_file = dir + "/afile/broker"; yaml = c.yaml(g); what = "log directory below a file"; break;
	case 17:
		if (g.chance(50)) { mkdir((dir + "/ro").c_str(), 0555); chmod((dir + "/ro").c_str(), 0555); c.log_file = dir + (g.chance(50) ? "/ro/broker" : "/ro/sub/broker"); what = "log directory not writable"; if (geteuid() != 0) return; }
		else { mkdir((dir + "/log").c_str(), 0755); chmod((dir + "/log").c_str(), 0777); mkdir((dir + "/log/broker").c_str(), 0755); mkdir((dir + "/log/broker.log").c_str(), 0755); mkdir((dir + "/log/broker.txt").c_str(), 0755); what = "log file is a directory"; }
		yaml = c.yaml(g);
		break;
	case 18: {
		yaml = c.yaml(g);
		std::string f = dir + "/settings.yml";
		write_file(f, yaml);
		switch (g.below(4)) {
		case 0: args = {"--frobnicate", "-c", f}; break;
		case 1: args = {"-c"}; break;
		case 2: args = {"-c", f, "-c", f}; break;
		default: args = {"-c", f, "-x"};
		}
		have_args = true;
		what = "command line";
		for (auto &a : args) what += " " + (a == f ? "FILE" : a);
		break;
	}
	default: {
		// no configuration file in the working directory
		have_args = true;
		what = "no config.yml";
	}
	}
	if (!have_args) args = command_line(g, dir, yaml, form);
	program p;
	if (!p.start(dir, args)) { fprintf(stderr, "HARNESS cannot start the program\n"); _exit(93); }
	bool ended = p.wait(PATIENCE);
	if (!ended) p.kill9();
	std::string err = p.err(), out = read_file(dir + "/.stdout");
	if (blocker >= 0) close(blocker);
	std::string id = std::to_string(kind) + " " + what;
	if (!ended) bad({"C22"}, what + ": the program is still running after " + std::to_string(PATIENCE / 1000) + " s" + (rep::trace ? "\n" + yaml : ""));
	else if (!WIFEXITED(p.status) || WEXITSTATUS(p.status) != 1) bad({"C22"}, what + ": the program ended with " + p.how() + (rep::trace ? "\n" + yaml : ""));
	else if (err.empty() && out.empty()) bad({"C22"}, what + ": the program ended without a message");
	else if (err.find("Sanitizer") != std::string::npos || err.find("runtime error:") != std::string::npos) bad({"C22"}, what + ": " + p.how());
	hit("C22", mix(hash_str(id), hash_str(form)));
	event("refused configurations");
	rep::histories.insert(hash_str(id + form));
	rep::sample("invalid: " + what + ": " + (ended ? p.how().substr(0, 160) : "running"));
	++rep::steps;
}

static void program_episode(uint64_t seed, rng &g, bool valid)
{
	if (g_broker.empty()) { fprintf(stderr, "HARNESS --broker is missing\n"); _exit(93); }
	if (!valid) {
		std::string d = program_dir(seed);
		program_invalid(g, d);
		chmod((d + "/ro").c_str(), 0755);
		remove_tree(d);
		return;
	}
	// a port can be taken by somebody else between its choice and its use: such an attempt is repeated with others
	std::string trouble;
	for (int i = 0; i < 4; ++i) {
		std::string d = program_dir(seed + (uint64_t) i);
		bool again = false;
		rng h(seed); // the same configuration, except for the ports
		trouble = program_valid(h, d, again);
		remove_tree(d);
		if (trouble.empty() || !again) break;
	}
	if (!trouble.empty()) bad({"C22"}, trouble);
	++rep::steps;
}
