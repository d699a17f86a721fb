#!/usr/bin/env python3
"""Runs the check of one property:  python3 check.py C05

Builds the code of /repo's working tree with sanitizers (into /verif/build, keyed by content), runs the workloads of
the property under its monitors, writes evidence/<id>.json, and exits
  0  the property held on everything observed
  1  violated (a VIOLATION line names the replay file)
  2  no verdict (the harness failed, or observed nothing)
VERIF_SEED, VERIF_TIER=quick|thorough select the exploration; REPO overrides /repo (development only).
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CORES = os.cpu_count() or 8
sys.path.insert(0, os.path.join(VERIF, "tools"))


class HarnessError(Exception):
    pass


# ------------------------------------------------------------------ build
CXX = "/usr/bin/g++"
COMMON = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB",
          "-DSPDLOG_FMT_EXTERNAL"]
CONFIGS = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS",
             "-D_GLIBCXX_SANITIZE_VECTOR"],
    "tsan": ["-O1", "-fsanitize=thread", "-D_GLIBCXX_ASSERTIONS"],
    # a minimal definition of the program's own configuration
}
SAN_LINK = {"asan": ["-fsanitize=address,undefined"], "tsan": ["-fsanitize=thread"]}
LIBS = ["-lspdlog", "-lfmt", "-lyaml-cpp", "-lzmq", "-lcurl", "-lboost_system", "-lboost_filesystem",
        "-lboost_program_options", "-lpthread", "-ldl"]


def file_hash(paths):
    h = hashlib.sha1()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha1(f.read()).digest())
    return h.hexdigest()


def repo_sources():
    src = os.path.join(REPO, "src")
    files = []
    for d, _, names in os.walk(src):
        for n in names:
            if n.endswith((".cpp", ".h", ".hpp", ".cc", ".cxx", ".ipp")):
                files.append(os.path.join(d, n))
    return sorted(files)


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        return None
    cache = os.environ.get("VERIF_CACHE")  # development only: objects by preprocessed source
    if cache:
        pp = subprocess.run(cmd + ["-E", "-P", src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        stored = os.path.join(cache, hashlib.sha1(pp.stdout + " ".join(c for c in cmd if not c.startswith("-I")).encode()).hexdigest() + ".o")
        if pp.returncode == 0 and os.path.exists(stored):
            shutil.copy(stored, obj)
            return None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return "%s:\n%s" % (src, r.stdout[-4000:])
    os.replace(tmp, obj)
    if cache and pp.returncode == 0:
        shutil.copy(obj, stored)
    return None


def build(targets):
    """targets: list of (config, harness); returns {(config, harness): binary}"""
    files = repo_sources()
    if not files:
        raise HarnessError("no sources in " + REPO)
    tree = file_hash(files)
    hfiles = sorted(glob.glob(os.path.join(VERIF, "harness", "*")))
    htree = file_hash(hfiles)
    jobs, links = {}, []
    result = {}
    for config, harness in targets:
        out = os.path.join(BUILD, config)
        os.makedirs(out, exist_ok=True)
        flags = [CXX] + COMMON + CONFIGS[config] + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "harness")]
        fl = hashlib.sha1(" ".join(flags).encode()).hexdigest()[:8]
        objs = []
        program = harness == "broker"
        for s in files:
            if not s.endswith((".cpp", ".cc", ".cxx")):
                continue
            base = os.path.basename(s)
            core = base in ("main.cpp", "broker_core.cpp")
            if core and not program:
                continue
            cmd = list(flags)
            if core:
                cmd += ["-include", os.path.join(VERIF, "harness", "spdlog_shim.h")]
            rel = os.path.relpath(s, REPO).replace("/", "_")
            o = os.path.join(out, "%s.%s.%s.o" % (rel, tree[:16], fl + (htree[:6] if core else "")))
            jobs[o] = (s, o, cmd)
            objs.append(o)
        if program:
            extra = ["interpose.cpp"]
        else:
            extra = [harness + ".cpp"]
            if harness in ("rea",):
                extra.append("interpose.cpp")
        for e in extra:
            s = os.path.join(VERIF, "harness", e)
            o = os.path.join(out, "h_%s.%s.%s.%s.o" % (e, tree[:16], htree[:16], fl))
            # the interposer's own bookkeeping must not be seen by the sanitizers
            jobs[o] = (s, o, [f for f in flags if not f.startswith("-fsanitize")] if e == "interpose.cpp" else flags)
            objs.append(o)
        binary = os.path.join(out, "%s.%s.%s" % (harness, tree[:16], htree[:16]))
        links.append((binary, objs, config))
        result[(config, harness)] = binary
    # big files first
    todo = sorted(jobs.values(), key=lambda j: -(os.path.getsize(j[0]) + (200000 if "harness" in j[0] or "broker_core" in j[0] or "handler" in j[0] else 0)))
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        errors = [e for e in ex.map(compile_one, todo) if e]
    if errors:
        raise HarnessError("build failed: " + errors[0])

    def link(l):
        binary, objs, config = l
        if os.path.exists(binary):
            return None
        tmp = binary + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + SAN_LINK[config] + objs + ["-rdynamic", "-o", tmp] + LIBS, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return r.stdout[-4000:]
        os.replace(tmp, binary)
        return None
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        errors = [e for e in ex.map(link, links) if e]
    if errors:
        raise HarnessError("link failed: " + errors[0])
    return result


def prune_build():
    """Old builds are of no use (development leaves many)."""
    for config in os.listdir(BUILD) if os.path.isdir(BUILD) else []:
        d = os.path.join(BUILD, config)
        if not os.path.isdir(d):
            continue
        for n in os.listdir(d):
            p = os.path.join(d, n)
            try:
                if os.path.isfile(p) and time.time() - os.path.getmtime(p) > 6 * 3600:
                    os.unlink(p)
            except OSError:
                pass


# ------------------------------------------------------------------ verdict bookkeeping
class Run:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.findings = []  # dicts: msg, replay (callable or text)
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.observed = {}
        self.notes = []
        self.other = {}
        self.rule = ""
        self.assumptions = []

    def observe(self, key, n=1):
        self.observed[key] = self.observed.get(key, 0) + n

    def violation(self, msg, replay):
        self.findings.append((msg, replay))


def known_findings(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def conclude(run, minimum):
    known = known_findings(run.prop)
    new, seen_known = [], {}
    for msg, replay in run.findings:
        k = next((d for r, d in known if r.search(msg)), None)
        if k:
            seen_known[k] = seen_known.get(k, 0) + 1
        else:
            new.append((msg, replay))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (run.prop, k))
    replay_path = None
    if new:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        replay_path = os.path.join(d, "%s-seed%d.txt" % (run.prop, SEED))
        with open(replay_path, "w", errors="replace") as f:
            f.write("property %s, seed %d, tier %s, %d violation(s)\n\n" % (run.prop, SEED, TIER, len(new)))
            for msg, _ in new[:20]:
                f.write("* " + msg + "\n")
            f.write("\n")
            text = new[0][1]
            if callable(text):
                try:
                    text = text()
                except Exception as e:  # the replay is a courtesy, the verdict stands
                    text = "(no replay: %s)" % e
            f.write(text or "")
            f.write("\n")
    evidence = {
        "property": run.prop, "tier": TIER, "seed": SEED, "level": LEVEL.get(run.prop, "exploration"),
        "coverage": {"evaluations": run.evals, "distinct_nontrivial": len(run.distinct), "rule": run.rule,
                     "samples": run.samples[:12] or ["(nothing was observed)"], "observed": run.observed},
        "assumptions": run.assumptions,
        "wall_s": round(time.time() - run.t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", run.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if new:
        for msg, _ in new[:5]:
            print("violated: " + msg[:500])
        print("VIOLATION property=%s replay=%s" % (run.prop, replay_path))
        return 1
    print("%s: %d evaluations, %d distinct, %.1f s" % (run.prop, run.evals, len(run.distinct), time.time() - run.t0))
    if len(run.distinct) < minimum:
        print("NO VERDICT: only %d distinct situations were observed (expected at least %d)" % (len(run.distinct), minimum))
        return 2
    return 0


ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "LC_ALL": "C.UTF-8",
})


def run_proc(cmd, timeout, env=None, cwd=None):
    e = dict(ENV)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd)
        return r.returncode, r.stdout.decode("utf-8", "replace"), r.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace"), (x.stderr or b"").decode("utf-8", "replace")


LEVEL = {}

import checks  # noqa: E402  (tools/checks.py: the table of properties)


def main():
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    if prop == "--setup":
        # nothing to prepare beyond checking that the tools are there; every check builds what it needs
        for t in (CXX, "/usr/bin/python3"):
            if not os.path.exists(t):
                print("missing " + t)
                return 1
        return 0
    if prop not in checks.CHECKS:
        print("usage: check.py " + " | ".join(sorted(checks.CHECKS)))
        return 2
    prune_build()
    try:
        run = Run(prop)
        minimum = checks.CHECKS[prop](sys.modules[__name__], run)
        return conclude(run, minimum)
    except HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
