"""The table of properties: which workloads decide which property."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile, time

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


# ------------------------------------------------------------------ running the harnesses
def harness_env(m, scratch="/tmp"):
    return {"VERIF_SCRATCH": scratch, "TSAN_OPTIONS": "suppressions=%s:halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4" % os.path.join(m.VERIF, "harness", "tsan.supp")}


def shard_run(m, binary, profile, seed, runs, scratch, extra, deadline, state):
    if state["stop"] and m.TIER == "quick":
        return binary, profile, seed, -1, "SKIPPED", None, extra
    out = os.path.join(scratch, "%s-%s-%s-%d.json" % (os.path.basename(os.path.dirname(binary)), os.path.basename(binary)[:3], profile, seed))
    rc, so, se = m.run_proc([binary, "--profile", profile, "--seed", str(seed), "--runs", str(runs), "--out", out, "--budget", str(int(max(20, deadline - 70 - time.time())))] + extra, max(30, deadline - time.time()), harness_env(m, scratch))
    data = None
    if rc in (0, 1) and os.path.exists(out):
        with open(out) as f:
            data = json.load(f)
        os.unlink(out)
        # enough is enough: violations found long ago need no more of them
        if any(state["prop"] in f["props"] for f in data["findings"]) and time.time() > state["enough"]:
            state["stop"] = True
    elif rc != 93 and "DEATH" in se:
        state["deaths"] += 1
        if state["deaths"] >= 4:
            state["stop"] = True
    return binary, profile, seed, rc, se, data, extra


def replay_run(m, binary, profile, epseed, extra=()):
    rc, so, se = m.run_proc([binary, "--profile", profile, "--epseed", str(epseed), "--trace"] + list(extra), 170, harness_env(m))
    lines = so.splitlines()
    cut = next((i for i, l in enumerate(lines) if l.startswith("  !!!")), None)
    if cut is not None and len(lines) > 500:
        lines = lines[max(0, cut - 300):cut + 100]
    return "replay: %s --profile %s --epseed %s --trace %s\n\n%s\n%s" % (binary, profile, epseed, " ".join(extra), "\n".join(lines[-600:]), se[-6000:])


def kind_of_death(se, rc):
    k = re.search(r"(ERROR: \S+Sanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|HANG|Assertion [^\n]*|terminate called[^\n]*|what\(\):[^\n]*)", se)
    return k.group(1) if k else "exit %s" % rc


def execute(m, run, plan, rule, minimum):
    """plan: list of (config, harness, profile, episodes at tier quick, at thorough, processes, extra arguments)"""
    binaries = m.build(sorted(set((c, h) for c, h, *_ in plan)))
    scratch = tempfile.mkdtemp(prefix="run-")
    os.chmod(scratch, 0o755)
    shards = []
    for config, harness, profile, quick, thorough, procs, extra in plan:
        if harness == "broker":
            continue
        total = quick if m.TIER == "quick" else thorough
        if not total:
            continue
        n = max(1, min(total, procs if m.TIER == "quick" else procs * 4))
        extra = list(extra)
        if profile in ("program", "refused"):
            extra += ["--broker", binaries[(config, "broker")]]
        for i in range(n):
            shards.append((binaries[(config, harness)], profile, m.SEED * 1000003 + i * 7919 + sum(map(ord, run.prop)) * 104729, -(-total // n), scratch, extra))
    # the long ones first
    shards.sort(key=lambda s: -s[3])
    errors = []
    limit = 600 if m.TIER == "quick" else 6 * 3600
    deadline = time.time() + limit
    state = {"stop": False, "prop": run.prop, "enough": time.time() + 120, "deaths": 0}
    try:
        with concurrent.futures.ThreadPoolExecutor(m.CORES) as ex:
            results = list(ex.map(lambda s: shard_run(m, *s, deadline, state), shards))
        hangs = sum(1 for r in results if r[5] is None and r[3] not in (-1, 93) and ("HANG" in r[4] or r[3] is None))
        for binary, profile, seed, rc, se, data, extra in results:
            if data is not None:
                digest(m, run, binary, profile, data, extra)
                continue
            if rc == -1 and se == "SKIPPED":
                run.observe("workloads skipped after violations")
                continue
            d = re.search(r"DEATH profile=(\S+) epseed=(\d+) step=(\d+) input=(.*)", se)
            if rc == 93 or not d:
                errors.append("%s %s seed %d ended with %s: %s" % (os.path.basename(binary), profile, seed, rc, se[-2000:]))
                continue
            epseed = d.group(2)
            if "HANG" in se or rc is None:
                # a single hang is only believed if it happens again
                if hangs == 1:
                    with concurrent.futures.ThreadPoolExecutor(4) as ex:
                        again = list(ex.map(lambda _: m.run_proc([binary, "--profile", profile, "--epseed", epseed] + extra, 120, harness_env(m))[0], range(4)))
                    if not any(rc2 in (91, None) for rc2 in again):
                        run.observe("hangs that did not happen again")
                        continue
            run.violation("the code under test died or hung (%s) in step %s of a '%s' episode while processing: %s" % (kind_of_death(se, rc), d.group(3), profile, d.group(4)),
                          (lambda b=binary, p=profile, e=epseed, s=se, x=extra: s[-8000:] + "\n\n" + replay_run(m, b, p, e, x)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if errors and not run.findings:
        raise m.HarnessError(errors[0])
    run.rule = rule
    return minimum


def digest(m, run, binary, profile, data, extra=()):
    run.observe("episodes", data["episodes"])
    run.observe("messages processed", data["steps"])
    run.observe("distinct histories", data["histories"])
    for k, v in data["events"].items():
        run.observe(k, v)
    h = data["hits"].get(run.prop)
    if h:
        run.evals += h["evals"]
        run.distinct.update(h["distinct"])
    if data["samples"] and len(run.samples) < 12:
        run.samples += data["samples"][-12:]
    for f in data["findings"]:
        if run.prop in f["props"] or "*" in f["props"]:
            run.violation("%s [profile %s, episode %s, step %d]" % (f["msg"], f["profile"], f["epseed"], f["step"]),
                          (lambda p=f["profile"], e=f["epseed"]: replay_run(m, binary, p, e, extra)))
        else:
            run.observe("judged against " + "+".join(f["props"]))


DISTINCT = (" Distinct: hash of the abstract situation (mode, kind of event, numbers of workers, idle workers and waiting jobs, limits, and what "
            "the monitor of this property judged); 'observed' counts the events the monitors saw.")
WIRE = ("asan", "rea", "wire", 160, 4000, 8, ())
EXTRA = {"C09": [WIRE], "C10": [WIRE], "C11": [WIRE]}  # property -> further plan entries (other harnesses)


def sim_check(prop, plan, rule, minimum):
    def f(m, run):
        run.assumptions = ["time is virtual in the simulated episodes: clock ticks are the messages the reactor would send",
                           "a message is at least one frame, as on the wire"]
        entries = [("asan", "sim", p, n * 2, n * 30, m.CORES, ()) for p, n in plan] + EXTRA.get(prop, [])
        return execute(m, run, entries, rule + DISTINCT, minimum)
    CHECKS[prop] = f


sim_check("C01", [("mixed", 320), ("deaths", 320), ("failures", 240), ("churn", 160), ("backlog", 80), ("small", 2400)],
          "Seeded episodes of clients and workers (results, failures, silence, deaths, returns, new registrations) with a final drain in which every survivor answers; judged: every result, and every accepted job at the end (exactly one final status, justified by its history).", 500)
sim_check("C02", [("mixed", 320), ("failures", 320), ("churn", 160), ("backlog", 120), ("spread", 160), ("small", 2400)],
          "Seeded episodes; judged after every message: single queue - no waiting job an idle registered worker could run; multi queue - no idle worker with jobs bound to it (bindings reconstructed from choices and dispatches).", 500)
sim_check("C03", [("matching", 1600), ("mixed", 320), ("churn", 160), ("hostile", 80), ("small", 1600)],
          "Random declared/required header sets compared with a reference reading of the matching rules, and every dispatch, acceptance and rejection of seeded episodes.", 2000)
sim_check("C04", [("mixed", 240), ("deaths", 320), ("churn", 320), ("announce", 160), ("backlog", 80), ("small", 2400)],
          "Seeded episodes; judged: every dispatch (receiver registered, idle; job not running elsewhere) and the registry after every message.", 500)
sim_check("C05", [("failures", 480), ("deaths", 320), ("mixed", 160), ("churn", 120), ("announce", 80), ("small", 2400)],
          "Seeded episodes with many internal errors and deaths; judged: every end of an attempt (retry or report) and every dispatch (number of sends).", 300)
sim_check("C06", [("ticks", 480), ("deaths", 160), ("mixed", 160), ("churn", 80), ("small", 1600)],
          "Seeded episodes with ticks from 0 ms to many intervals and random silence; judged: every registered worker at every tick against both bounds of its silence, and every ping.", 200)
sim_check("C07", [("deaths", 640), ("mixed", 160), ("announce", 160), ("backlog", 80), ("small", 2400)],
          "Seeded episodes with single and simultaneous deaths; judged: every job running on or waiting for a dead worker in the step of the death (handed over, ABORTED, FAILED).", 300)
sim_check("C08", [("backlog", 200), ("mixed", 120), ("churn", 80), ("spread", 120), ("small", 1600)],
          "Seeded episodes with backlogs of up to 400 jobs, clock steps in both directions; judged: every dispatch against every job waiting longer that the worker could run.", 300)
sim_check("C09", [("mixed", 400), ("failures", 320), ("deaths", 160), ("hostile", 80), ("small", 1600)],
          "Seeded episodes with random binary payloads of 0-12 frames; judged: every dispatch (first and repeated) and every progress message.", 100)
sim_check("C10", [("mixed", 320), ("freeze", 240), ("hostile", 320), ("stats", 80), ("small", 1600)],
          "Seeded episodes; judged: all messages to clients after every message from anybody.", 500)
sim_check("C11", [("hostile", 1600), ("stale", 160), ("mixed", 80), ("small", 800)],
          "Seeded episodes with 60 hostile messages per 100 ordinary ones (all commands, 0-40 arguments, binary, oversized, wrong sender); judged by ASan/UBSan/library assertions, exceptions, and by effects outside of the sender.", 2000)
sim_check("C12", [("stats", 640), ("freeze", 160), ("deaths", 120), ("churn", 120), ("small", 1600)],
          "Seeded episodes with frequent statistics requests; judged: every value against the specification state at the last tick.", 500)
sim_check("C13", [("announce", 800), ("churn", 160), ("mixed", 80), ("small", 2400)],
          "Seeded episodes in which workers register with jobs of their own (also jobs the broker knows); judged: results, deaths and dispatches of those workers.", 200)
sim_check("C14", [("stale", 640), ("hostile", 320), ("deaths", 120), ("small", 1600)],
          "Seeded episodes with late, repeated, foreign and malformed results; judged: every such result must have no effect at all, in its step and on the later history.", 500)
sim_check("C23", [("leftovers", 48), ("deaths", 80), ("churn", 80), ("small", 400)],
          "50 generations of the same scenario (other names) on one broker, all workers dead and all jobs finished after each; judged: allocations made by the broker that are still live must not grow from generation to generation; returning identities are treated as new.", 40)
sim_check("C25", [("spread", 960), ("mixed", 120), ("failures", 80)],
          "Seeded multi-queue episodes; judged: every choice of a worker against the reconstructed order of choices, and every dispatch against the binding of the job.", 300)
sim_check("C26", [("freeze", 960), ("small", 2400)],
          "Seeded episodes with freezes; judged: every submission while frozen and after, and all ordinary activity while frozen.", 300)
sim_check("C27", [("churn", 800), ("mixed", 120), ("announce", 80), ("small", 2400)],
          "Seeded episodes with repeated identical and changed registrations of busy and idle workers; judged: effects of the registration, jobs handed over, matching against the new registration afterwards.", 300)
sim_check("C28", [("naming", 160), ("churn", 240), ("deaths", 160), ("mixed", 80)],
          "All single bytes and random identities and descriptions; every name of a worker in every log line and every report of seeded episodes.", 500)


# ------------------------------------------------------------------ rea: event loop, threads and sockets
def real_check(prop, plan, rule, minimum, assumptions):
    def f(m, run):
        run.assumptions = assumptions
        return execute(m, run, plan, rule, minimum)
    CHECKS[prop] = f


REAL = ["schedules are those the operating system and the injected delays produced"]
real_check("C15", [("asan", "rea", "delivery", 400, 8000, 8, ()), ("asan", "rea", "answers", 160, 3000, 8, ()), ("asan", "rea", "backlog", 24, 480, 8, ())],
           "Seeded networks of sockets, synchronous and asynchronous handlers (also slow ones, also with a backlog of thousands) on the real event loop with injected delays around socket operations; "
           "every emission and every delivery is logged and judged offline: exactly once to each subscriber, content equal, order per sender and the same order for all subscribers of a key. "
           "Distinct: (kind of receiver, number of messages, order in which senders interleaved).", 300, REAL)
real_check("C16", [("asan", "rea", "stall", 48, 960, 8, ()), ("asan", "rea", "stallbig", 16, 200, 8, ())],
           "The whole broker on loopback sockets with a frontend that does not answer, is slow, fails or cannot be reached, while clients submit and workers answer up to 1500 jobs; judged: every submission acknowledged and accepted, "
           "every job dispatched and every ping answered meanwhile; after recovery every report exactly once, in the order of issue. Distinct: (kind of badness, number of jobs before, workers, queue manager).", 150,
           REAL + ["an answer within 15 s counts as an answer (they normally take milliseconds)"])
real_check("C20", [("asan", "rea", "notify", 640, 16000, 8, ()), ("asan", "rea", "stall", 16, 200, 8, ())],
           "The real notifier and HTTP client against a scripted frontend (200, 4xx, 5xx, broken connections, 0-4 failures in a row; with and without credentials), job ids and messages of arbitrary bytes; requests are parsed and decoded by an independent decoder and compared with what was reported; "
           "pauses between attempts from time stamps plus the time the interposed sleeps skipped. Distinct: (failures, type, credentials, id, message).", 500, REAL)
real_check("C17", [("asan", "rea", "ticks", 96, 1600, 8, ())],
           "The real event loop, idle, flooded, with slow handlers, with very short iterations and with jumps of the wall clock; every tick is compared with the monotonic clock (sum never ahead, never behind by more than an iteration; not negative; not sparse). "
           "Distinct: (load, number of ticks, number of zero ticks).", 20, REAL)
real_check("C18", [("asan", "rea", "terminate", 640, 12000, 8, ()), ("tsan", "rea", "terminate", 160, 3000, 8, ())],
           "14 ways to end the real event loop (before, during, from handlers, during floods, by exceptions, by the context) with up to 3 asynchronous handlers and pending messages; judged: return, iterations after the request, crashes, hangs, remaining threads, late handler calls. "
           "Distinct: (way, handlers, pending messages, ticks seen).", 100, REAL)
real_check("C19", [("tsan", "rea", "delivery", 160, 3000, 8, ()), ("tsan", "rea", "answers", 64, 1200, 8, ()), ("tsan", "rea", "backlog", 8, 160, 8, ()), ("tsan", "rea", "terminate", 320, 6000, 8, ()), ("tsan", "rea", "stack", 48, 1200, 8, ())],
           "The delivery and termination workloads and the whole broker (clients, workers, monitor, failing frontend on loopback) under ThreadSanitizer with injected delays; interposed socket operations check that each socket is used by one thread and never concurrently; handler calls check their thread. "
           "Distinct: (workload, number of calls, interleaving of senders).", 200, REAL + ["libzmq itself is not instrumented; the interposer gives ThreadSanitizer the ordering by messages"])
real_check("C21", [("asan", "cfg", "documents", 40000, 2000000, 8, ()), ("asan", "cfg", "mutated", 40000, 2000000, 8, ())],
           "Generated YAML documents (any subset of the settings, any order, block and flow style, all quotings, wrong types, numbers in and out of range, settings at wrong places, byte mutations) read by the real class into memory with different "
           "previous contents; every setting compared with an independent reading of the document. Distinct: (set of settings given, wrong ones, outcome).", 5000,
           ["yaml-cpp's parser is trusted to split a document into nodes", "documents with duplicate keys and numbers in other notations (octal, signs) are judged only for exceptions and determinacy or the plausible value"])
real_check("C22", [("asan", "rea", "program", 64, 1600, 16, ()), ("asan", "rea", "refused", 480, 12000, 8, ()), ("asan", "broker", "", 0, 0, 0, ())],
           "The real program (main) as a process of an unprivileged user: valid configurations (all queue managers, addresses, command line forms, log files) are exercised by clients, workers, a monitor and a frontend on loopback, and each setting's effect is observed; "
           "20 kinds of broken configurations and environments must end with exit status 1 and a message. Distinct: (configuration, form of the command line).", 150,
           REAL + ["broker_core.cpp is written for spdlog 0.x; a forced include gives spdlog 1.x the three names it needs", "libzmq, not the broker, decides whether an address can be bound"])
real_check("C24", [("asan", "rea", "sockets", 1600, 30000, 8, ()), ("asan", "rea", "delivery", 120, 2000, 8, ()), ("asan", "rea", "answers", 80, 1500, 8, ()), WIRE],
           "The router socket, bound (inproc, ipc, tcp) and connecting, with up to 5 peers, random binary frames up to 1 MB, unknown peers, messages without frames, peers that go away; judged: every message at every peer and every message received. "
           "Distinct: (transport, kind of message, number of frames, size class; order of senders).", 80, REAL)

SIM_NOTE = ("The property held on every event of the seeded episodes (counts in the evidence), both queue managers, under ASan, UBSan and "
            "libstdc++ assertions. Nothing is claimed for histories that were not generated; time is virtual and the reactor and the sockets are not part of these runs.")
WIRE_NOTE = SIM_NOTE[:-1] + "; further runs put the whole broker (event loop, sockets, notifier) on loopback sockets and judge the frames on the wire."
REAL_NOTE = "The property held on every run of the seeded workloads (counts in the evidence) of the real event loop, threads and sockets. Schedules are those the operating system and the injected delays produced; nothing is claimed for others."
ABOUT = {
    "C09": ("online trace monitor over simulated histories, and wire monitor of the whole broker on loopback sockets, under ASan/UBSan", WIRE_NOTE),
    "C10": ("online trace monitor over simulated histories, and wire monitor of the whole broker on loopback sockets, under ASan/UBSan", WIRE_NOTE),
    "C11": ("ASan/UBSan/library assertions and a non-interference monitor under hostile messages, simulated and on loopback sockets", WIRE_NOTE),
    "C15": ("offline checker of recorded emissions and deliveries (exactly once, order, content) on the real event loop with injected delays, under ASan/UBSan", REAL_NOTE),
    "C16": ("monitor of the whole broker on loopback sockets with a misbehaving frontend; offline checker of the reports", REAL_NOTE),
    "C17": ("offline checker of recorded ticks against the monotonic clock, with loads and jumps of the wall clock", REAL_NOTE),
    "C18": ("stress of the termination of the real event loop under ASan and ThreadSanitizer, watchdog, thread and late-call monitors", REAL_NOTE),
    "C19": ("ThreadSanitizer and an interposed monitor of socket ownership, with injected delays", REAL_NOTE),
    "C20": ("offline comparison of the HTTP requests a scripted frontend received with the reports, time stamps of attempts", REAL_NOTE),
    "C21": ("differential oracle: values read by the real class from generated documents against an independent reading, in poisoned memory, under ASan/UBSan",
            "Every setting of every generated document (counts in the evidence) had the expected value. Nothing is claimed for documents that were not generated."),
    "C22": ("the real program as a process, observed from outside (sockets, HTTP, files, exit status, messages), valid and broken configurations", REAL_NOTE),
    "C23": ("interposed allocator: live allocations of the broker compared between generations, under ASan/UBSan", SIM_NOTE),
    "C24": ("wire monitor: every message at every peer of the real router socket compared with what was sent, under ASan/UBSan", REAL_NOTE),
}
