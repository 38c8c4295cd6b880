#!/usr/bin/env python3
"""Decides one property by seeded simulation of /repo's working tree.

  check.py CXX [quick|thorough]     run the check (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE            reproduce a recorded violation
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as builder

NCPU = max(2, min(16, os.cpu_count() or 4))
# simulated plans per tier (a plan is one seed; sweeping properties execute many runs per plan)
COUNTS = json.load(open(os.path.join(HERE, "tools", "counts.json")))
CHUNK = {"quick": 40, "thorough": 60}
CAP = {"quick": 240, "thorough": 780}
EXITCLS = {95: "memory", 96: "shared-write", 97: "hang", 98: "exit-outside"}


def log(*a):
    print(*a, flush=True)


class Sim:
    def __init__(self, exe, scratch):
        self.exe, self.scratch, self.n, self.lock = exe, scratch, 0, threading.Lock()

    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, "f%d%s" % (self.n, suffix))

    def run(self, args, timeout, env=None):
        e = dict(os.environ)
        e.pop("OSL_SIM_NOASLR", None)
        if env: e.update(env)
        p = subprocess.Popen([self.exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.scratch)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return 124, out.decode("latin1"), err.decode("latin1")
        return p.returncode, out.decode("latin1"), err.decode("latin1")


def crash_class(rc, err):
    """Class of an execution that ended the simulator process."""
    if rc in (96, 97, 98):
        return EXITCLS[rc]
    m = re.search(r"AddressSanitizer: ([a-zA-Z0-9_-]+)", err)
    if m:
        kind = m.group(1)
        if kind in ("SEGV", "BUS", "FPE", "ILL", "ABRT", "stack-overflow"): return "crash-" + kind
        return "memory-" + kind
    if rc < 0: return "crash-signal%d" % -rc
    return "crash-exit%d" % rc


def crash_text(rc, err):
    m = re.search(r"SIM-CRASH (.*)", err)
    if m: return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
    return m.group(1) if m else "the process ended with status %d" % rc


def symbolise(exe, err):
    pcs = re.findall(r"#\d+ (0x[0-9a-f]+)", err)[:12]
    if not pcs: return ""
    try:
        o = subprocess.run(["addr2line", "-f", "-s", "-e", exe] + pcs, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout.split("\n")
    except Exception:
        return ""
    fr = [o[i] + " (" + o[i + 1] + ")" for i in range(0, len(o) - 1, 2) if o[i] != "??"]
    return " < ".join(f for f in fr[:8])


def judge(sim, text, hang=None, timeout=120):
    """Runs one plan in a fresh process: (class or None, message, full output)."""
    f = sim.path(".plan")
    open(f, "w").write(text)
    rc, out, err = sim.run(["judge", f], timeout, {"OSL_SIM_HANG": str(hang)} if hang else None)
    os.unlink(f)
    if rc == 0: return None, "", out
    if rc == 3: raise SystemExit("simulator rejected a plan: " + err)
    if rc == 1 and out.startswith("RESULT violated"):
        lines = out.split("\n")
        return lines[0].split(" ", 2)[2], lines[1], out
    c = crash_class(rc, err)
    return c, crash_text(rc, err) + (" [" + symbolise(sim.exe, err) + "]" if "#0" in err else ""), c


def explicit(text, trace):
    t = [l for l in text.split("\n") if l and not l.startswith("knob sweep ")]
    if "sched explicit" in t: return "\n".join(t) + "\n"
    i = next(k for k, l in enumerate(t) if l.startswith("clients ")) + 1
    t.insert(i, "sched explicit")
    return "\n".join(t + [l for l in trace.split("\n") if l.startswith("pre ")]) + "\n"


def minimise(sim, text, cls, seconds, hang):
    """Delta debugging of the lines of a plan, then of their arguments; the violation class is kept."""
    t0 = time.time()
    left = lambda: seconds - (time.time() - t0)
    same = lambda lines: judge(sim, "\n".join(lines) + "\n", hang)[0] == cls
    lines = [l for l in text.split("\n") if l]
    ex = cf.ThreadPoolExecutor(NCPU)
    tried = 0

    def shrink(lines, movable):
        nonlocal tried
        n = 2
        while left() > 0:
            idx = [i for i, l in enumerate(lines) if movable(l)]
            if not idx: break
            n = min(n, len(idx))
            size = -(-len(idx) // n)
            cands = []
            for k in range(0, len(idx), size):
                drop = set(idx[k:k + size])
                cands.append([l for i, l in enumerate(lines) if i not in drop])
            tried += len(cands)
            ok = list(ex.map(same, cands))
            best = next((c for c, o in zip(cands, ok) if o), None)
            if best is not None:
                lines = best
                n = max(2, n - 1)
            elif n >= len(idx): break
            else: n = min(len(idx), n * 2)
        return lines

    for rnd in range(3):
        before = list(lines)
        lines = shrink(lines, lambda l: l.startswith("pre "))
        lines = shrink(lines, lambda l: l.startswith("op "))
        lines = shrink(lines, lambda l: l.startswith("fault "))
        lines = shrink(lines, lambda l: l.startswith("knob ") and not re.match(r"knob (fill|pad|maxsteps|memcap)\b", l))
        # arguments: drop them (all have a default), or make them smaller
        i = 0
        while i < len(lines) and left() > 0:
            if lines[i].startswith("op ") or lines[i].startswith("fault "):
                w = lines[i].split(" ")
                k = 2 if w[0] == "fault" else 3
                cands = []
                for j in range(k, len(w)):
                    key, val = w[j].split("=")
                    if key in ("chunk", "buf", "lat", "flush", "trim", "one"): cands.append(w[:j] + w[j + 1:])
                    v = int(val)
                    if key in ("size", "cn", "n", "len") and v > 1: cands += [w[:j] + ["%s=%d" % (key, x)] + w[j + 1:] for x in sorted({1, v // 2, v - 1})]
                    if key in ("os", "leaf", "k", "which", "sel", "sel2", "cs") and v > 9: cands += [w[:j] + ["%s=%d" % (key, x)] + w[j + 1:] for x in (0, 1, 2)]
                cl = [lines[:i] + [" ".join(c)] + lines[i + 1:] for c in cands]
                tried += len(cl)
                ok = list(ex.map(same, cl))
                best = next((c for c, o in zip(cl, ok) if o), None)
                if best is not None:
                    lines = best
                    continue
            i += 1
        if lines == before: break
    ex.shutdown()
    return "\n".join(lines) + "\n", tried


def known_findings():
    """known: property=<id> class=<regexp> match=<regexp> -- <what fails>   (fixed: lines suppress nothing)"""
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) class=(\S+) match=(.*?) -- (.*)$", l.strip())
            if m: out.append((m.group(1), re.compile(m.group(2) + "$"), re.compile(m.group(3)), m.group(4)))
    return out


def add(a, b):
    for k, v in b.items(): a[k] = a.get(k, 0) + v


class Totals:
    NUM = ("plans", "execs", "runs", "simtime", "switches", "steps", "allocs", "frees", "bytesIn", "bytesOut", "concurrentRuns")

    def __init__(self):
        self.num = {k: 0 for k in self.NUM}
        self.maps = {k: {} for k in ("faults", "ops", "misc", "coverops", "probes")}
        self.sets = {k: set() for k in ("traces", "states", "cases", "blocks")}
        self.samples, self.digest, self.secs = [], {}, 0.0

    def take(self, rec, first):
        for k in self.NUM: self.num[k] += rec[k]
        for k in self.maps: add(self.maps[k], rec[k])
        for k in self.sets: self.sets[k].update(rec[k])
        self.secs += rec["secs"]
        self.samples += rec["samples"]
        self.digest[first] = (rec["plans"], rec["digest"])


def run_chunk(sim, prop, tier, first, count, secs):
    """One worker process: records, and what it ended with if it crashed."""
    cur, out = sim.path(".cur"), sim.path(".out")
    open(out, "w").close()
    rc, so, err = sim.run(["batch", prop, str(first), str(count), "1", tier, str(secs), cur, out], secs * 3 + 120)
    recs = [json.loads(l) for l in open(out) if l.strip()]
    crash = None
    if not any(r.get("done") for r in recs):
        if rc == 3: raise SystemExit("simulator usage error: " + err)
        text = open(cur).read() if os.path.exists(cur) else ""
        tr = open(cur + ".trace").read() if os.path.exists(cur + ".trace") else ""
        crash = {"rc": rc, "err": err, "plan": text, "trace": tr, "timeout": rc == 124}
    for f in (cur, cur + ".trace", out):
        if os.path.exists(f): os.unlink(f)
    return recs, crash


def check(prop, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="oslsim-")
    try:
        return check_in(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check_in(prop, tier, seed, scratch, t0):
    exe = builder.build(os.path.join(scratch, "b"))
    build_s = time.time() - t0
    sim = Sim(exe, scratch)
    total = COUNTS[prop][tier]
    chunk = max(1, min(CHUNK[tier], -(-total // (NCPU * 4))))
    base = seed * 10000000
    deadline = time.time() + CAP[tier]
    known = [k for k in known_findings() if k[0] == prop]
    for k in known: log("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    tot = Totals()
    todo = [(base + i, min(chunk, total - i)) for i in range(0, total, chunk)]
    todo.reverse()
    lock = threading.Lock()
    cands, errors = [], []
    suppressed = {}
    stopat = [None]
    t1 = time.time()

    def worker():
        while True:
            with lock:
                if errors or not todo or time.time() > deadline: return
                if stopat[0] is not None: return
                first, count = todo.pop()
            try:
                recs, crash = run_chunk(sim, prop, tier, first, count, max(5, deadline - time.time()))
            except BaseException as e:
                with lock: errors.append(str(e))
                return
            with lock:
                for r in recs:
                    if r.get("done"): tot.take(r, first)
            v = next((r for r in recs if r.get("violated")), None)
            if v:
                c = {"seed": v["seed"], "cls": v["cls"], "msg": v["msg"], "plan": v["plan"]}
            elif crash:
                m = re.search(r"^seed (\d+)$", crash["plan"], re.M)
                if not m:
                    with lock: errors.append("worker ended with status %d: %s" % (crash["rc"], crash["err"][-400:]))
                    return
                c = {"seed": int(m.group(1)), "crash": crash}
                if crash["timeout"]: c["crash"]["rc"] = 97
                c["cls"] = crash_class(crash["rc"], crash["err"])
                c["msg"] = crash_text(crash["rc"], crash["err"]) + " [" + symbolise(exe, crash["err"]) + "]"
                c["plan"] = explicit(crash["plan"], crash["trace"])
            else: continue
            kn = next((k for k in known if k[1].match(c["cls"]) and k[2].search(c["msg"])), None)
            with lock:
                rest = first + count - c["seed"] - 1
                if kn:
                    suppressed[kn[3]] = suppressed.get(kn[3], 0) + 1
                    if rest > 0: todo.append((c["seed"] + 1, rest))
                else:
                    cands.append(c)
                    stopat[0] = c["seed"]

    ths = [threading.Thread(target=worker) for _ in range(NCPU)]
    for t in ths: t.start()
    for t in ths: t.join()
    explore_s = time.time() - t1
    if errors:
        log("ERROR " + errors[0])
        return 2
    rc, viol = 0, None
    if cands:
        cands.sort(key=lambda c: c["seed"])
        for c in cands:
            viol = confirm(sim, prop, tier, seed, base, c)
            if viol: break
        if not viol:
            log("ERROR a violation (%s, seed %d: %s) did not reproduce" % (cands[0]["cls"], cands[0]["seed"], cands[0]["msg"][:300]))
            return 2
        rc = 1
    # the same seeds again, in another process and another grouping: the same executions
    det = {"plans_rerun": 0, "mismatches": 0}
    if not viol and tot.digest:
        firsts = sorted(tot.digest)
        pickd = [f for f in firsts[:: max(1, len(firsts) // 4)]][:4]
        for f in pickd:
            n, d = tot.digest[f]
            n1 = max(1, n // 3)
            s = 0
            for a, m in ((f, n1), (f + n1, n - n1)):
                if m <= 0: continue
                recs, crash = run_chunk(sim, prop, tier, a, m, 600)
                r = next((x for x in recs if x.get("done")), None)
                if r: s += int(r["digest"], 16)
            det["plans_rerun"] += n
            if (s & (2 ** 64 - 1)) != int(d, 16): det["mismatches"] += 1
            if time.time() - t0 > CAP[tier] + 200: break
        if det["mismatches"] and not suppressed:
            log("ERROR the simulation is not repeatable")
            rc = 2
    evidence(prop, tier, seed, tot, det, suppressed, viol, build_s, explore_s, t0, total, builder.blocks(os.path.join(scratch, "b")))
    log("%s %s seed=%d: %d plans, %d executions, %.0f s" % (prop, tier, seed, tot.num["plans"], tot.num["execs"], time.time() - t0))
    if viol:
        log("violation: %s: %s" % (viol["cls"], viol["msg"]))
        log("VIOLATION property=%s replay=%s" % (prop, viol["replay"]))
    return rc


def confirm(sim, prop, tier, seed, base, c):
    """Reproduces a violation in fresh processes, minimises it and writes the replay file."""
    hang = 4 if c["cls"] == "hang" else None
    text = c["plan"]
    got = [judge(sim, text, hang) for _ in range(2)]
    if got[0][0] is None and c.get("crash"):
        text = "\n".join(l for l in c["crash"]["plan"].split("\n") if l and not l.startswith("knob sweep ")) + "\n"
        got = [judge(sim, text, hang) for _ in range(2)]
    if got[0][0] is None:  # last resort: the plan of the seed itself
        rc, out, err = sim.run(["gen", prop, str(c["seed"]), tier], 60)
        text = out
        got = [judge(sim, text, hang) for _ in range(2)]
    if got[0][0] is None or got[0][0] != got[1][0] or got[0][2] != got[1][2]: return None
    cls = got[0][0]
    try:
        small, tried = minimise(sim, text, cls, 60, hang)
    except SystemExit:
        small, tried = text, 0
    fin = [judge(sim, small, hang) for _ in range(2)]
    if fin[0][0] != cls or fin[0][2] != fin[1][2]: small, fin = text, got
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    msg = fin[0][1].replace("\n", " ")
    name = "%s-%s-%s.plan" % (prop, re.sub(r"[^A-Za-z0-9_-]", "_", cls), hashlib.sha1(small.encode()).hexdigest()[:10])
    rp = os.path.join(d, name)
    open(rp, "w").write("# property %s, tier %s, VERIF_SEED %d, plan seed %d\n# %s: %s\n# minimised with %d executions; replay: python3 %s/check.py --replay %s\n" %
                        (prop, tier, seed, c["seed"], cls, msg[:2000], tried, HERE, rp) + small)
    return {"cls": cls, "msg": msg, "replay": rp, "seed": c["seed"]}


def evidence(prop, tier, seed, tot, det, suppressed, viol, build_s, explore_s, t0, total, blocks):
    n = tot.num
    hours = max(explore_s, 1e-3) / 3600
    unit = "simulated microseconds (1 per scheduling step, latencies as configured)"
    cov = {
        "evaluations": n["execs"],
        "distinct_nontrivial": len(tot.sets["states"]),
        "rule": "A case is one simulated execution: the plan of a seed (clients, operations, objects, faults), its schedule and, for sweeping properties, "
                "one injected fault position. Two are the same when the hash of every client's results, diagnostics, exit state, numbers of steps and allocations, "
                "simulated time and schedule is the same; an execution in which no client called the library does not occur (every plan starts by building objects).",
        "samples": tot.samples[:3] or ["(none)"],
        "plans_seeds": n["plans"], "plans_configured": total,
        "runs_per_hour": int(n["execs"] / hours), "seeds_per_hour": int(n["plans"] / hours),
        "simulated_time_total": n["simtime"], "simulated_time_unit": unit,
        "scheduling_steps": n["steps"], "context_switches": n["switches"],
        "executions_with_preemptions": n["concurrentRuns"],
        "distinct_schedules": len(tot.sets["traces"]),
        "distinct_objects_generated": len(tot.sets["cases"]),
        "library_allocations": n["allocs"], "library_releases": n["frees"],
        "bytes_read_through_simulated_streams": n["bytesIn"], "bytes_written_to_simulated_streams": n["bytesOut"],
        "library_basic_blocks_reached": len(tot.sets["blocks"]), "library_basic_blocks": blocks,
        "faults_fired": tot.maps["faults"],
        "oracle_checks": tot.maps["misc"].get("checks", 0),
        "operations_executed": tot.maps["ops"],
        "operation_detail": tot.maps["coverops"],
        "probes": tot.maps["probes"],
        "real_components": "all of /repo/source compiled from the working tree; libc stdio buffering and formatting (fopencookie streams); GMP",
        "stubbed_components": "allocator, scheduler, clock, pipes, files and disk, environment, exit/abort, stdin/stdout/stderr are the simulator's",
        "determinism": det,
        "known_findings_hit": suppressed,
        "build_s": round(build_s, 1), "explore_s": round(explore_s, 1),
    }
    if viol: cov["violation"] = viol
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["one preemption point per allocation, release, stream callback and diagnostic; code between two of them runs atomically",
                          "malloc never returns memory in use; stdio of the C library is correct"],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if viol else 0}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "." + prop + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


def replay(path):
    scratch = tempfile.mkdtemp(prefix="oslsim-")
    try:
        exe = builder.build(os.path.join(scratch, "b"))
        sim = Sim(exe, scratch)
        text = "\n".join(l for l in open(path).read().split("\n") if l and not l.startswith("#")) + "\n"
        cls, msg, _ = judge(sim, text)
        m = re.search(r"^prop (\S+)$", text, re.M)
        if cls is None:
            log("no violation")
            return 0
        log("violation: %s: %s" % (cls, msg))
        log("VIOLATION property=%s replay=%s" % (m.group(1) if m else "?", os.path.abspath(path)))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in CAP: tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    try:
        sys.exit(check(sys.argv[1], tier, seed))
    except SystemExit: raise
    except BaseException as e:
        log("ERROR %r" % (e,))
        sys.exit(2)
