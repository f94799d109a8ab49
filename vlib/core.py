"""Orchestration shared by every check.  Nothing in here decides whether a property holds:
TLC does (a rejected trace or a violated invariant).  This file builds drivers from /repo's
working tree, runs them as an unprivileged user in a scratch directory, hands the recorded
traces to TLC and reports what TLC said."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
COMPAT = "/opt/vp/compat"
NOBODY = 65534
CORES = os.cpu_count() or 4
MAX_INT = 2**31 - 1


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Scratch:
    def __init__(self, tag):
        self.dir = tempfile.mkdtemp(prefix="verif_%s_" % tag)
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)
        try:
            os.chown(self.work, NOBODY, NOBODY)
        except PermissionError:
            pass

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def in_memory(self):
        """work where writing costs nothing, if there is such a place"""
        try:
            if shutil.disk_usage("/dev/shm").free < 2 << 30:
                return
            self.shm = tempfile.mkdtemp(prefix="verif_", dir="/dev/shm")
        except OSError:
            return
        os.chmod(self.shm, 0o755)
        self.work = os.path.join(self.shm, "work")
        os.mkdir(self.work)
        try:
            os.chown(self.work, NOBODY, NOBODY)
        except PermissionError:
            pass

    def close(self):
        if getattr(self, "shm", None):
            shutil.rmtree(self.shm, ignore_errors=True)
        if os.environ.get("VERIF_KEEP"):
            log("kept", self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ building drivers
def compile_driver(scratch, name, extra=(), opt="-O1", out=None):
    src = os.path.join(VERIF, "drivers", name + ".cpp")
    exe = scratch.path(out or name)
    cmd = ["g++", "-std=c++17", "-w", opt, "-D_GLIBCXX_ASSERTIONS", "-DHAPPYML_VERIF",
           "-include", COMPAT + "/msvc_compat.hpp", "-I" + REPO + "/src/ml",
           "-I" + REPO + "/src/lang/statements", "-I" + COMPAT,
           "-I" + REPO, "-I" + os.path.join(VERIF, "drivers"), *extra, src, "-o", exe, "-ltbb", "-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("driver %s does not compile:\n%s" % (name, r.stdout[-4000:]))
    return exe


# ------------------------------------------------------------------ running drivers
def hx(s):
    """a string/bytes argument of a driver command: x<hex>"""
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "x" + s.hex()


def _spawn(exe, casefile, outfile, wdir, start, env):
    kw = {}
    if os.geteuid() == 0:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    e = dict(PATH=os.environ.get("PATH", ""), HOME=wdir, TMPDIR=wdir, LC_ALL="C.UTF-8")
    e.update(env or {})
    try:
        return subprocess.Popen([exe, casefile, outfile, wdir, str(start)], cwd=wdir, env=e,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, start_new_session=True, **kw)
    except (PermissionError, subprocess.SubprocessError):
        return subprocess.Popen([exe, casefile, outfile, wdir, str(start)], cwd=wdir, env=e,
                                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                stderr=subprocess.DEVNULL, start_new_session=True)


MAX_HANGS = 8


def _run_chunk(exe, cases, idxs, wdir, case_timeout, env, hangs=None, until=None):
    """cases: list of driver command lines (one string per case). returns {idx: events}; None: not run any more, as
    enough cases did not end"""
    os.makedirs(wdir, exist_ok=True)
    try:
        os.chown(wdir, NOBODY, NOBODY)
    except PermissionError:
        pass
    casefile = os.path.join(wdir, "cases.txt")
    with open(casefile, "w") as f:
        for i in idxs:
            f.write(cases[i] + "\n")
    os.chmod(casefile, 0o644)
    res = {i: [] for i in idxs}
    done = 0
    rounds = 0
    while done < len(idxs):
        if (hangs is not None and len(hangs) >= MAX_HANGS) or (until and time.time() > until):
            for i in idxs[done:]:
                res[i] = None
            break
        rounds += 1
        outfile = os.path.join(wdir, "out.%d" % rounds)
        open(outfile, "w").close()
        os.chmod(outfile, 0o666)
        p = _spawn(exe, casefile, outfile, wdir, done, env)
        last_size, last_change = 0, time.time()
        began, off = last_change, 0
        hung = late = False
        while True:
            try:
                p.wait(timeout=0.05 if time.time() - last_change < 1 else 0.25)
                break
            except subprocess.TimeoutExpired:
                sz = os.path.getsize(outfile)
                if sz != last_size:
                    with open(outfile, "rb") as f:
                        f.seek(max(0, last_size - 2))
                        if any(x.startswith(b"B ") for x in f.read(sz - last_size + 2).split(b"\n")):
                            began, off = time.time(), last_size
                    last_size, last_change = sz, time.time()
                if until and time.time() > until:
                    late = True
                if late or time.time() - last_change > case_timeout or time.time() - began > 4 * case_timeout or sz - off > 1 << 26 \
                        or (time.time() - began > 10 and shutil.disk_usage(wdir).free < 1 << 30):
                    hung = True
                    if hangs is not None and not late:
                        hangs.append(1)
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    break
        finished = done
        current = None
        with open(outfile, encoding="latin-1") as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                if line.startswith("B "):
                    current = int(line[2:])
                    res[idxs[current]] = []
                elif line.startswith("E "):
                    finished = int(line[2:]) + 1
                    current = None
                elif current is not None:
                    res[idxs[current]].append(json.loads(line))
        os.unlink(outfile)
        if finished >= len(idxs) and current is None:
            break
        if current is None:
            if p.returncode == 0:
                raise CheckError("driver stopped early")
            current = finished
        rc = p.returncode
        if late:
            for i in idxs[current:]:
                res[i] = None
            break
        if hung:
            del res[idxs[current]][300:]
        res[idxs[current]].append({"e": "hang" if hung else "crash", "rc": rc if rc is not None else 0})
        done = current + 1
    return res


def run_driver(scratch, exe, cases, tag="w", case_timeout=20, env=None, jobs=None, chunk=None, budget=None):
    n = len(cases)
    jobs = jobs or CORES
    k = max(1, min(jobs * 2, (n + 7) // 8)) if chunk is None else max(1, (n + chunk - 1) // chunk)
    chunks = [list(range(j, n, k)) for j in range(k)]
    res = {}
    hangs = []
    with ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(_run_chunk, exe, cases, ch, os.path.join(scratch.work, "%s%d" % (tag, j)),
                          case_timeout, env, hangs, time.time() + budget if budget else None) for j, ch in enumerate(chunks) if ch]
        for f in futs:
            res.update(f.result())
    for j in range(len(chunks)):
        shutil.rmtree(os.path.join(scratch.work, "%s%d" % (tag, j)), ignore_errors=True)
    return [res[i] for i in range(n)]


# ------------------------------------------------------------------ TLC
TLA_CP = None


def _tlc_cmd():
    return ["tlc"]


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.ok = "Model checking completed. No error has been found." in out


def tlc(scratch, module, cfg, env=None, workers=CORES, timeout=600, extra=(), heap="6g", tag=""):
    md = tempfile.mkdtemp(prefix="tlc_", dir=scratch.dir)
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, md)
    sd = os.path.join(VERIF, "spec")
    cmd = _tlc_cmd() + ["-metadir", md, "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(sd, cfg), *extra,
                        os.path.join(sd, module)]
    try:
        r = subprocess.run(cmd, cwd=sd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return TlcResult(rc, out)


def parse_coverage(out):
    """-coverage output: action name -> distinct-state count"""
    cov = {}
    for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)",
                         out, re.M):
        cov[m.group(1)] = max(cov.get(m.group(1), 0), int(m.group(4)))
    return cov


def model_check(scratch, module, cfg, actions=(), env=None, timeout=600, workers=CORES, heap="6g"):
    """exhaustive check of a specification's own invariants; every action listed must have been taken"""
    r = tlc(scratch, module, cfg, env=env, extra=("-coverage", "1"), timeout=timeout, workers=workers, heap=heap)
    if not r.ok:
        raise CheckError("specification %s/%s fails its own model check:\n%s" % (module, cfg, r.out[-5000:]))
    cov = parse_coverage(r.out)
    for a in actions:
        if cov.get(a, 0) == 0:
            raise CheckError("vacuous: action %s of %s was never taken (%s)" % (a, module, cov))
    return r, cov


def check_ints(x, where=""):
    if isinstance(x, bool) or x is None or isinstance(x, str):
        if x is None:
            raise CheckError("null in trace " + where)
        return
    if isinstance(x, int):
        if abs(x) > MAX_INT:
            raise CheckError("integer out of TLC's range in trace: %r %s" % (x, where))
    elif isinstance(x, float):
        raise CheckError("float in trace %r %s" % (x, where))
    elif isinstance(x, dict):
        for k, v in x.items():
            check_ints(v, where + "." + k)
    else:
        for v in x:
            check_ints(v, where)


def validate(scratch, module, cfg, traces, env=None, timeout=800, workers=CORES, heap="8g", group=None):
    """traces: list of dicts with an 'ev' list.  Returns (rejected {index: (event#, reason)}, states, transitions)."""
    for t in traces:
        check_ints(t)
    rejected = {}
    alive = list(range(len(traces)))
    states = trans = 0
    group = group or len(traces) or 1
    batches = [alive[i:i + group] for i in range(0, len(alive), group)]
    while batches:
        b = batches.pop(0)
        fd, tf = tempfile.mkstemp(prefix="tr_", suffix=".ndjson", dir=scratch.dir)
        with os.fdopen(fd, "w") as f:
            for i in b:
                f.write(json.dumps(traces[i]) + "\n")
        e = dict(env or {})
        e["TRACES"] = tf
        r = tlc(scratch, module, cfg, env=e, timeout=timeout, workers=workers, heap=heap)
        os.unlink(tf)
        rej = {}
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)>>', r.out):
            rej[b[int(m.group(1)) - 1]] = int(m.group(2))
        for i, l in rej.items():
            rejected[i] = (l, "rejected")
        want = 0
        for i in b:
            n = len(traces[i]["ev"])
            want += (rej[i] + 1) if i in rej else n + 1
        if r.ok:
            if r.distinct < want:
                raise CheckError("trace validation of %s consumed too few events: %d < %d\n%s" %
                                 (module, r.distinct, want, r.out[-3000:]))
            states += r.distinct
            trans += r.generated
            continue
        # evaluation error or invariant violation inside one case
        mc = re.findall(r"^/\\ c = (\d+)", r.out, re.M)
        ml = re.findall(r"^/\\ l = (\d+)", r.out, re.M)
        if not mc:
            raise CheckError("TLC failed on %s:\n%s" % (module, r.out[-6000:]))
        i = b[int(mc[-1]) - 1]
        reason = "invariant" if "is violated" in r.out else "uninterpretable event"
        em = re.search(r"Invariant (\w+) is violated", r.out)
        if em:
            reason = "invariant " + em.group(1)
        rejected[i] = (int(ml[-1]) if ml else 0, reason)
        if os.environ.get("VERIF_DEBUG"):
            log(r.out[-6000:])
        if len(rejected) > 40:
            break
        nb = [j for j in b if j not in rejected]
        if nb:
            batches.insert(0, nb)
    return rejected, states, trans


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


# ------------------------------------------------------------------ result of one property
class Report:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.assumptions, self.extra = [], [], {}
        self.violations = []
        self.known_hit = []

    def add_mc(self, r, name, cov=None):
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault("model_checks", []).append(
            {"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
             "action_coverage": cov or {}})

    def write(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4]}
        if self.level in ("exploration", "fault_enumeration"):
            cov["evaluations"] = self.traces
            cov["distinct_nontrivial"] = self.extra.get("distinct_nontrivial", self.traces)
            cov["rule"] = self.extra.get("rule", "see DESIGN.md")
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    def finish(self):
        self.write()
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            for n, v in enumerate(self.violations[:5]):
                p = os.path.join(VERIF, "replays", "%s_%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  case %s: %s" % (v.get("name"), v.get("reason")))
            return 1
        return 0


def brief(x, n=1200):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def conform(rep, scratch, exe, module, cfg, cases, case_timeout=20, env=None, group=None, jobs=None,
            to_trace=None, chunk=None):
    """cases: list of dicts {name, cmd (driver line), spec (fields TLC needs besides events)}.
    Runs the real code, validates each recorded trace, re-runs what is rejected before reporting it."""
    if not cases:
        return []
    known = known_findings(rep.pid)

    def mk(case, ev):
        t = dict(case.get("spec", {}))
        t["name"] = case["name"]
        t["ev"] = ev
        if to_trace:
            t = to_trace(case, t)
        return t

    quick = rep.tier == "quick"
    evs = run_driver(scratch, exe, [c["cmd"] for c in cases], case_timeout=case_timeout, env=env, jobs=jobs, chunk=chunk,
                     budget=400 if quick else None)
    if None in evs:
        rep.extra["cases_not_run_for_time"] = rep.extra.get("cases_not_run_for_time", 0) + evs.count(None)
        cases = [c for c, e in zip(cases, evs) if e is not None]
        evs = [e for e in evs if e is not None]
    traces = [mk(c, e) for c, e in zip(cases, evs)]
    rej, st, tr = validate(scratch, module, cfg, traces, group=group)
    rep.states += st
    rep.transitions += tr
    rep.traces += len(cases)
    rep.extra["distinct_cases"] = rep.extra.get("distinct_cases", 0) + len({c["cmd"] for c in cases})
    rep.extra["events_validated"] = rep.extra.get("events_validated", 0) + sum(len(t["ev"]) for t in traces)
    for t in traces[:: max(1, len(traces) // 2)][:2]:
        if len(rep.samples) < 4:
            rep.samples.append(brief(t))
    if rej:
        idx = sorted(rej)[:40]
        again = run_driver(scratch, exe, [cases[i]["cmd"] for i in idx], tag="r", case_timeout=case_timeout, env=env,
                           jobs=jobs, chunk=chunk, budget=150 if quick else None)
        again = [evs[i] if e is None else e for i, e in zip(idx, again)]
        tr2 = [mk(cases[i], e) for i, e in zip(idx, again)]
        rej2, _, _ = validate(scratch, module, cfg, tr2)
        for n, i in enumerate(idx):
            t = tr2[n]
            if n in rej2:
                l, reason = rej2[n]
            elif any(e.get("e") in ("hang", "crash") for e in traces[i]["ev"]):
                # killed from outside or starved: not something the code did
                log("not repeated: case %s" % cases[i]["name"])
                rep.extra["unrepeated_rejections"] = rep.extra.get("unrepeated_rejections", 0) + 1
                continue
            else:
                # the code draws random orders: a behaviour it showed once is a behaviour it has
                (l, reason), t = rej[i], traces[i]
            nm = cases[i]["name"]
            if nm in known:
                rep.known_hit.append("case=%s %s" % (nm, known[nm]))
                continue
            evl = t["ev"]
            rep.violations.append({
                "property": rep.pid, "name": nm, "driver_cmd": cases[i]["cmd"], "driver": os.path.basename(exe),
                "reason": "%s at event %d: %s" % (reason, l, json.dumps(evl[l - 1])[:600] if 0 < l <= len(evl) else "end"),
                "module": module, "trace": t})
    missing = [k for k in known if k not in {c["name"] for c in cases}]
    rep.extra.setdefault("_known_not_run", [])
    return traces


def binding_selftest(rep, scratch, module, cfg, traces, mutate, want=None):
    """corrupt recorded traces; TLC must reject every corrupted one (shows the binding is not vacuous)"""
    bad = []
    for t in traces:
        m = mutate(json.loads(json.dumps(t)))
        if m is not None:
            bad.append(m)
        if want and len(bad) >= want:
            break
    if not bad:
        return
    rej, _, _ = validate(scratch, module, cfg, bad)
    rep.extra["corrupted_traces_rejected"] = rep.extra.get("corrupted_traces_rejected", 0) + len(rej)
    if len(rej) != len(bad) and len(rej) <= 40:
        acc = [i for i in range(len(bad)) if i not in rej]
        raise CheckError("binding is vacuous: %s accepted a corrupted trace %s" % (module, json.dumps(bad[acc[0]])[:800]))


def codes(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return list(s)
