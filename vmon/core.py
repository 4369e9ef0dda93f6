"""Monitor core: case scheduling, verdicts, event accounting, known findings, evidence.

A check module defines
    PID        property id
    RULE       how cases are made and what makes one non-trivial (evidence text)
    ANCHORS    files under lib/sldr whose execution is recorded (evidence only, never a verdict)
    KINDS      {kind: (generator(rng) -> case dict, quick count, thorough count)}
    FIXED()    optional: list of fixed cases (dicts with key 'kind')
    check(case, mon)   runs the real code on the case and reports what the oracle saw
    REQUIRES   {event: minimum count}; fewer observed events => inconclusive (exit 3)
    BATCH      optional, default True

Verdicts are three valued: violated (exit 1, VIOLATION line), held on what was observed (exit 0),
inconclusive / harness error (exit 3 / 2)."""

import collections, hashlib, json, os, random, shutil, signal, sys, tempfile, time, traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "lib")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

WATCHDOG_S = float(os.environ.get("VERIF_WATCHDOG", "20"))
STEP_BUDGET = int(os.environ.get("VERIF_STEPS", "60000000"))


class Hang(BaseException):
    pass


class StepBudget(BaseException):
    pass


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode("utf-8", "surrogatepass"))
        m.update(b"\0")
    return m.hexdigest()


def short(o, n=400):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + "...<%d>" % len(s)


class Monitor:
    """ Handed to check(case, mon): the place where observations and violations go. """

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.events = collections.Counter()
        self.states = {}                # category -> set of hashes
        self.violations = []
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.case = None
        self.caseviol = 0
        self.skips = collections.Counter()
        self.lines = collections.defaultdict(set)
        self._tmp = None

    # -- observation --------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def state(self, category, *what):
        """ Record a distinct abstract state / interleaving the monitor saw """
        self.states.setdefault(category, set()).add(h64(*what))

    def substantive(self, *key):
        """ This execution was non-trivial; key identifies it up to equality """
        self.nontrivial.add(h64(*key))

    def skip(self, why):
        self.skips[why] += 1

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    # -- verdict ------------------------------------------------------------------------------
    def violation(self, mechanism, detail):
        self.caseviol += 1
        self.violations.append(dict(mechanism=mechanism, detail=short(detail, 3000), case=self.case))

    def expect(self, cond, mechanism, detail=""):
        self.events["oracle:" + mechanism.split(":")[0]] += 1
        if not cond:
            self.violation(mechanism, detail() if callable(detail) else detail)
        return bool(cond)

    # -- scratch ------------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="vmon-")
        return self._tmp

    def cleartmp(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


# ---------------------------------------------------------------- line coverage (evidence only)
TOOL = 3


def start_coverage(mon):
    m = sys.monitoring
    root = os.path.join(LIB, "sldr") + os.sep
    scr = os.path.join(REPO, "scripts") + os.sep

    def online(code, line):
        f = code.co_filename
        if f.startswith(root) or f.startswith(scr):
            mon.lines[os.path.relpath(f, REPO)].add(line)
        return m.DISABLE
    try:
        m.use_tool_id(TOOL, "vmon")
    except ValueError:
        pass
    m.register_callback(TOOL, m.events.LINE, online)
    m.set_events(TOOL, m.events.LINE)


def stop_coverage():
    m = sys.monitoring
    m.set_events(TOOL, 0)


def with_step_budget(fn, budget):
    """ Deterministic bounded-progress run: at most budget executed lines """
    m = sys.monitoring
    tid = 4
    left = [budget]

    def online(code, line):
        left[0] -= 1
        if left[0] < 0 and code.co_filename != __file__:
            raise StepBudget()
    m.use_tool_id(tid, "vmon-steps")
    m.register_callback(tid, m.events.LINE, online)
    m.set_events(tid, m.events.LINE)
    try:
        return fn()
    finally:
        m.set_events(tid, 0)
        m.free_tool_id(tid)


# ------------------------------------------------------------------------------- running a case
def in_code_under_test(tb):
    """ Does the traceback pass through the repository's code? Returns the innermost such frame """
    res = None
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(REPO + os.sep):
            res = fs
    return res


def run_case(mod, case, mon):
    mon.case = case
    mon.caseviol = 0
    mon.evaluations += 1

    def body():
        try:
            mod.check(case, mon)
        except (Hang, StepBudget, KeyboardInterrupt):
            raise
        except Exception as e:
            fs = in_code_under_test(e.__traceback__)
            if fs is None:
                raise
            mon.event("crash")
            mon.violation("crash:%s:%s" % (type(e).__name__, fs.name),
                          "%s: %s\n%s" % (type(e).__name__, e, "".join(
                              traceback.format_tb(e.__traceback__)[-4:])))

    def onalarm(sig, frm):
        raise Hang()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "WATCHDOG", WATCHDOG_S), 1.0)
    try:
        body()
        hung = False
    except Hang:
        hung = True
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if hung:
        # the wall clock decides nothing: judge on logical steps
        mon.event("watchdog")
        mon.caseviol = 0
        nv = len(mon.violations)
        budget = getattr(mod, "STEPS", STEP_BUDGET)
        try:
            with_step_budget(body, budget)
            mon.event("watchdog-recovered")
        except StepBudget as e:
            del mon.violations[nv:]
            fs = in_code_under_test(e.__traceback__)
            if fs is None:
                mon.skip("step budget ran out outside the code under test")
            else:
                mon.violation("no-progress", "no result within %d executed lines; last in %s" % (
                    budget, fs.name))
    if hasattr(mod, "after_case"):
        mod.after_case(case, mon)


# ------------------------------------------------------------------------------------- schedule
def schedule(mod, tier):
    jobs = []
    fixed = mod.FIXED() if hasattr(mod, "FIXED") else []
    for i, c in enumerate(fixed):
        jobs.append(("fixed", i, c))
    per = []
    for kind, (gen, q, t) in getattr(mod, "KINDS", {}).items():
        n = q if tier == "quick" else t
        per.append([(kind, i, None) for i in range(n)])
    # interleave the kinds proportionally so that a time cut keeps the mix
    tagged = []
    for lst in per:
        for j, x in enumerate(lst):
            tagged.append(((j + 0.5) / len(lst), x))
    tagged.sort(key=lambda z: (z[0], z[1][0]))
    jobs.extend(x for _, x in tagged)
    return jobs


def make_case(mod, kind, i, fixed, seed):
    if fixed is not None:
        case = dict(fixed)
        case.setdefault("kind", "fixed")
        return case
    rng = random.Random("%s:%s:%s:%s" % (seed, mod.PID, kind, i))
    case = mod.KINDS[kind][0](rng)
    if case is None:
        return None
    case.setdefault("kind", kind)
    return case


def run_shard(mod, tier, seed, shard, nshards, deadline):
    mon = Monitor(mod.PID, tier, seed)
    start_coverage(mon)
    try:
        if hasattr(mod, "setup"):
            mod.setup(mon)
        jobs = schedule(mod, tier)[shard::nshards]
        done = 0
        maxviol = 12
        for kind, i, fixed in jobs:
            if time.time() > deadline:
                mon.skip("time budget reached, %d cases not run" % (len(jobs) - done))
                break
            case = make_case(mod, kind, i, fixed, seed)
            done += 1
            if case is None:
                mon.skip("generator gave nothing")
                continue
            mon.event("case:" + case["kind"])
            nv = len(mon.violations)
            run_case(mod, case, mon)
            for v in mon.violations[nv:]:
                v["where"] = dict(seed=seed, tier=tier, kind=kind, index=i, shard=shard, nshards=nshards)
            # keep a few witnesses per mechanism only
            cnt = collections.Counter()
            keep = []
            for v in mon.violations:
                cnt[v["mechanism"]] += 1
                if cnt[v["mechanism"]] <= 3:
                    keep.append(v)
                else:
                    mon.events["violation-more:" + v["mechanism"]] += 1
            mon.violations = keep
            if len(cnt) > maxviol:
                mon.skip("stopped early: many distinct violations")
                break
    finally:
        stop_coverage()
        mon.cleartmp()
    return dict(events=dict(mon.events), states={k: list(v) for k, v in mon.states.items()},
                violations=mon.violations, evaluations=mon.evaluations,
                nontrivial=list(mon.nontrivial), samples=mon.samples, skips=dict(mon.skips),
                lines={k: list(v) for k, v in mon.lines.items()})


def fork_shards(mod, tier, seed, nshards, deadline):
    """ One process per shard; results come back through files in a private directory """
    tmp = tempfile.mkdtemp(prefix="vmon-shards-")
    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    try:
        for s in range(nshards):
            pid = os.fork()
            if pid == 0:
                rc = 1
                try:
                    # the code under test prints; keep stdout for verdicts
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    out = run_shard(mod, tier, seed, s, nshards, deadline)
                    with open(os.path.join(tmp, "%d.json" % s), "w", encoding="utf-8", errors="surrogatepass") as f:
                        json.dump(out, f, ensure_ascii=True, default=repr)
                    rc = 0
                except BaseException:
                    traceback.print_exc()
                    try:
                        with open(os.path.join(tmp, "%d.err" % s), "w") as f:
                            f.write(traceback.format_exc())
                    except Exception:
                        pass
                finally:
                    sys.stderr.flush()
                    os._exit(rc)
            pids.append(pid)
        bad = []
        for s, pid in enumerate(pids):
            _, st = os.waitpid(pid, 0)
            if st != 0:
                bad.append((s, st))
        res = []
        for s in range(nshards):
            p = os.path.join(tmp, "%d.json" % s)
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    res.append(json.load(f))
        return res, bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --------------------------------------------------------------------------------------- verdict
def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid and k.get("status") == "known"]


def run_property(mod, tier, seed):
    t0 = time.time()
    ncpu = os.cpu_count() or 2
    nshards = getattr(mod, "SHARDS", min(8, max(1, ncpu)))
    limit = getattr(mod, "QUICK_S", 240) if tier == "quick" else getattr(mod, "THOROUGH_S", 800)
    if hasattr(mod, "prepare"):
        mod.prepare(tier, seed)
    try:
        parts, bad = fork_shards(mod, tier, seed, nshards, t0 + limit)
    finally:
        if hasattr(mod, "finish"):
            mod.finish()
    events = collections.Counter()
    skips = collections.Counter()
    states = collections.defaultdict(set)
    lines = collections.defaultdict(set)
    viols, samples, nontriv, evals = [], [], set(), 0
    for p in parts:
        events.update(p["events"])
        skips.update(p["skips"])
        for k, v in p["states"].items():
            states[k].update(v)
        for k, v in p["lines"].items():
            lines[k].update(v)
        viols.extend(p["violations"])
        samples.extend(p["samples"])
        nontriv.update(p["nontrivial"])
        evals += p["evaluations"]
    known = load_known(mod.PID)
    kfound = collections.Counter()
    fresh = []
    for v in viols:
        for k in known:
            if v["mechanism"] == k["mechanism"]:
                kfound[k["mechanism"]] += 1
                break
        else:
            fresh.append(v)
    for k in known:
        if kfound[k["mechanism"]]:
            print("KNOWN-FINDING: property=%s %s" % (mod.PID, k["what"]))
    replays = []
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    seenmech = collections.Counter()
    for v in fresh:
        seenmech[v["mechanism"]] += 1
        if seenmech[v["mechanism"]] > 2:
            continue
        fn = os.path.join(EVID, "replay", "%s-%s.json" % (mod.PID, h64(v["mechanism"], v["case"])[:10]))
        with open(fn, "w", encoding="utf-8") as f:
            json.dump(dict(property=mod.PID, **v), f, indent=1, ensure_ascii=True, default=repr)
        replays.append(fn)
        print("VIOLATION property=%s replay=%s" % (mod.PID, fn))
        print("  mechanism: %s" % v["mechanism"])
        print("  " + short(v["detail"], 1200).replace("\n", "\n  "))
    wall = round(time.time() - t0, 2)
    missing = {e: n for e, n in getattr(mod, "REQUIRES", {}).items()
               if events[e] < (n if tier == "quick" else n)}
    anchors = {}
    for a in getattr(mod, "ANCHORS", []):
        anchors[a] = len(lines.get(a, ()))
    cov = dict(evaluations=evals, distinct_nontrivial=len(nontriv), rule=mod.RULE,
               samples=[json.loads(json.dumps(s, default=repr)) for s in (samples[:4] or ["none"])],
               events=dict(sorted(events.items())),
               distinct_states={k: len(v) for k, v in sorted(states.items())},
               anchored_lines_executed=anchors, skipped=dict(skips), shards=nshards,
               known_findings_seen=dict(kfound))
    ev = dict(property=mod.PID, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=wall, violations=len(fresh))
    with open(os.path.join(EVID, "%s.json" % mod.PID), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d events, %.1fs%s" % (
        mod.PID, tier, seed, evals, len(nontriv), sum(events.values()), wall,
        " skips=%s" % dict(skips) if skips else ""))
    if fresh:
        return 1
    if bad:
        print("ERROR: %d worker(s) failed in the harness: %s" % (len(bad), bad))
        return 2
    if missing:
        print("INCONCLUSIVE: monitor not reached often enough: %s (saw %s)" % (
            missing, {e: events[e] for e in missing}))
        return 3
    return 0


def replay(fn):
    import importlib
    with open(fn, encoding="utf-8") as f:
        r = json.load(f)
    mod = importlib.import_module("vmon.checks." + r["property"])
    if hasattr(mod, "prepare"):
        mod.prepare("quick", 1)
    mon = Monitor(mod.PID, "quick", 1)
    if hasattr(mod, "setup"):
        mod.setup(mon)
    try:
        run_case(mod, r["case"], mon)
    finally:
        mon.cleartmp()
        if hasattr(mod, "finish"):
            mod.finish()
    for v in mon.violations:
        print("VIOLATION property=%s replay=%s" % (mod.PID, fn))
        print("  mechanism: %s\n  %s" % (v["mechanism"], v["detail"]))
    if not mon.violations:
        print("case alone does not reproduce; it came from %s" % r.get("where"))
    return 1 if mon.violations else 0
