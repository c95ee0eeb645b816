"""Generated-input search engine shared by all checks.

A check supplies gen(src) -> case and evaluate(cases) -> [Outcome].  Every random choice a generator
makes goes through Src, which records it as a sequence of small integers; a failing case is shrunk by
editing that sequence and regenerating, so the shrunk case is always one the generator can produce.
Runs are a pure function of the code under test and VERIF_SEED (case counts, not time, bound them;
the wall-clock cap below only ends a run early on a slow machine and is reported in the evidence).
"""
import base64
import hashlib
import json
import os
import pickle
import random
import shutil
import multiprocessing
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, wait, FIRST_COMPLETED

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kbuild  # noqa: E402

VERIF = kbuild.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Stop(Exception):
    """The recorded choice sequence ran out of its budget."""


class Src:
    MAX = 20000

    def __init__(self, rng=None, replay=None):
        self.rng = rng
        self.replay = replay
        self.rec = []

    def below(self, n):
        """0 <= result < n; shrinks towards 0."""
        if n <= 1:
            return 0
        i = len(self.rec)
        if i >= self.MAX:
            raise Stop()
        if self.replay is not None:
            v = self.replay[i] if i < len(self.replay) else 0
            v = v % n if v >= n else v
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks towards False."""
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; shrinks towards the first."""
        total = sum(w for w, _ in pairs)
        k = self.below(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def len(self, mx, mn=0):
        """Size with a bias to small, but reaching mx."""
        if mx <= mn:
            return mn
        k = self.below(4)
        if k < 2:
            return self.int(mn, min(mx, mn + 4))
        if k == 2:
            return self.int(mn, min(mx, mn + 16))
        return self.int(mn, mx)


class Outcome:
    __slots__ = ("ok", "detail", "nontrivial", "labels", "finding")

    def __init__(self, ok, detail="", nontrivial=True, labels=(), finding=None):
        self.ok = ok
        self.detail = detail
        self.nontrivial = nontrivial
        self.labels = tuple(labels)
        self.finding = finding


_scratch = None


def scratch():
    """Per-process scratch directory, removed at exit of the check."""
    global _scratch
    base = os.environ.get("KOSV_SCRATCH")
    if _scratch is None or _scratch[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="w%d_" % os.getpid(), dir=base)
        _scratch = (os.getpid(), d)
    return _scratch[1]


CLEAN_ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8",
             "LC_ALL": "C.UTF-8", "TERM": "dumb",
             "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
             "TSAN_OPTIONS": "exitcode=66"}


class Run:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        return (not self.timeout) and (self.rc < 0 or self.rc not in (0, 1) or b"AddressSanitizer" in self.err
                or b"runtime error:" in self.err or b"Assertion" in self.err and b"failed." in self.err)


def run(argv, stdin=b"", timeout=60, env=None, cwd=None, preexec=None):
    e = dict(CLEAN_ENV)
    if env:
        e.update(env)
    p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd or scratch(), start_new_session=True, preexec_fn=preexec)
    end = time.time() + timeout
    while True:
        try:
            out, err = p.communicate(stdin, timeout=max(0.1, min(2, end - time.time())))
            return Run(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            # input already sent is remembered by communicate()
            stop = _STOP is not None and _STOP.is_set()
            if not stop and time.time() < end:
                continue
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            out, err = p.communicate()
            if stop:
                raise Stopped()
            return Run(-9, out or b"", err or b"", True)


class Stopped(BaseException):
    """Another worker has found a violation; what this one does is not needed any more."""


_STOP = None


_n = 0


def run_script(exe, text, args=(), timeout=60, env=None, opts=(), cwd=None, name=None, preexec=None):
    global _n
    d = scratch()
    _n += 1
    path = os.path.join(d, name or ("s%d.kos" % _n))
    with open(path, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("utf-8", "surrogatepass"))
    try:
        return run([exe] + list(opts) + [path] + list(args), timeout=timeout, env=env, cwd=cwd, preexec=preexec)
    finally:
        os.unlink(path)


class Check:
    id = "C00"
    rule = ""
    level = "exploration"
    flavours = ("dbg",)
    batch = 100
    cases = {"quick": 8000, "thorough": 200000}
    cap_s = {"quick": 240, "thorough": 3000}
    assumptions = ()
    max_shrink = 400
    workers = 8
    # evaluations of a case to see it fail again: more where threads are involved
    retries = 1

    def __init__(self):
        self.exe = {}

    # --- to override -------------------------------------------------
    def prepare(self):
        for f in self.flavours:
            self.exe[f] = kbuild.build(f)

    def gen(self, src):
        raise NotImplementedError

    def evaluate(self, cases):
        """Returns one Outcome per case."""
        raise NotImplementedError

    def describe(self, case):
        return case

    def known(self, case, outcome):
        """Id of the known finding this failing case is an instance of, or None."""
        return None

    def fixed_cases(self):
        """Extra deterministic cases evaluated before the generated ones."""
        return []

    # --- engine ------------------------------------------------------
    def gen_case(self, src):
        try:
            return self.gen(src)
        except Stop:
            return None

    def seq_fails(self, seq):
        src = Src(replay=seq)
        case = self.gen_case(src)
        if case is None:
            return None
        out = safe_evaluate(self, [case])[0]
        if out.ok or self.known(case, out):
            return None
        return src.rec, case, out

    def shrink(self, seq, case, out, deadline):
        best = (seq, case, out)
        tries = 0

        def attempt(cand):
            nonlocal best, tries
            if tries >= self.max_shrink or time.time() > deadline:
                return False
            tries += 1
            try:
                r = self.seq_fails(cand)
            except Exception:
                return False
            if r and (len(r[0]), r[0]) < (len(best[0]), best[0]):
                best = r
                return True
            return False

        improved = True
        while improved and tries < self.max_shrink and time.time() < deadline:
            improved = False
            k = max(1, len(best[0]) // 2)
            while k >= 1:
                i = 0
                while i < len(best[0]):
                    s = best[0]
                    if attempt(s[:i] + s[i + k:]):
                        improved = True
                    else:
                        i += k
                    if tries >= self.max_shrink or time.time() > deadline:
                        break
                k //= 2
            i = 0
            while i < len(best[0]) and tries < self.max_shrink and time.time() < deadline:
                s = best[0]
                if s[i]:
                    for v in (0, s[i] // 2, s[i] - 1):
                        if v < s[i] and attempt(s[:i] + [v] + s[i + 1:]):
                            improved = True
                            break
                i += 1
        return best


def _digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode("utf-8", "surrogatepass")).digest()[:8]


_CHECK = None


def _init(check, scratch_dir, stop):
    global _CHECK, _STOP
    os.environ["KOSV_SCRATCH"] = scratch_dir
    _CHECK = check
    _STOP = stop


def _task(seed, n):
    """Runs one batch; returns summary."""
    check = _CHECK
    t0 = time.time()
    rng = random.Random(seed)
    seqs, cases = [], []
    for _ in range(n):
        src = Src(rng=random.Random(rng.getrandbits(64)))
        c = check.gen_case(src)
        if c is not None:
            seqs.append(src.rec)
            cases.append(c)
    try:
        return _eval(check, seqs, cases, t0)
    except Stopped:
        return {"n": 0, "keys": set(), "labels": {}, "fail": None, "sample": None, "known": {}, "t": 0}


class Batch(list):
    """Cases which fail only when run one after another in one process; the last one is the failing one."""


def safe_evaluate(check, cases):
    if len(cases) == 1 and isinstance(cases[0], Batch):
        return [safe_evaluate(check, list(cases[0]))[-1]]
    return safe_evaluate_(check, cases)


def describe(check, case):
    if isinstance(case, Batch):
        return {"sequence_in_one_process": [check.describe(c) for c in case]}
    return check.describe(case)


def safe_evaluate_(check, cases):
    """A case whose evaluation cannot be completed (output that cannot be interpreted) is a failed case."""
    try:
        outs = check.evaluate(cases)
        assert len(outs) == len(cases)
        return outs
    except Exception:
        if len(cases) == 1:
            return [Outcome(False, "evaluation failed: " + traceback.format_exc()[-1500:])]
        return [safe_evaluate_(check, [c])[0] for c in cases]


def _eval(check, seqs, cases, t0):
    outs = safe_evaluate(check, cases)
    res = {"n": len(cases), "keys": set(), "labels": {}, "fail": None, "sample": None, "known": {}, "t": 0}
    for s, c, o in zip(seqs, cases, outs):
        for lb in o.labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if o.nontrivial:
            res["keys"].add(_digest(c))
            if res["sample"] is None:
                res["sample"] = check.describe(c)
        if not o.ok:
            k = check.known(c, o)
            if k:
                res["known"][k] = res["known"].get(k, 0) + 1
                continue
            if res["fail"] is None:
                # confirm alone, before anything is reported
                for _ in range(check.retries):
                    again = safe_evaluate(check, [c])[0]
                    if not again.ok and not check.known(c, again):
                        res["fail"] = (s, c, again.detail)
                        break
                if res["fail"]:
                    continue
                # a failure which needs the cases before it (shared heap, caches): confirmed twice as a sequence
                b = Batch(cases[:cases.index(c) + 1])
                if res.get("tried_batch", 0) < 2 and all(not x.ok and not check.known(c, x) for x in (safe_evaluate(check, [b])[0] for _ in range(2))):
                    res["fail"] = (None, b, o.detail)
                else:
                    res["tried_batch"] = res.get("tried_batch", 0) + 1
                    res["labels"]["unconfirmed"] = res["labels"].get("unconfirmed", 0) + 1
                    res["labels"]["unconfirmed_detail:" + o.detail[:300]] = 1
    res["t"] = time.time() - t0
    return res


def load_known(prop):
    """Known findings (committed, never written at run time)."""
    path = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known: property=%s key=" % prop):
                    key, _, what = line.split("key=", 1)[1].strip().partition(" ")
                    r.append({"key": key, "what": what})
    return r


def write_evidence(check, cov, wall, violations):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": check.id, "tier": TIER, "seed": SEED, "level": check.level, "coverage": cov,
          "assumptions": list(check.assumptions), "wall_s": round(wall, 2), "violations": violations}
    p = os.path.join(VERIF, "evidence", check.id + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    os.replace(p + ".tmp", p)


def save_replay(check, seq, case, detail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (check.id, hashlib.sha1((json.dumps(seq) if seq else detail).encode("utf-8", "replace")).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump({"property": check.id, "choices": seq, "case": describe(check, case), "detail": detail,
                   "raw": base64.b64encode(pickle.dumps(case)).decode(),
                   "replay_with": "python3 /verif/check.py %s --replay %s" % (check.id, p)}, f, indent=1, default=repr)
        f.write("\n")
    return p


def shrink_batch(check, b, deadline):
    k = max(1, len(b) // 2)
    while k >= 1 and time.time() < deadline:
        i = 0
        while i < len(b) - 1 and time.time() < deadline:
            cand = Batch(list(b[:i]) + list(b[min(i + k, len(b) - 1):]))
            if not safe_evaluate(check, [cand])[0].ok:
                b = cand
            else:
                i += k
        k //= 2
    return b


def main(check, argv):
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="kosv_%s_" % check.id)
    os.environ["KOSV_SCRATCH"] = base
    try:
        return _main(check, argv, t0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _main(check, argv, t0, base):
    try:
        check.prepare()
    except kbuild.BuildError as e:
        print(str(e)[-4000:])
        print("ERROR: /repo does not build; no verdict")
        return 2

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        case = pickle.loads(base64.b64decode(rep["raw"]))
        out = safe_evaluate(check, [case])[0]
        print(json.dumps(describe(check, case), indent=1, default=repr))
        print("OK" if out.ok else "FAILS: " + out.detail)
        return 0 if out.ok else 1

    if "--show" in argv:
        k = int(argv[argv.index("--show") + 1])
        rng = random.Random("%s/%d/show" % (check.id, SEED))
        for _ in range(k):
            src = Src(rng=random.Random(rng.getrandbits(64)))
            c = check.gen_case(src)
            print(json.dumps(check.describe(c), indent=1, default=repr))
            o = check.evaluate([c])[0]
            print(o.ok, o.detail, o.nontrivial, o.labels)
        return 0

    total = int(os.environ.get("KOSV_CASES", check.cases[TIER]))
    n_tasks = max(1, total // check.batch)
    cap = t0 + check.cap_s[TIER]
    agg = {"n": 0, "keys": set(), "labels": {}, "samples": [], "known": {}}
    fail = None
    capped = False
    worker_error = None

    def absorb(r):
        nonlocal fail
        agg["n"] += r["n"]
        agg["keys"] |= r["keys"]
        for k, v in r["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        for k, v in r["known"].items():
            agg["known"][k] = agg["known"].get(k, 0) + v
        if r["sample"] is not None and len(agg["samples"]) < 3:
            agg["samples"].append(r["sample"])
        if r["fail"] and fail is None:
            fail = r["fail"]

    fixed = check.fixed_cases()
    if fixed:
        for i in range(0, len(fixed), check.batch):
            chunk = fixed[i:i + check.batch]
            absorb(_eval(check, [None] * len(chunk), chunk, time.time()))
            if fail:
                break

    if fail is None:
        stop = multiprocessing.Event()
        with ProcessPoolExecutor(check.workers, initializer=_init, initargs=(check, base, stop)) as ex:
            pending = set()
            i = 0
            while (i < n_tasks or pending) and fail is None:
                while i < n_tasks and len(pending) < 2 * check.workers:
                    if time.time() > cap:
                        capped = True
                        i = n_tasks
                        break
                    pending.add(ex.submit(_task, "%s/%d/%d" % (check.id, SEED, i), check.batch))
                    i += 1
                if not pending:
                    break
                done, pending = wait(pending, return_when=FIRST_COMPLETED)
                for f in done:
                    try:
                        absorb(f.result())
                    except Exception:
                        worker_error = traceback.format_exc()
                        fail = fail or None
                        for p in pending:
                            p.cancel()
                        i = n_tasks
            if fail:
                stop.set()
            for p in pending:
                p.cancel()

    if worker_error and fail is None:
        print(worker_error)
        print("ERROR: harness failure; no verdict")
        return 3

    cov = {"evaluations": agg["n"], "distinct_nontrivial": len(agg["keys"]), "rule": check.rule,
           "samples": agg["samples"], "labels": dict(sorted(agg["labels"].items())),
           "stopped_early_by_wall_clock": capped}

    for k in load_known(check.id):
        print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
    if agg["known"]:
        cov["known_finding_hits"] = agg["known"]

    if fail:
        seq, case, detail = fail
        if isinstance(case, Batch):
            case = shrink_batch(check, case, time.time() + 120)
        elif seq is not None:
            o = Outcome(False, detail)
            seq, case, o = check.shrink(seq, case, o, time.time() + 120)
            detail = o.detail
        # replay three times before reporting
        bad = 0
        for _ in range(3 * check.retries):
            o = safe_evaluate(check, [case])[0]
            if not o.ok and not check.known(case, o):
                bad += 1
                detail = o.detail
            if bad >= 2:
                break
        if bad >= 2:
            p = save_replay(check, seq, case, detail)
            cov["violation"] = {"case": describe(check, case), "detail": detail}
            write_evidence(check, cov, time.time() - t0, 1)
            print(json.dumps(describe(check, case), indent=1, default=repr)[:6000])
            print(detail[:4000])
            print("VIOLATION property=%s replay=%s" % (check.id, p))
            return 1
        print("note: a failure did not reproduce (%d/3) and is not reported: %s" % (bad, detail[:500]))
        cov["unreproduced"] = detail[:500]

    write_evidence(check, cov, time.time() - t0, 0)
    print("%s: %d cases, %d distinct non-trivial, %.1fs%s" %
          (check.id, agg["n"], len(agg["keys"]), time.time() - t0, " (capped)" if capped else ""))
    if os.environ.get("KOSV_LABELS"):
        for k, v in sorted(agg["labels"].items()):
            print("   %-40s %d" % (k, v))
    return 0
