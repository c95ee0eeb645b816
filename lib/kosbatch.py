"""Runs many generated snippets in one interpreter process and attributes the output to them."""
import engine
import kosval


def parse(out):
    """Lines "#n text" -> {n: text}; later duplicates are kept as a violation marker."""
    r = {}
    # a last line without its end comes from a process which was killed while writing it
    for line in out[:out.rfind(b"\n") + 1].split(b"\n"):
        if line.startswith(b"#"):
            a, _, b = line[1:].partition(b" ")
            try:
                n = int(a)
            except ValueError:
                continue
            t = b.decode("utf-8", "replace")
            r[n] = (r[n] + "\n" + t) if n in r else t
    return r


def why(run):
    t = run.err.decode("utf-8", "replace").strip()
    return "%s rc=%d %s" % ("TIMEOUT" if run.timeout else "CRASH" if run.crashed else "EXIT", run.rc, t[-1500:])


def run_snippets(exe, snippets, prelude=kosval.PRELUDE, timeout=120, single_timeout=30, opts=(), env=None,
                 pre="", max_single=2000, run_kw=None):
    """snippets: Kos source of each case; case n prints its result on one line starting "#n ".

    Each snippet is formatted with %(n)d already applied by the caller through make(n)."""
    kw = run_kw or {}
    src = prelude + pre + "".join(m(n) for n, m in enumerate(snippets))
    r = engine.run_script(exe, src, timeout=timeout if len(snippets) > 1 else min(timeout, single_timeout), opts=opts, env=env, **kw)
    got = parse(r.out)
    res = [got.get(n) for n in range(len(snippets))]
    bad = r.rc != 0
    if bad or any(x is None for x in res):
        # isolate: run every case without a result alone (and all of them if the process died without
        # telling which one did it)
        missing = [n for n, x in enumerate(res) if x is None]
        if not missing:
            missing = list(range(len(snippets)))
        if len(snippets) == 1:
            return ["!" + why(r) if (res[0] is None or bad) else res[0]]
        done = 0
        timeouts = 0
        for n in missing:
            if done >= max_single:
                res[n] = None
                continue
            done += 1
            if timeouts > (0 if r.timeout else 2):
                continue
            one = engine.run_script(exe, prelude + pre + snippets[n](n), timeout=single_timeout, opts=opts, env=env, **kw)
            timeouts += one.timeout
            g = parse(one.out).get(n)
            res[n] = "!" + why(one) if (g is None or one.rc != 0) else g
    return res
