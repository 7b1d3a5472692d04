"""Worker process: executes simulated runs one after another and reports them on a private pipe.

usage: worker.py JOBFILE SCRATCH FD   (FD: inherited pipe for JSON lines)"""
import sys, os, json, time, random, hashlib, traceback, resource, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot


def seed_of(master, pid, i):
    return int.from_bytes(hashlib.sha256(("%s:%s:%d" % (master, pid, i)).encode()).digest()[:8], "big")


def make_spec(P, master, i, method, tier):
    spec = P.gen(i, random.Random(seed_of(master, P.ID, i)), method, tier)
    return json.loads(json.dumps(spec))         # exactly what a replay file holds


def run_one(P, spec):
    """('ok', stats) | ('violation', {klass, detail}) | ('error', text)"""
    from sim import world, sched, seams
    try:
        return "ok", P.run(spec)
    except world.Violation as v:
        return "violation", dict(klass=v.klass, detail=v.detail)
    except sched.SimDeadlock as e:
        return "violation", dict(klass="deadlock", detail="no simulated thread can make progress: %s" % e)
    except seams.WorkBudget as e:
        return "violation", dict(klass="unbounded-work", detail=str(e))
    except BaseException as e:
        tb, inpkg = e.__traceback__, None
        pkg = (os.path.realpath(boot.REPO) + "/ormatex_py/", boot.REPO + "/ormatex_py/")
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(pkg):
                inpkg = "%s:%d" % (os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_lineno)
            tb = tb.tb_next
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
        if inpkg:
            return "violation", dict(klass="unexpected-exception", detail="%s: %s (from %s)" % (type(e).__name__, str(e)[:200], inpkg))
        return "error", text


def rss_mb():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize() / 2 ** 20


# -- minimisation -------------------------------------------------------------
def ddmin(items, test, deadline):
    """smallest sublist (in order) for which test holds, by chunk removal"""
    n = max(1, len(items) // 2)
    while items and n >= 1:
        i, removed = 0, False
        while i < len(items):
            if time.monotonic() > deadline:
                return items
            cand = items[:i] + items[i + n:]
            if test(cand):
                items, removed = cand, True
            else:
                i += n
        if n == 1 and not removed:
            break
        n = n if removed and n > 1 else n // 2
    return items


LISTS = ("clients", "ops", "pre", "probe", "crashes", "faults", "clock", "data")
DROP = ("faults", "fault", "opts", "clock", "stall", "before", "after", "newproc", "share_y", "npy", "fresh", "chk", "same", "lost", "kind")


def minimise(P, spec, klass, budget):
    from sim import world
    deadline = time.monotonic() + budget
    tries = [0]

    def bad(s):
        if time.monotonic() > deadline:
            return False
        tries[0] += 1
        k, d = run_one(P, s)
        return k == "violation" and d["klass"] == klass

    def cp(s):
        return json.loads(json.dumps(s))
    if not bad(spec):
        return spec, tries[0], False
    cur = cp(spec)
    # schedule: seeded choices -> explicit list of switches, or none at all
    s = cur.get("sched")
    if s and "seed" in s:
        t = cp(cur)
        t["sched"] = None
        if "order" not in t:
            t["order"] = s["seed"]
        if bad(t):
            cur = t
        else:
            run_one(P, cur)
            taken = {str(k): v for k, v in world.CURRENT.dec.taken.items()}
            t = cp(cur)
            t["order"] = s["seed"]
            t["sched"] = {"fixed": taken}
            if bad(t):
                cur = t

    def paths(o, key, pre=()):
        if isinstance(o, dict):
            for k, v in o.items():
                if k == key:
                    yield pre + (k,)
                yield from paths(v, key, pre + (k,))
        elif isinstance(o, list):
            for k, v in enumerate(o):
                yield from paths(v, key, pre + (k,))

    def get(o, p):
        for k in p:
            o = o[k]
        return o

    def with_(p, val, remove=False):
        t = cp(cur)
        q = get(t, p[:-1])
        if remove:
            q.pop(p[-1])
        else:
            q[p[-1]] = val
        return t
    for _ in range(3):
        before = json.dumps(cur, sort_keys=True)
        for key in LISTS:
            for p in list(paths(cur, key)):
                try:
                    v = get(cur, p)
                except (KeyError, IndexError):
                    continue
                if isinstance(v, list) and v:
                    best = ddmin(v, lambda c: bad(with_(p, c)), deadline)
                    if best != v:
                        cur = with_(p, best)
        for key in DROP:
            for p in list(paths(cur, key)):
                try:
                    v = get(cur, p)
                except (KeyError, IndexError):
                    continue
                t = with_(p, {} if key == "opts" else None if key in ("before", "after") else [] if isinstance(v, list) else None,
                          remove=key not in ("opts", "before", "after", "clock", "faults"))
                if v and bad(t):
                    cur = t
        fx = (cur.get("sched") or {}).get("fixed")
        if fx:
            keep = ddmin(sorted(fx.items(), key=lambda x: int(x[0])), lambda c: bad(dict(cp(cur), sched={"fixed": dict(c)})), deadline)
            cur = dict(cp(cur), sched={"fixed": dict(keep)} if keep else None)
        for key, val in (("t0", 0.0), ("n", None), ("stiff", 1.0), ("const", 0.0), ("force", 0.0), ("nl", 0.0), ("runs", 1)):
            for p in list(paths(cur, key)):
                v = get(cur, p)
                if key == "n":
                    if len(p) == 1 and isinstance(v, int) and v > 1:
                        for c in range(1, v):
                            if bad(with_(p, c)):
                                cur = with_(p, c)
                                break
                elif v != val and isinstance(v, (int, float)) and bad(with_(p, val)):
                    cur = with_(p, val)
        if json.dumps(cur, sort_keys=True) == before or time.monotonic() > deadline:
            break
    return cur, tries[0], True


def main():
    job = json.load(open(sys.argv[1]))
    scratch, fd = sys.argv[2], int(sys.argv[3])
    out = os.fdopen(fd, "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)                               # the package prints; nothing reads it

    def say(**kw):
        out.write(json.dumps(kw) + "\n")
        out.flush()
    warnings.simplefilter("ignore")
    boot.setup_env(scratch)
    os.chdir(scratch)
    try:
        boot.import_package()
        from sim import props
        P = props.PROPS[job["pid"]]
    except BaseException as e:
        say(fatal="import: %s" % "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
        return
    say(ready=1)
    import jax
    if job["mode"] == "batch":
        t_end = time.monotonic() + job["seconds"]
        runs = 0
        for i, method in job["runs"]:
            if time.monotonic() > t_end:
                say(skipped=1)
                continue
            spec = make_spec(P, job["seed"], i, method, job["tier"])
            say(start=i, method=method)
            t = time.perf_counter()
            kind, d = run_one(P, spec)
            dt = time.perf_counter() - t
            if kind == "ok":
                say(done=i, method=method, secs=round(dt, 3), d=d, spec=spec if runs < 2 else None)
            else:
                say(bad=i, method=method, kind=kind, d=d, spec=spec)
                break
            runs += 1
            if runs % 25 == 0 and rss_mb() > 2200:
                jax.clear_caches()
    elif job["mode"] == "replay":
        k, d = None, None
        for s in job["specs"]:
            say(start=0)
            k, d = run_one(P, s)
        if k == "ok":
            d = {x: d.get(x) for x in ("sig", "known", "checks")}
        say(result=k, d=d)
    elif job["mode"] == "min":
        say(start=0)
        cur, tries, ok = minimise(P, job["spec"], job["klass"], job["seconds"])
        say(result="min", spec=cur, tries=tries, ok=ok)
    say(end=1)
    out.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
