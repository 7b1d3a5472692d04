"""Check driver: seeded search over simulated runs for one property, replay files, evidence.

usage: main.py PID [--tier quick|thorough] [--runs N] [--seconds S] [--workers W] [--dump FILE]
       main.py --replay FILE"""
import sys, os, json, time, shutil, tempfile, subprocess, selectors, argparse, hashlib, collections, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sim import plan  # noqa: E402

PY = sys.executable
CPU_HANG, WALL_HANG = 150.0, 420.0


class Proc:
    """one worker process and the pipe it reports on"""

    def __init__(self, job, scratch, name):
        self.dir = os.path.join(scratch, name)
        os.makedirs(self.dir)
        jf = os.path.join(self.dir, "job.json")
        with open(jf, "w") as f:
            json.dump(job, f)
        r, w = os.pipe()
        os.set_inheritable(w, True)
        self.err = open(os.path.join(self.dir, "stderr"), "wb")
        env = dict(os.environ, HOME=os.environ.get("HOME", "/root"), PYTHONDONTWRITEBYTECODE="1")
        env.setdefault("PYTHONHASHSEED", "0")
        self.p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(HERE, "worker.py"), jf, self.dir, str(w)], pass_fds=(w,), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=env, start_new_session=True)
        os.close(w)
        os.set_blocking(r, False)
        self.fd, self.buf, self.job = r, b"", job
        self.current, self.cpu0, self.wall0, self.closed = None, 0.0, time.monotonic(), False

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                x = f.read().rsplit(")", 1)[1].split()
            return (int(x[11]) + int(x[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def read(self):
        out = []
        while True:
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                break
            if not b:
                self.closed = True
                break
            self.buf += b
        while b"\n" in self.buf:
            l, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(l)
            if "start" in m:
                self.current, self.cpu0, self.wall0 = m, self.cpu(), time.monotonic()
            elif "done" in m or "bad" in m or "result" in m:
                self.current = None
            out.append(m)
        return out

    def hung(self):
        if self.job["mode"] == "min":
            return time.monotonic() - self.wall0 > self.job["seconds"] + CPU_HANG + 60
        if self.current is None:
            return time.monotonic() - self.wall0 > 1200
        return self.cpu() - self.cpu0 > CPU_HANG or time.monotonic() - self.wall0 > WALL_HANG

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()
        os.close(self.fd)

    def stderr(self):
        try:
            with open(os.path.join(self.dir, "stderr"), "rb") as f:
                return f.read().decode("utf-8", "replace")[-2500:]
        except OSError:
            return ""


def single(job, scratch, name):
    """run one job; returns (result message | None, 'ok' | 'hang' | 'died', error text)"""
    p = Proc(job, scratch, name)
    res, state = None, None
    try:
        while state is None:
            time.sleep(0.05)
            for m in p.read():
                if "result" in m:
                    res = m
                if "fatal" in m:
                    return None, "died", m["fatal"]
            if res is not None:
                state = "ok"
            elif p.closed or p.p.poll() is not None:
                for m in p.read():
                    if "result" in m:
                        res = m
                state = "ok" if res is not None else "died"
            elif p.hung():
                state = "hang"
        return res, state, p.stderr() if state == "died" else ""
    finally:
        p.kill()


def findings():
    out = {}
    path = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(path):
        for f in json.load(open(path))["findings"]:
            out[(f["property"], f["key"])] = f["what"]
    return out


class Check:
    def __init__(self, a, scratch):
        self.a, self.scratch = a, scratch
        self.pid, self.tier, self.seed = a.pid, a.tier, a.seed
        self.t0 = time.monotonic()

    def search(self):
        """phase 1: all planned runs"""
        runs, seconds = plan.runs_for(self.pid, self.tier, self.a.runs)
        if self.a.seconds:
            seconds = self.a.seconds
        self.planned = len(runs)
        parts = plan.split(self.pid, runs, self.a.workers)
        procs = [Proc(dict(mode="batch", pid=self.pid, seed=self.seed, tier=self.tier, runs=r, seconds=seconds), self.scratch, "w%d" % k)
                 for k, r in enumerate(parts) if r]
        self.done, self.bad, self.errors, self.hangs, self.skipped = {}, [], [], [], 0
        self.samples = []
        hard = time.monotonic() + seconds + WALL_HANG + 120
        live = list(procs)
        try:
            while live:
                time.sleep(0.05)
                for p in list(live):
                    fin = False
                    for m in p.read():
                        if "done" in m:
                            self.done[m["done"]] = m
                            if m.get("spec") is not None and len(self.samples) < 4:
                                self.samples.append(m["spec"])
                            m["spec"] = None
                        elif "bad" in m:
                            if m["kind"] == "violation":
                                self.bad.append(dict(m, part=[x for x in p.job["runs"]]))
                            else:
                                self.errors.append("run %d (%s): %s" % (m["bad"], m["method"], m["d"]))
                        elif "skipped" in m:
                            self.skipped += 1
                        elif "fatal" in m:
                            self.errors.append(m["fatal"])
                        elif "end" in m:
                            fin = True
                    if fin:
                        live.remove(p)
                    elif p.hung():
                        if p.current is None:
                            self.errors.append("worker stuck outside a run: " + p.stderr())
                        else:
                            self.hangs.append((p.current["start"], p.current["method"]))
                        p.kill()
                        live.remove(p)
                    elif p.closed or p.p.poll() is not None:
                        ms = p.read()
                        if not any("end" in m for m in ms):
                            self.errors.append("worker died (%s) in run %s: %s" % (p.p.poll(), p.current, p.stderr()))
                        live.remove(p)
                if time.monotonic() > hard:
                    self.errors.append("search exceeded its wall-clock limit")
                    break
        finally:
            for p in procs:
                if not p.p.poll() is not None or p in live:
                    pass
                try:
                    os.killpg(p.p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.p.wait()

    # -- reporting a violation ---------------------------------------------
    def report(self):
        """returns True if a violation was confirmed and reported"""
        for b in sorted(self.bad, key=lambda b: b["bad"])[:3]:
            klass = b["d"]["klass"]
            if self.confirm(b, klass):
                return True
        for i, method in self.hangs[:1]:
            spec = self.spec_of(i, method)
            res, st, err = single(dict(mode="replay", pid=self.pid, specs=[spec]), self.scratch, "hang%d" % i)
            if st == "hang":
                self.emit(dict(klass="no-progress", detail="run %d (%s): an operation makes no progress within %g s of processor time (other runs need seconds)" % (
                    i, method, CPU_HANG)), [spec], i, 0)
                return True
            if res is not None and res["result"] == "violation":
                self.emit(res["d"], [spec], i, 0)
                return True
            self.errors.append("run %d (%s) took too long once, but not when repeated" % (i, method))
        return False

    def spec_of(self, i, method):
        f = os.path.join(self.scratch, "spec%d.json" % i)
        code = ("import sys,json; sys.path.insert(0,%r)\nfrom sim import boot,worker\nimport os\nboot.setup_env(%r); os.chdir(%r)\nboot.import_package()\n"
                "from sim import props\njson.dump(worker.make_spec(props.PROPS[%r],%r,%d,%r,%r),open(%r,'w'))" % (
                    VERIF, self.scratch, self.scratch, self.pid, self.seed, i, method, self.tier, f))
        subprocess.run([PY, "-c", code], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        return json.load(open(f))

    def fresh(self, specs, klass, name):
        res, st, err = single(dict(mode="replay", pid=self.pid, specs=specs), self.scratch, name)
        return res is not None and res["result"] == "violation" and res["d"]["klass"] == klass, res

    def confirm(self, b, klass):
        i, spec = b["bad"], b["spec"]
        ok, res = self.fresh([spec], klass, "f%d" % i)
        if ok:
            m, st, err = single(dict(mode="min", pid=self.pid, spec=spec, klass=klass, seconds=plan.MIN_SECONDS), self.scratch, "m%d" % i)
            if m is not None and m.get("ok"):
                ok2, res2 = self.fresh([m["spec"]], klass, "g%d" % i)
                if ok2:
                    self.emit(res2["d"], [m["spec"]], i, m["tries"])
                    return True
            self.emit(res["d"], [spec], i, 0)
            return True
        # needs what earlier runs of that worker left behind in the process
        part = b["part"]
        k = [x[0] for x in part].index(i)
        pre = []
        for n in (1, 3, 10, 40, k):
            n = min(n, k)
            while len(pre) < n:
                j, mt = part[k - 1 - len(pre)]
                pre.insert(0, self.spec_of(j, mt))
            ok, res = self.fresh(pre + [spec], klass, "p%d_%d" % (i, n))
            if ok:
                self.emit(res["d"], pre + [spec], i, 0)
                return True
            if n == k or time.monotonic() - self.t0 > 600:
                break
        self.errors.append("run %d (%s): %s: %s -- did not repeat in a fresh process" % (i, b["method"], klass, b["d"]["detail"]))
        return False

    def emit(self, d, specs, i, tries):
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d-%s.json" % (self.pid, i, hashlib.sha256(json.dumps(specs).encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, seed=self.seed, run=i, klass=d["klass"], detail=d["detail"], minimiser_runs=tries,
                           how="bin/check --replay FILE; earlier entries of specs only set the stage, the last one fails", specs=specs), f, indent=1)
        self.violation = dict(klass=d["klass"], detail=d["detail"], replay=path, run=i)
        print("violation: %s" % d["klass"])
        print("  " + d["detail"])
        print("  run %d of seed %s, minimised with %d runs" % (i, self.seed, tries))
        print("VIOLATION property=%s replay=%s" % (self.pid, path))

    # -- evidence -----------------------------------------------------------
    def evidence(self, nviol, wall):
        D = [m["d"] for m in self.done.values()]
        fired = collections.Counter()
        per = collections.Counter()
        for m in self.done.values():
            per[m["method"]] += 1
            for k, v in m["d"].get("fired", {}).items():
                fired[k] += v
        nt = {m["d"]["sig"] for m in self.done.values() if m["d"]["nontrivial"]}
        info = plan.INFO[self.pid]

        def tot(k):
            return sum(d.get(k, 0) or 0 for d in D)
        cov = dict(
            evaluations=len(D), distinct_nontrivial=len(nt), rule=info["rule"],
            samples=[s for s in self.samples[:3]],
            simulated_runs=len(D), runs_planned=self.planned, runs_skipped_by_time=self.skipped,
            runs_per_hour=int(len(D) / max(wall, 1e-9) * 3600), seeds_per_hour=int(len(D) / max(wall, 1e-9) * 3600),
            simulated_time=round(tot("vt"), 3), oracle_checks=tot("checks"),
            faults_fired=dict(sorted(fired.items())), operations_failed_by_faults=tot("nfail"),
            scheduling_decisions=tot("decisions"), context_switches=tot("switches"), simulated_threads=tot("threads"),
            distinct_executions=len({d["sig"] for d in D}),
            distinct_executions_measure="digest of operations with outcomes, fault firings and the thread-switch trace of a run",
            model_evaluations=tot("hits"), package_lines_monitored=tot("lines"),
            runs_per_method=dict(sorted(per.items())), worst_error_over_tolerance=max([d.get("worst") or 0 for d in D], default=0),
            real_components=info["real"], stub_components=info["stub"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed_int(), level="exploration", coverage=cov,
                  assumptions=plan.ASSUME, wall_s=round(wall, 2), violations=nviol)
        if nviol:
            ev["coverage"]["violation"] = self.violation
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)

    def seed_int(self):
        try:
            return int(self.seed)
        except ValueError:
            return int(hashlib.sha256(str(self.seed).encode()).hexdigest()[:8], 16)

    def main(self):
        print("property %s tier %s seed %s" % (self.pid, self.tier, self.seed))
        sys.stdout.flush()
        self.search()
        search_wall = time.monotonic() - self.t0
        known, unknown = {}, []
        kf = findings()
        for i in sorted(self.done):
            m = self.done[i]
            for k in m["d"].get("known") or []:
                if (self.pid, k) in kf:
                    known.setdefault(k, i)
                else:
                    unknown.append((i, m["method"], k))
        viol = False
        if self.bad or self.hangs:
            viol = self.report()
        if not viol and unknown:
            i, method, k = unknown[0]
            self.emit(dict(klass="unlisted", detail="%s (run %d, %s) is not in known-findings.json" % (k, i, method)), [self.spec_of(i, method)], i, 0)
            viol = True
        for k, i in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kf[(self.pid, k)]))
        self.evidence(1 if viol else 0, search_wall)
        print("%d of %d runs, %.0f s" % (len(self.done), self.planned, time.monotonic() - self.t0))
        if self.a.dump:
            with open(self.a.dump, "w") as f:
                for i in sorted(self.done):
                    m = self.done[i]
                    d = {k: v for k, v in m["d"].items()}
                    f.write(json.dumps([i, m["method"], d], sort_keys=True) + "\n")
        if self.a.costs:
            c = collections.defaultdict(list)
            for m in self.done.values():
                c[m["method"]].append(m["secs"])
            plan.save_costs(self.pid, {k: round(sum(v) / len(v), 3) for k, v in c.items()})
        if viol:
            return 1
        for e in self.errors:
            print("ERROR: " + e)
        if self.errors:
            return 2
        if self.tier == "quick" and len(self.done) < 0.4 * self.planned:
            print("ERROR: only %d of %d planned runs finished in time" % (len(self.done), self.planned))
            return 2
        return 0


def replay(path, scratch):
    r = json.load(open(path))
    res, st, err = single(dict(mode="replay", pid=r["property"], specs=r["specs"]), scratch, "replay")
    if st == "hang" and r["klass"] == "no-progress":
        print("reproduced: no-progress")
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if st != "ok" or res["result"] == "error":
        print("ERROR: %s %s" % (err, res))
        return 2
    if res["result"] == "violation":
        same = res["d"]["klass"] == r["klass"] and res["d"]["detail"] == r["detail"]
        print("%s: %s\n  %s" % ("reproduced exactly" if same else "reproduced with another message", res["d"]["klass"], res["d"]["detail"]))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    if r["klass"] == "unlisted" and res["d"].get("known"):
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced: the run is clean (%s)" % res["d"])
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--workers", type=int, default=plan.WORKERS)
    ap.add_argument("--dump")
    ap.add_argument("--costs", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    scratch = tempfile.mkdtemp(prefix="dst-")
    signal.signal(signal.SIGTERM, lambda *x: sys.exit(3))
    try:
        if a.replay:
            return replay(os.path.abspath(a.replay), scratch)
        return Check(a, scratch).main()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
