"""C17: a run is a function of its inputs. The same history is executed in a plain environment and in hostile ones
(jumping clocks, reseeded global generators, broken output, another thread, evicted compiled kernels, recycled memory,
other work in between, inputs in other array types) and compared bit for bit."""
import gc, os, random, sys
import numpy as np
import jax
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, world
from .world import Violation, bits, call, make_integrator

ENVS = ["rng", "clock", "stdout", "stdout", "thread", "recycle", "evict", "cpus", "errstate", "y0np", "y0ro", "y0strided", "tnp", "dtnp", "work", "gc"]


class Broken:
    """an output stream that takes ok writes and fails from then on"""

    def __init__(self, kind, ok):
        self.kind, self.ok, self.w, self.n = kind, ok, 0, 0
        self.encoding = "utf-8"

    def write(self, s):
        self.w += 1
        if self.w <= self.ok:
            return len(s)
        self.n += 1
        raise {"pipe": BrokenPipeError(32, "Broken pipe"), "full": OSError(28, "No space left on device"), "closed": ValueError("I/O operation on closed file")}[self.kind]

    def flush(self):
        if self.n:
            self.write("")


def caller_y0(kind, y):
    if kind == "y0np":
        return np.array(y)
    if kind == "y0ro":
        a = np.array(y)
        a.flags.writeable = False
        return a
    if kind == "y0strided":
        a = np.zeros(2 * len(y))
        a[::2] = y
        return a[::2]
    return jnp.asarray(y)


class Counting:
    """a working output stream"""
    encoding = "utf-8"
    w = 0

    def write(self, s):
        self.w += 1
        return len(s)

    def flush(self):
        pass


class Client:
    """performs the history; env: name -> parameters, empty for the plain environment"""

    def __init__(self, spec, run, env, writes=None):
        self.spec, self.run, self.env = spec, run, env
        self.writes, self.nw = writes, {}          # writes per operation: of the plain run, of this one
        self.out, self.broken, self.hit = [], 0, 0

    def build(self):
        k = next((k for k in self.env if k.startswith("y0")), None)
        t0 = self.spec["t0"]
        if "tnp" in self.env:
            t0 = {"np": np.float64(t0), "jnp": jnp.asarray(t0), "int": int(t0) if float(t0).is_integer() else t0, "np0": np.array(t0)}[self.env["tnp"]]
        system, self.M = models.build(self.spec["model"])
        self.system = system
        return make_integrator(system, self.spec["method"], t0, caller_y0(k, models.y0_of(self.spec["model"])), self.spec["opts"])

    def before(self, j):
        e = self.env
        if "rng" in e:
            np.random.seed((e["rng"] + j) % (1 << 32))
            random.seed(e["rng"] + j)
        if "clock" in e:
            sched.CLOCK.jumps = list(e["clock"])
        if "gc" in e:
            gc.collect()
        if "evict" in e and j in e["evict"]:
            jax.clear_caches()
        if "work" in e and j in e["work"]:
            # unrelated work in the same process: another method on the same system
            w = make_integrator(self.system, e["work_method"], self.spec["t0"] + 1.0, jnp.asarray(models.y0_of(self.spec["model"])) * 1.5, {})
            self.quiet(lambda: w.accept_step(w.step(0.07)))

    def quiet(self, fn):
        call("main", fn)

    def in_env(self, j, fn):
        """one operation in this environment: (value, exception)"""
        e = self.env
        res = []

        def op():
            res.append(call("main", fn)[:2])
        if "thread" in e and (e["thread"] >> (j % 8)) & 1:
            th = sched.SimThread(target=op, name="caller")
            self.run.sim.main.role = "main"
            th.start()
            th.join()
        elif "errstate" in e:
            with np.errstate(**{"all": e["errstate"]}), np.printoptions(precision=2):
                op()
        else:
            op()
        return res[0]

    def go(self, j, fn, what, restore=None):
        self.before(j)
        e = self.env
        if not e:
            real, sys.stdout = sys.stdout, Counting()
            b = sys.stdout
            try:
                return self.in_env(j, fn)
            finally:
                sys.stdout = real
                self.nw[j] = b.w
        if "stdout" in e and j in e["stdout"]:
            real, sys.stdout = sys.stdout, (None if e["stdout_kind"] == "none" else Broken(e["stdout_kind"], int(e["stdout_u"] * self.writes.get(j, 0))))
            b = sys.stdout
            try:
                v, x = self.in_env(j, fn)
            finally:
                sys.stdout = real
            self.broken += 1
            self.hit += getattr(b, "n", 0)
            if x is None:
                return v, x
            if not (isinstance(x, (OSError, ValueError)) and getattr(b, "n", 0)):
                return v, x              # the plain run decides whether this was to be expected
            # the caller saw the broken output: try again with a working one
            if restore:
                restore(what, x)
        return self.in_env(j, fn)

    def all(self):
        from ormatex_py.integrate_wrapper import integrate
        spec, out = self.spec, self.out
        method = spec["method"]
        I = self.build() if method not in ref.DIFFRAX else None
        if I is None:
            self.system, self.M = models.build(spec["model"])
        v = None
        for j, op in enumerate(spec["ops"]):
            dt = op.get("dt")
            if dt is not None and "dtnp" in self.env:
                dt = {"np": np.float64, "jnp": jnp.asarray}[self.env["dtnp"]](dt)
            k = op["op"]
            if k == "step":
                s0 = world.snap(I)

                def restore(what, x):
                    if world.snap(I) != s0:
                        raise Violation("step-left-trace", "%s: step failed on broken output (%s) and changed the integrator" % (method, type(x).__name__))
                v, e = self.go(j, lambda: I.step(dt), "step", restore)
                out.append(("step", type(e).__name__ if e is not None else (float(v.t), bits(v.y))))
            elif k == "accept":
                if v is None:
                    continue
                _, e = self.go(j, lambda: I.accept_step(v), "accept")
                v = None
                out.append(("accept", type(e).__name__ if e is not None else (float(I.time), bits(I.state))))
            elif k == "reset":
                y = jnp.asarray(models.y0_of(spec["model"]) * op["f"])
                _, e = self.go(j, lambda: I.reset_ic(op["t0"], y), "reset")
                v = None
                out.append(("reset", type(e).__name__ if e is not None else (float(I.time), bits(I.state))))
            elif k == "new":
                I = self.build()
                v = None
                out.append(("new", (float(I.time), bits(I.state))))
            elif k == "drive":
                y = caller_y0(next((k for k in self.env if k.startswith("y0")), None), models.y0_of(spec["model"]))
                r, e = self.go(j, lambda: integrate(self.system, y, spec["t0"], dt, op["n"], method, **spec["opts"]), "drive")
                out.append(("drive", type(e).__name__ if e is not None else (tuple(float(t) for t in r.t), tuple(bits(y) for y in r.y))))
        return out


def short(o):
    k, r = o
    if isinstance(r, str):
        return "%s raised %s" % (k, r)
    if k == "drive":
        return "drive t=%s y[-1]=%s" % (list(r[0])[-2:], np.frombuffer(r[1][-1][1]).ravel()[:3])
    return "%s t=%r y=%s" % (k, r[0], np.frombuffer(r[1][1]).ravel()[:3])


class C17:
    ID = "C17"
    METHODS = ref.ALL + ref.USER + ref.DIFFRAX

    @staticmethod
    def gen(i, rng, method, tier):
        dfx = method in ref.DIFFRAX
        m = gen.gen_model(rng, "exprb2" if dfx else method, shipped=0.2, n=rng.choice([2, 3]) if dfx else None)
        if dfx and m["model"] in ("sem", "semna", "nonlin"):
            m = dict(model="lvna", y0seed=rng.randrange(1 << 20))
        opts = {} if dfx or method == "user" else gen.gen_opts(rng, method, m.get("n", 2))
        ops, dt0 = [], gen.gen_dt(rng, method)
        dt = dt0
        for _ in range(rng.randint(2, 5 if tier == "quick" else 9)):
            if dfx or (method != "user" and rng.random() < (0.3 if method in ref.MULTISTEP else 0.15)):
                ops.append(dict(op="drive", dt=dt, n=rng.randint(1, 4) if dfx else rng.randint(2, 5)))
                if dfx and len(ops) >= 2:
                    break
            else:
                ops.append(dict(op="step", dt=dt))
                if rng.random() < 0.75:
                    ops.append(dict(op="accept"))
                if rng.random() < 0.12:
                    ops.append(dict(op="reset", t0=gen.gen_t0(rng), f=rng.choice([1.0, 0.5, 1.25])))
                if rng.random() < 0.12:
                    ops.append(dict(op="new"))
            if rng.random() < 0.5:
                dt = gen.gen_dt(rng, method, dt0)
        envs = []
        for _ in range(2):
            e = {}
            names = rng.sample(ENVS, rng.choice([1, 2, 3]))
            if method in ref.LEJA and rng.random() < 0.5:          # these report every substep
                names.append("stdout")
            if any(o["op"] == "drive" for o in ops) and rng.random() < 0.5:
                names.append("clock")
            for name in names:
                if name in e:
                    continue
                if name == "rng":
                    e[name] = rng.randrange(1 << 30)
                elif name == "clock":
                    e[name] = [rng.choice([0.0, 1e-9, 5.0, -3600.0, 86400.0, 1e9]) for _ in range(rng.randint(1, 6))]
                elif name == "stdout":
                    e[name] = sorted(rng.sample(range(len(ops)), rng.randint(1, len(ops))))
                    e["stdout_kind"] = rng.choice(["pipe", "full", "full", "closed", "none"])
                    e["stdout_u"] = rng.choice([0.0, round(rng.random(), 3), round(rng.random(), 3), 0.99])
                elif name == "thread":
                    e[name] = rng.randrange(1, 256)
                elif name == "recycle":
                    e[name] = rng.randint(1, 3)
                elif name == "evict":
                    if rng.random() < (0.6 if method in ref.LEJA else 0.25):
                        e[name] = [rng.randrange(len(ops))]
                elif name == "cpus":
                    e[name] = rng.choice([1, 2, 64, 0])
                elif name == "errstate":
                    e[name] = rng.choice(["ignore", "warn"])
                elif name == "tnp":
                    e[name] = rng.choice(["np", "jnp", "int", "np0"])
                elif name == "dtnp":
                    e[name] = rng.choice(["np", "jnp"])
                elif name == "work":
                    if not dfx and method != "user":
                        e[name] = sorted(rng.sample(range(len(ops)), min(2, len(ops))))
                        e["work_method"] = rng.choice(ref.RB[:3] + ["rk4", method, method])
                else:
                    e[name] = 1
            envs.append(e)
        return dict(method=method, model=m, opts=opts, t0=gen.gen_t0(rng), ops=ops, envs=envs, sched=gen.gen_sched(rng, method == "pexprb4"))

    @staticmethod
    def run(spec):
        method = spec["method"]
        with world.SimRun(spec.get("sched")) as run:
            np.random.seed(1)
            random.seed(1)
            plain = Client(spec, run, {})
            base = plain.all()
            checks, sig, kinds, hit = 0, [], set(), 0
            for env in spec["envs"]:
                if "recycle" in env:
                    # earlier systems of the same kind, used and dropped: their memory is there to be reused
                    for q in range(env["recycle"]):
                        s2 = dict(spec, model=dict(spec["model"]), ops=spec["ops"][:2])
                        for k in ("seed", "y0seed"):
                            if k in s2["model"]:
                                s2["model"][k] = (s2["model"][k] + 1 + q) % (1 << 20)
                        Client(s2, run, {}).all()
                        del s2
                    gc.collect()
                real_cpus = os.cpu_count
                if "cpus" in env:
                    os.cpu_count = lambda: env["cpus"] or None
                try:
                    c = Client(spec, run, env, plain.nw)
                    got = c.all()
                finally:
                    os.cpu_count = real_cpus
                    sched.CLOCK.jumps = []
                hit += c.hit
                kinds |= set(k for k in env if k in ENVS)
                for j, (a, b) in enumerate(zip(base, got)):
                    checks += 1
                    if a != b:
                        raise Violation("not-reproducible", "%s: operation %d under %s: %s instead of %s" % (method, j + 1, sorted(k for k in env), short(b), short(a)))
                if len(base) != len(got):
                    raise Violation("not-reproducible", "%s under %s: %d operations instead of %d" % (method, sorted(env), len(got), len(base)))
            fin = [o for o in base if not isinstance(o[1], str)]
            d = run.stats()
            for k in kinds:
                d["fired"]["env:" + k] = d["fired"].get("env:" + k, 0) + 1
            if hit:
                d["fired"]["output-error"] = d["fired"].get("output-error", 0) + hit
            d.update(checks=checks, vt=0.0, nontrivial=len(kinds) > 0 and len(fin) > 0, nfail=hit,
                     sig=world.digest(method, spec["model"], spec["opts"], spec["ops"], spec["envs"], d["trace"]))
            return d
