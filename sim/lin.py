"""C13: linearisations are fixed snapshots."""
import numpy as np
import jax.numpy as jnp
from . import gen, ref, models, seams, sched, ship, world
from .world import Violation, bits, call, make_integrator, err

JACS = ["custom", "ad", "fd", "custom_fd"]


class C13:
    ID = "C13"
    METHODS = JACS + ["shipped", "default"]

    @staticmethod
    def gen(i, rng, method, tier):
        ns = rng.choice([1, 2, 2, 3])
        sy = []
        for k in range(ns):
            mk = method if k == 0 or rng.random() < 0.5 else rng.choice(C13.METHODS)
            if mk == "shipped":
                c = rng.choice(["lv", "lvna", "bateman", "sem", "semna", "nonlin", "transport"])
                m = ship.transport_spec(rng, "exprb2") if c == "transport" else \
                    dict(model=c, n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), y0seed=rng.randrange(1 << 20)) if c == "bateman" else \
                    dict(model=c, p=1, y0seed=rng.randrange(1 << 20)) if c in ("sem", "semna") else dict(model=c, y0seed=rng.randrange(1 << 20))
                if c == "nonlin":
                    m["n_phi"] = rng.choice([0.0, 1e8])
            elif mk == "default":
                m = dict(model="elem", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20))
            else:
                m = dict(model="quad", n=rng.choice(gen.NS), seed=rng.randrange(1 << 20), kind=rng.choice(["stable", "rot", "symneg"]), stiff=1.0,
                         nl=rng.choice([0.0, 0.3, 1.0]), force=rng.choice([0.0, 1.0]), const=0.3, jac=mk, data=1.0, dataj=rng.choice([0.0, 1.0]), lmode="near",
                         ldep=rng.random() < 0.5)
            sy.append(m)
        ops, nl = [], 0
        for _ in range(rng.randint(8, 18)):
            c = rng.random()
            if nl == 0 or c < 0.2:
                o = dict(op="lin", s=rng.randrange(ns), t=rng.choice([0.0, 0.7, -3.0, round(rng.uniform(-20, 20), 3)]), y=rng.randrange(1 << 20),
                         ys=rng.choice([1.0, 1.0, 1.0, 1e-3, 30.0, 0.0]))
                if rng.random() < 0.4:
                    o["x"] = round(rng.uniform(-2, 2), 3)
                if sy[o["s"]]["model"] == "quad":
                    c = rng.random()
                    if c < 0.15:       # scaled and shifted difference operator, user supplied difference length
                        o["fdo"] = [rng.choice([1.0, 2.0, -0.5]), rng.choice([0.0, 1.0, -3.0]), rng.choice([0.5e-8, 1e-7])]
                    elif c < 0.25:     # the NumPy facing wrapper
                        o["np"] = 1
                if rng.random() < 0.1:
                    o["faults"] = [gen.gen_fault(rng, method, ("exc", "intr"))]
                nl += 1
            elif c < 0.85:
                o = dict(op="q", j=rng.randrange(nl), what=rng.choice(["mv", "mv", "mv", "dense", "fdt", "f", "l", "ld", "npmv", "rhs", "fm"]), v=rng.randrange(1 << 20),
                         vs=rng.choice([1.0, 1.0, 0.0, 1e-3]))
                if rng.random() < 0.12:
                    o["faults"] = [gen.gen_fault(rng, method, ("exc", "intr", "poison"))]
            else:
                o = dict(op="step", s=rng.randrange(ns), dt=gen.gen_dt(rng, "exprb2"), m=rng.choice(["exprb2", "epi2", "exprb3"]), acc=1)
            ops.append(o)
        k = rng.randint(1, 3)
        return dict(method=method, systems=sy, ops=ops, threads=rng.random() < 0.35, k=k, sched=gen.gen_sched(rng))

    @staticmethod
    def run(spec):
        lines = "'intr'" in str(spec) or spec["threads"]
        with world.SimRun(spec["sched"] if spec["threads"] else None, lines=lines, line_yield=spec["threads"]) as run:
            S = [models.build(m) for m in spec["systems"]]
            cnt = dict(checks=0, nf=0, lins=0)
            recs = {}                  # lin index -> record
            memo = {}                  # (lin, what, vector) -> bits of the first answer
            integ = {}
            sig = []
            idx = [0]

            def do(op, role, num):
                what = op["op"]
                if what == "lin":
                    k = num
                    sysm, M = S[op["s"]]
                    y = models.y0_of(dict(spec["systems"][op["s"]], y0seed=op["y"], seed=spec["systems"][op["s"]].get("seed", 0))) * op["ys"]
                    y = y if spec["systems"][op["s"]]["model"] not in ("quad",) else np.random.RandomState(op["y"] & 0x7FFFFFFF).uniform(-1, 1, len(y)) * op["ys"]
                    yj = jnp.asarray(y)
                    kw = {"frhs_kwargs": {"x": op["x"]}} if "x" in op and spec["systems"][op["s"]]["model"] == "quad" else {}
                    front = models.OdeSysNp(sysm) if op.get("np") else sysm
                    yq = y.reshape((-1, 1)) if op.get("np") else yj

                    def make():
                        if "fdo" in op:
                            a, b, h = op["fdo"]
                            return models.FdJacLinOp(op["t"], yj, sysm.frhs, scale=a, gamma=b, eps=h, **({"frhs_kwargs": kw} if kw else {}))
                        return front.fjac(op["t"], yq, **kw)
                    fl = resolve(op, make)
                    J, e, c = call(role, make, fl)
                    if c.fired:
                        cnt["nf"] += 1
                        if e is None:
                            raise Violation("failure-swallowed", "fjac: injected %s but it returned" % (c.fired,))
                        J, e, c = call(role, make)
                    if e is not None:
                        raise Violation("unexpected-exception", "fjac raised %s: %s" % (type(e).__name__, str(e)[:120]))
                    cnt["lins"] += 1
                    recs[k] = dict(op=op, J=J, front=front, yq=yq, kw=kw, t=op["t"], y=y, yj=yj, yb=bits(yj), M=M, sysm=sysm, x=op.get("x", 0.0) if kw else 0.0, m=spec["systems"][op["s"]])
                elif what == "q":
                    live = sorted(recs)
                    if not live:
                        return
                    key = live[op["j"] % len(live)]
                    query(recs[key], key, op, role)
                else:
                    sysm, M = S[op["s"]]
                    key = (role, op["s"], op["m"])
                    if key not in integ:
                        integ[key] = make_integrator(sysm, op["m"], 0.0, models.y0_of(spec["systems"][op["s"]]), {})
                    v, e, c = call(role, lambda: integ[key].step(op["dt"]))
                    if e is None and np.all(np.isfinite(np.asarray(v.y))):
                        integ[key].accept_step(v)

            def resolve(op, fn):
                fl = []
                for f in op.get("faults", []):
                    f = dict(f)
                    if "u" in f:
                        run.dec.quiet = True
                        _, _, c0 = call("probe", fn) if False else call(run.sim.main.role if not spec["threads"] else cur_role(run), fn)
                        run.dec.quiet = False
                        tot = c0.lines if f["k"] == "intr" else c0.hits
                        if not tot:
                            continue
                        f["at"] = 1 + int(f["u"] * tot)
                    fl.append(f)
                return fl

            def query(r, key, op, role):
                J, M, t, y = r["J"], r["M"], r["t"], r["y"]
                n = len(y)
                jac = r["m"].get("jac", "ad") if r["m"]["model"] == "quad" else "ad"
                fdo = r["op"].get("fdo")
                jac = "fd" if fdo else jac
                v = np.random.RandomState(op["v"] & 0x7FFFFFFF).uniform(-1, 1, n) * op["vs"]
                vj = jnp.asarray(v)
                what = op["what"]
                if what == "dense" and jac == "fd":
                    what = "mv"
                if what in ("l", "ld") and not hasattr(r["sysm"], "_fl"):
                    what = "fdt"
                fn = {"mv": lambda: J(vj), "dense": lambda: J.dense(), "fdt": lambda: J._fdt(), "f": lambda: J._frhs_cached(),
                      "l": lambda: r["sysm"].fl(t, r["yj"])(vj), "npmv": lambda: J.matvec_npcompat(v), "ld": lambda: r["sysm"].fl(t, r["yj"]).dense(),
                      "rhs": lambda: r["front"].frhs(t, r["yq"], **r["kw"]), "fm": lambda: r["sysm"].fm(t, r["yj"])(vj)}[what]
                fl = resolve(op, fn)
                a, e, c = call(role, fn, fl)
                if c.fired:
                    cnt["nf"] += 1
                    hard = any(not f[0].startswith("poison") for f in c.fired)
                    if hard and e is None:
                        raise Violation("failure-swallowed", "%s: injected %s but it returned" % (what, c.fired))
                    a, e, c = call(role, fn)
                if e is not None:
                    raise Violation("unexpected-exception", "%s of a %s linearisation raised %s: %s" % (what, jac, type(e).__name__, str(e)[:140]))
                a = np.asarray(a)
                cnt["checks"] += 2
                sig.append((what, jac))
                if bits(r["yj"]) != r["yb"]:
                    raise Violation("caller-array-modified", "linearisation point was modified")
                vec = what in ("mv", "npmv", "l", "fm")
                mk = (key, "mv" if what == "npmv" else what, op["v"] if vec else 0, op["vs"] if vec else 0)
                b = bits(a)
                if memo.setdefault(mk, b) != b:
                    raise Violation("not-repeatable", "%s of a %s linearisation gave a different answer when asked again" % (what, jac))
                # what the mirror says about this point
                M.x = float(r["x"])
                try:
                    Jm, f, ft = M.J(t, y), M.f(t, y), M.ft(t, y)
                    L = M.l(t, y) if what in ("l", "ld") else None
                finally:
                    M.x = 0.0
                fsc = max(np.abs(f).max(), np.abs(y).max(), 1e-12)
                # size of the terms that make up f: rounding of a difference quotient scales with it
                big = fsc + np.abs(Jm).sum(1).max() * np.abs(y).max()
                if what in ("mv", "npmv"):
                    exp, tol = Jm @ v, 1e-10 * (np.abs(Jm).max() * n * max(np.abs(v).max(), 1e-300) + 1e-300)
                    if fdo:
                        exp = fdo[0] * exp + fdo[1] * v
                        tol += 1e-13 * abs(fdo[1]) * np.abs(v).max()
                    if jac == "fd":
                        eps = (fdo[2] if fdo else 0.5e-8) * (np.abs(y).sum() or 1.0)
                        tol = 20 * 2.3e-16 * big / eps + 20 * eps * (1 + np.abs(Jm).max()) * max(np.abs(v).max(), 1e-3) ** 2 + tol
                elif what == "dense":
                    exp, tol = Jm, 1e-10 * max(np.abs(Jm).max(), 1e-300)
                elif what == "fdt":
                    exp, tol = ft, 1e-10 * max(np.abs(ft).max(), fsc, 1e-300)
                    if jac in ("fd", "custom_fd"):
                        h = fdo[2] if fdo else 0.5e-8
                        tol = 20 * 2.3e-16 * big / h + 1e-6 * (np.abs(ft).max() + 1) * (h / 0.5e-8) + 2.3e-16 * abs(t) / h * (np.abs(ft).max() + 1)
                elif what in ("f", "rhs"):
                    exp, tol = f, 1e-10 * big
                elif what == "fm":
                    exp, tol = v, 0.0
                    if r["m"]["model"] in ("sem", "semna"):          # the mass matrix of the transport system is its lumped mass
                        exp, tol = M.Ml * v, 1e-13 * np.abs(v).max()
                elif what == "ld":
                    exp, tol = L, 1e-10 * (np.abs(L).max() + 1e-300)
                else:
                    exp, tol = L @ v, 1e-10 * (np.abs(L).max() * n * max(np.abs(v).max(), 1e-300) + 1e-300)
                if a.shape != exp.shape or not np.abs(a - exp).max(initial=0.0) <= tol:
                    raise Violation("inconsistent-linearisation", "%s of the %s linearisation (%s) at t=%g |y|=%.2g x=%g is off by %.2e (allowed %.1e)" % (
                        what, jac, r["m"]["model"], t, np.abs(y).max(), r["x"], np.abs(a - exp).max() if a.shape == exp.shape else np.nan, tol))

            if not spec["threads"]:
                for num, op in enumerate(spec["ops"]):
                    do(op, "main", num)
            else:
                # linearise first, then query the shared operators from several threads
                for num, op in enumerate(spec["ops"]):
                    if op["op"] == "lin":
                        do(dict(op, faults=[]), "main", num)
                rest = [(n, o) for n, o in enumerate(spec["ops"]) if o["op"] != "lin"]
                rest = [(n, dict(o, faults=[f for f in o.get("faults", []) if f["k"] != "poison"])) for n, o in rest]
                errs, ths = [], []
                for j in range(1 + spec["k"]):
                    def body(j=j):
                        try:
                            for num, op in rest[j::1 + spec["k"]] + (rest if j == 0 else []):
                                do(dict(op, faults=[]) if j else op, "c%d" % j, num)
                        except sched.SimKilled:
                            raise
                        except BaseException as x:
                            errs.append(x)
                    th = sched.SimThread(target=body, name="client%d" % j)
                    run.sim.main.role = "c%d" % j
                    th.start()
                    ths.append(th)
                run.sim.main.role = "main"
                for th in ths:
                    th.join()
                for x in errs:
                    raise x
            d = run.stats()
            d.update(checks=cnt["checks"], vt=0.0, nontrivial=cnt["checks"] > 2 and cnt["lins"] > 0, nfail=cnt["nf"], sig=world.digest(spec["systems"], spec["ops"], d["trace"]))
            return d


def cur_role(run):
    import _thread
    t = run.sim.by_ident.get(_thread.get_ident())
    return t.role if t is not None else "main"
