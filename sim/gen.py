"""Generators shared by the property modules (every choice from the run's own PRNG)."""
import math
from . import ref, seams


def logu(rng, a, b):
    return round(math.exp(rng.uniform(math.log(a), math.log(b))), 6)


NS = (2, 3, 5)


def gen_model(rng, method, n=None, shipped=0.15, jac=None, force=None, eager=False):
    """a model spec the method is documented to handle"""
    n = n or rng.choice(NS)
    if eager:
        n = min(n, 3)
    linear_only = method == "exp_pfd"
    if not linear_only and rng.random() < shipped and not eager:
        m = rng.choice(["lv", "lvna", "bateman", "bateman", "sem", "semna", "nonlin"])
        if method in ("exprb2_pfd",):
            m = "bateman"
        if m in ("sem", "semna", "nonlin") and method in ref.LEJA:
            m = "lvna"
        if m in ("sem", "semna"):
            return dict(model=m, p=rng.choice([1, 2]), y0seed=rng.randrange(1 << 20))
        if m == "nonlin":
            return dict(model=m, n_phi=rng.choice([0.0, 1e8]), y0seed=rng.randrange(1 << 20))
        if m == "bateman":
            return dict(model="bateman", n=n, seed=rng.randrange(1 << 20), open=rng.random() < 0.5)
        return dict(model=m, y0seed=rng.randrange(1 << 20))
    if linear_only or method == "exprb2_pfd" or method == "epi2_leja_re":
        kind = rng.choice(["symneg", "chain", "symneg"])
    elif method in ref.LEJA:
        kind = rng.choice(["symneg", "chain", "stable", "block"])
    else:
        kind = rng.choice(["stable", "rot", "symneg", "chain", "block", "closed"])
    s = dict(model="quad", n=n, seed=rng.randrange(1 << 20), kind=kind, stiff=rng.choice([0.3, 1.0, 1.0, 3.0]))
    if linear_only:
        return s
    s["nl"] = rng.choice([0.0, 0.2, 0.2, 0.4]) if method != "exprb2_pfd" else rng.choice([0.0, 0.05])
    if kind in ("chain", "closed") and s["nl"]:
        s["nl"] = 0.1
    s["force"] = force if force is not None else rng.choice([0.0, 0.0, 0.5, 1.0, 1.0])
    if s["force"] and rng.random() < 0.3:
        s["force1"] = 1
    s["w"] = rng.choice([0.7, 1.3, 3.0])
    s["const"] = rng.choice([0.0, 0.3])
    js = ["custom", "custom", "ad"]
    if method not in ("exprb2_dense", "exprb2_pfd", "exp_pfd"):
        js.append("fd")
    js.append("custom_fd")
    s["jac"] = jac or rng.choice(js)
    if method not in ref.LEJA + ref.DIFFRAX and s["jac"] != "fd" and not eager and rng.random() < 0.2:
        s["unit"] = rng.choice([1e-20, 1e-14, 1e-5, 1e6])
    if method in ref.SPLIT:
        s["lmode"] = rng.choice(["A", "A", "diag", "zero", "near"])
        if rng.random() < 0.3:
            s["ldep"] = True
    return s


def gen_opts(rng, method, n, plain=0.55):
    o = {}
    if method in ref.KRYLOV and rng.random() > plain:
        c = rng.random()
        if c < 0.5:
            o["max_krylov_dim"] = rng.choice([2, 3, 6])
        if c > 0.3:
            o["iom"] = rng.choice([1, 2])
    if method in ref.RB and rng.random() > plain:
        o["tol_fdt"] = rng.choice([-1.0, 0.0, 1e-8, 0.3])
    if method in ref.LEJA:
        if rng.random() < 0.3:
            o["leja_tol"] = 1e-13
        if rng.random() < 0.2:
            o["dd_method"] = "taylor"
    if method in ("exprb2_pfd", "exp_pfd") and rng.random() < 0.3:
        o["pfd_method"] = "cram_14"
    return o


def gen_dt(rng, method, prev=None):
    if prev is not None:
        c = rng.random()
        if c < 0.35:
            return prev
        if c < 0.45:
            return prev * 2.0
        if c < 0.55:
            return prev / 2.0
        if c < 0.62:
            return prev * (1.0 + rng.choice([-1, 1]) * 10.0 ** rng.randint(-9, -3))
    dt = logu(rng, 0.01, 0.4)
    return dt


def gen_t0(rng):
    return rng.choice([0.0, 0.0, 0.5, -1.25, 3.0, 17.5])


def gen_fault(rng, method, kinds=("exc", "intr")):
    """one fault to arm for a step; positions are fractions of the fault-free pass"""
    k = rng.choice(kinds)
    if k == "exc":
        return dict(k="exc", u=round(rng.random(), 4), cls=rng.choice(seams.SEAM_EXC))
    if k == "intr":
        return dict(k="intr", u=round(rng.random(), 4), cls=rng.choice(seams.LINE_EXC))
    if k == "intr_block":
        return dict(k="intr_block", at=rng.randint(1, 3))
    if k == "thr":
        return dict(k="thr", n=1)
    if k == "poison":
        return dict(k="poison", u=round(rng.random(), 4), val=rng.choice(["nan", "nan", "inf", "-inf"]),
                    comp=rng.choice([-1, -1, 0, 1, 2, 3, 4]))
    raise KeyError(k)


def gen_sched(rng, threads=True):
    if not threads:
        return None
    return dict(seed=rng.randrange(1 << 30), p=rng.choice([0.02, 0.1, 0.3, 0.6]), strategy=rng.choice(["random", "random", "pct"]))


def late(rng, s, dt):
    """sometimes the forcing (and with it the time dependence) is switched on or off during the first steps"""
    m = s["model"]
    if m.get("model") == "quad" and rng.random() < 0.12:
        m["plain"] = 1
    if m.get("model") == "quad" and m.get("force") and rng.random() < 0.25:
        m["gate"] = [round(s["t0"] + abs(dt) * rng.choice([0.37, 1.37, 2.37]), 9), rng.choice([1, 1, -1])]
    return s
