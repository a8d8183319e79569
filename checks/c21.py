"""Discrete-time decrease certificates."""
import torch

from checks import c20
from lib import lyap, nets
from lib.core import R, RV
from neural_network_lyapunov import gurobi_torch_mip, lyapunov

T = nets.t
EPS = lyapunov.ConvergenceEps
TYPES = {"lower": EPS.ExpLower, "upper": EPS.ExpUpper, "asymp": EPS.Asymp}


def band(rng, c, pts):
    """Optional bounds of the candidate's value."""
    def stays(p):
        y = [z.detach().tolist() for z in c.sys.possible_dx(T(p))]
        return any(all(a <= v <= b for v, a, b in zip(z, c.o.lo, c.o.up))
                   for z in y)

    inner = [p for p in pts if stays(p)]
    vs = sorted(float(c.real.lyapunov_value(T(p), c.eq, c.lam, R=c.R).detach())
                for p in (inner if len(inner) > 1 else pts))
    lo = up = None
    if vs[0] < 0 and rng.random() < .6:     # level zero separates
        return (0., None) if vs[-1] <= 0 or rng.random() < .6 else (None, 0.)
    if rng.random() < .35:
        lo = rng.choice([vs[len(vs) // 3], 0., .125])
    if rng.random() < .35:
        up = rng.choice([vs[2 * len(vs) // 3], vs[-1] / 2, 1.])
        up = round(up * 8) / 8
    if lo is not None:
        lo = round(lo * 8) / 8
        if up is not None and lo > up:
            lo, up = up, lo
    return lo, up


def clones(x):
    return [list(p) for p in x]


def one(rng, c):
    ev = []
    name = rng.choice(list(TYPES))
    eps = rng.choice([0., .125, .25, .5, 1.])
    pts = lyap.points(rng, c, 7)
    lo, up = band(rng, c, pts) if rng.random() < .75 else (None, None)
    kw = dict(R=c.R, lyapunov_lower=lo, lyapunov_upper=up)
    if rng.random() < .3:
        kw["x_warmstart"] = T(rng.choice(
            [p for p in pts if c.o.kind != "hybrid"] or [list(c.xs)]))
        if c.o.kind == "hybrid":
            kw.pop("x_warmstart")
    a = (c.eq, c.lam, eps, TYPES[name])
    base = dict(c.base, eps=R(eps), type=name, keep=False,
                blo=[R(lo)] if lo is not None else [],
                bup=[R(up)] if up is not None else [])
    c.base = base
    ret = c.real.lyapunov_derivative_as_milp(*a, **kw)
    rd = lyap.Obj(ret.milp)
    if "x_warmstart" in kw:
        x = kw["x_warmstart"]
        ev.append(c20.warm(c, c.net, c.L["net"], x, ret.beta))
        y = c.sys.step_forward(x)
        ev.append(c20.warm(c, c.net, c.L["net"], y.detach(), ret.beta_next))
        if not c.T["loop"]:
            ev.append(c20.warm(c, c.o.net, c.o.spec["net"], x, ret.gamma))
    out = list(pts[0])
    j = rng.randrange(len(out))
    out[j] = rng.choice([c.o.lo[j] - .25, c.o.up[j] + .25])
    for p in pts[-6:] + [out]:
        ev.append(lyap.at(c, "dec", rd, ret.x, p))
    feas = rd.fix([], []).feasible()
    g = pts + c20.grid(c, 5 if c.o.nx < 3 else 2)
    ev.append(lyap.optimum(c, "decopt", ret.milp, ret.x, g))
    # strengthened from a linear relaxation
    if feas and rng.random() < .5:
        r2 = c.real.strengthen_lyapunov_derivative_as_milp(
            *a, rng.choice([0, 1, 2]), **kw)
        c.base = dict(base, key=base["key"] + "-strengthened")
        rd = lyap.Obj(r2.milp)
        for p in pts[-5:]:
            ev.append(lyap.at(c, "dec", rd, r2.x, p))
        ev.append(lyap.optimum(c, "decopt", r2.milp, r2.x, g))
    # binaries tied together: the adversarial states stay
    if feas and rng.random() < .5:
        c.base = dict(base, key=base["key"] + "-tied", keep=True)
        c.real.strengthen_lyapunov_derivative_milp_binary(ret)
        rd = lyap.Obj(ret.milp)
        for p in pts[-6:]:
            ev.append(lyap.at(c, "dec", rd, ret.x, p))
        v = lyap.solve(ret.milp)
        if v is not None and v >= 0:
            ev.append(lyap.optimum(c, "decopt", ret.milp, ret.x, []))
    c.base = dict(base, eps=R(eps))
    for p in pts[:4]:
        ds = c.real.lyapunov_derivative(T(p), c.eq, c.lam, eps, R=c.R)
        ev.append(dict(c.base, op="list", x=RV(p),
                       ds=[R(d.reshape(-1)[0]) for d in ds]))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(56, 400)):
        c = lyap.case(rng, True, small=rng.random() < .7)
        ev += lyap.aged(rng, c, lambda: one(rng, c), free=True)
    ck.stateless("Lyap", ev)
