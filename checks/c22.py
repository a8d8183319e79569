"""Continuous-time decrease certificates for network systems."""
from checks import c20, c21
from lib import lyap, nets, systems
from lib.core import R, RV
from neural_network_lyapunov import continuous_time_lyapunov as ct
from neural_network_lyapunov import lyapunov, mip_utils

T, M = nets.t, mip_utils.PropagateBoundsMethod
LOWER = lyapunov.ConvergenceEps.ExpLower


def methods(rng, c):
    """Interval bounds of the gradient need interval bounds of the flow."""
    c.method = rng.choice([M.IA, M.IA, M.LP, M.MIP])
    c.real.network_bound_propagate_method = c.method
    if c.T["loop"]:
        c.sys.forward_system.network_bound_propagate_method = M.IA \
            if c.method == M.IA else rng.choice([M.LP, M.MIP, M.IA_MIP])
    else:
        c.sys.network_bound_propagate_method = rng.choice(
            [M.IA, M.IA_MIP] if c.method == M.IA else [M.LP, M.MIP, M.IA_MIP])


def program(rng, c, ev, ret, pts, g, relaxed=False, key=""):
    base = c.base
    c.base = dict(base, relaxed=relaxed, key=base["key"] + key)
    rd = lyap.Obj(ret.milp)
    out = list(pts[0])
    j = rng.randrange(len(out))
    out[j] = rng.choice([c.o.lo[j] - .25, c.o.up[j] + .25])
    for p in pts[-6:] + ([] if relaxed else [out]):
        ev.append(lyap.at(c, "flow", rd, ret.x, p))
    if not relaxed:
        ev.append(lyap.optimum(c, "flowopt", ret.milp, ret.x, g))
    c.base = base


def start(rng, c, k=7):
    eps = rng.choice([0., .125, .25, .5, 1.])
    pts = lyap.points(rng, c, k)
    if rng.random() < .5:     # a state on a kink of the error norm
        p = list(rng.choice(pts))
        j = rng.randrange(len(p))
        p[j] = c.xs[j]
        pts.append(p)
    lo, up = c21.band(rng, c, pts) if rng.random() < .5 else (None, None)
    c.base = dict(c.base, eps=R(eps), type="lower",
                  blo=[R(lo)] if lo is not None else [],
                  bup=[R(up)] if up is not None else [])
    g = pts + c20.grid(c, 5 if c.o.nx < 3 else 2)
    return eps, pts, g, dict(R=c.R, lyapunov_lower=lo, lyapunov_upper=up)


def one(rng, c):
    ev = []
    methods(rng, c)
    eps, pts, g, kw = start(rng, c)
    a = (c.eq, c.lam, eps, LOWER)
    if rng.random() < .25:
        kw["x_warmstart"] = T(rng.choice(pts))
    ret = c.real.lyapunov_derivative_as_milp(*a, **kw)
    program(rng, c, ev, ret, pts, g)
    kw.pop("x_warmstart", None)
    if rng.random() < .25:
        ret = c.real.lyapunov_derivative_as_milp(
            *a, binary_var_type=c21.gurobi_torch_mip.BINARYRELAX, **kw)
        program(rng, c, ev, ret, pts, g, True, "-relaxed")
    for p in pts[-5:]:
        tol = rng.choice([0., 0., 0., .125])
        x = T(p)
        ds = c.real.lyapunov_derivative(x, c.eq, c.lam, eps, R=c.R,
                                        zero_tol=tol)
        ev.append(dict(c.base, op="flows", x=RV(p), tol=R(tol),
                       ds=[R(d) for d in ds.detach().reshape(-1)]))
    return ev


def case(rng, small=True):
    while True:
        if rng.random() < .5:
            o = systems.autonomous(rng, rng.choice(["pinned", "residual"]))
            if o.disc:
                continue
            made = (o, o.real, {"sys": o.spec, "loop": False,
                                "ctl": systems.NOCTL}, None)
        else:
            o = systems.flowing(rng)
            fb, net, ctl, _ = systems.controller(rng, o)
            made = (o, fb, {"sys": o.spec, "loop": True, "ctl": ctl}, net)
        if o.nx < 3 or rng.random() < .2:
            break
    return lyap.case(rng, made=made, cls=ct.LyapunovContinuousTimeSystem)


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 420)):
        c = case(rng)
        ev += lyap.aged(rng, c, lambda: one(rng, c), free=True)
    ck.stateless("Lyap", ev)
