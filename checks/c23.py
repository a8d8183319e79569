"""Continuous-time decrease certificates for piecewise-affine systems."""
from checks import c20, c22
from lib import lyap, nets, systems
from lib.core import R, RV
from neural_network_lyapunov import continuous_time_lyapunov as ct
from neural_network_lyapunov import mip_utils

T, M = nets.t, mip_utils.PropagateBoundsMethod


def case(rng):
    o = lyap.auto_hybrid(rng)
    made = (o, o.real, {"sys": o.spec, "loop": False, "ctl": systems.NOCTL},
            None)
    return lyap.case(rng, plain=True, made=made,
                     cls=ct.LyapunovContinuousTimeHybridSystem)


def one(rng, c):
    ev = []
    eps, pts, g, kw = c22.start(rng, c)
    a = (c.eq, c.lam, eps, c22.LOWER)
    ret = c.real.lyapunov_derivative_as_milp2(*a, **kw)
    c22.program(rng, c, ev, ret, pts, g, key="-pieces")
    ws = None
    if rng.random() < .4:
        ws = kw["x_warmstart"] = T(rng.choice(pts))
    ret = c.real.lyapunov_derivative_as_milp(*a, **kw)
    if ws is not None:
        ev.append(c20.warm(c, c.net, c.L["net"], ws, ret.beta))
    c22.program(rng, c, ev, ret, pts, g)
    for p in pts[-6:]:
        ds = c.real.lyapunov_derivative(T(p), c.eq, c.lam, eps, c.R)
        ev.append(dict(c.base, op="flows", x=RV(p), tol=R(0.),
                       ds=[R(d.reshape(-1)[0]) for d in ds]))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 420)):
        c = case(rng)
        ev += lyap.aged(rng, c, lambda: one(rng, c), free=True)
    ck.stateless("Lyap", ev)
