"""Random candidate Lyapunov functions on random systems."""
from fractions import Fraction
import math

import numpy as np

from lib import hybrid, nets, systems
from lib.core import R, RV, tick
from lib.solver import Read
from neural_network_lyapunov import lyapunov, mip_utils

T = nets.t
M = mip_utils.PropagateBoundsMethod
METHODS = [M.IA, M.IA, M.LP, M.MIP, M.IA_MIP]


class Case:
    """real, spec L, spec T (closed system), system object o."""


def auto_hybrid(rng):
    o = systems.Sys()
    o.kind, o.nx, o.nu = "hybrid", rng.randint(1, 2), 0
    lo, up = nets.box(rng, o.nx, 1, minw=1.)
    ms, lo, up = hybrid.modes(rng, o.nx, 0, cut=0., overlap=.3, gap=0.,
                              clip=True, lo=lo, up=up, k=rng.randint(1, 3),
                              shrink=rng.random() < .3)
    o.net, o.lo, o.up, o.ulo, o.uup = None, lo, up, [], []
    o.xs, o.us = systems.inside(rng, lo, up), []
    o.real, o.disc = hybrid.build(ms, o.nx, 0), True
    o.spec = systems.spec("hybrid", None, True, o.xs, modes=hybrid.spec(ms))
    o.ms = ms
    return o


def soften(rng, o):
    """Scale the outer layer down so that more successors stay inside."""
    if o.net is None or rng.random() < .4:
        return
    lin = [q for q in o.net if hasattr(q, "weight")]
    lin[-1].weight.data *= .5
    if lin[-1].bias is not None:
        lin[-1].bias.data *= .5
    o.spec = dict(o.spec, net=nets.spec(o.net))


def system(rng, disc=None, small=False):
    """(object, real system, closed-system spec, controller net)."""
    u = rng.random()
    while True:
        if u < .4:
            o = systems.autonomous(rng)
        elif u < .55:
            o = auto_hybrid(rng)
        elif u < .7:
            o = systems.hybrid_sys(rng, nx=1 if small else None)
        else:
            o = systems.controlled(rng, nx=2 if small and rng.random() < .5
                                   else None)
        if small and o.nx > 2:
            continue
        if disc is None or o.disc == disc and (disc or o.kind != "hybrid"):
            break
    soften(rng, o)
    if u < .55:
        return o, o.real, {"sys": o.spec, "loop": False,
                           "ctl": systems.NOCTL}, None
    fb, net, ctl, _ = systems.controller(rng, o)
    return o, fb, {"sys": o.spec, "loop": True, "ctl": ctl}, net


def transform(rng, n):
    """(tensor or None, rows)."""
    u = rng.random()
    eye = [[float(a == b) for a in range(n)] for b in range(n)]
    if u < .3:
        return None, eye
    rows = [list(r) for r in eye]
    for a in range(n):
        for b in range(a + 1, n):
            rows[a][b] = rng.choice([-1., -.5, 0., .5])
        rows[a][a] = rng.choice([1., -1., .5, 2.])
    if u > .65:
        rows += [nets.vec(rng, n, 1.) for _ in range(rng.randint(1, 2))]
        rng.shuffle(rows)
    return T(rows), rows


def case(rng, disc=True, small=False, cls=None, deep=.35, made=None,
         plain=False):
    """made: (object, system, closed system); plain: no transform."""
    c = Case()
    c.o, c.sys, c.T, c.ctlnet = made or system(rng, disc, small)
    o = c.o
    c.xs = list(o.xs)
    if rng.random() < .2 and not o.net:
        c.xs = systems.inside(rng, o.lo, o.up)
    c.R, c.rows = transform(rng, o.nx)
    if plain:
        c.rows = [[float(a == b) for a in range(o.nx)] for b in range(o.nx)]
        c.R = rng.choice([None, T(c.rows)])
    c.lam = rng.choice([0., .25, .5, .5, 1.])
    hid = [rng.randint(1, 3) for _ in range(2 if rng.random() < deep else 1)]
    c.net = nets.net(rng, [o.nx] + hid + [1],
                     slope=rng.choice([0., 0., .25, .5]),
                     bias=rng.random() < .8)
    if rng.random() < .3:
        nets.tie(rng, c.net, systems.inside(rng, o.lo, o.up))
    c.real = (cls or lyapunov.LyapunovDiscreteTimeHybridSystem)(
        c.sys, c.net)
    c.method = rng.choice(METHODS)
    c.real.network_bound_propagate_method = c.method
    if hasattr(c.sys, "controller_network_bound_propagate_method"):
        c.sys.controller_network_bound_propagate_method = rng.choice(METHODS)
    c.L = {"net": nets.spec(c.net), "xs": RV(c.xs), "lam": R(c.lam),
           "R": RV(c.rows)}
    c.base = {"key": ("loop-" if c.T["loop"] else "") + o.kind,
              "L": c.L, "T": c.T, "lo": RV(o.lo), "up": RV(o.up)}
    c.eq = T(c.xs)
    return c


def points(rng, c, k):
    """States of the box, its border and mode borders included."""
    o = c.o
    if o.kind == "hybrid" and not c.T["loop"]:
        z = hybrid.points(rng, o.ms, o.lo, o.up, k)
        z = [[min(max(v, a), b) for v, a, b in zip(p, o.lo, o.up)]
             for p in z]
    else:
        z = nets.points(rng, list(o.lo), list(o.up), k, 8)
    return z + [list(c.xs)]


def exactly(xs, den=600):
    """Solver output as rationals: exact when simple (True), else 1/16384."""
    fs = [Fraction(float(x)).limit_denominator(den) for x in xs]
    if all(abs(float(f) - float(x)) < 2e-8 for f, x in zip(fs, xs)):
        m = 1
        for f in fs:
            m = m * f.denominator // math.gcd(m, f.denominator)
        if m <= den:
            return [[f.numerator, f.denominator] for f in fs], True
    out = []
    for x in xs:
        f = Fraction(int(round(float(x) * 16384)), 16384)
        out.append([f.numerator, f.denominator])
    return out, False


class Obj(Read):
    """A program read from the solver together with its objective."""

    def __init__(self, mip):
        super().__init__(mip)
        a = getattr(mip, "gurobi_model", mip)._arrays()
        assert a["Q"] is None
        self.c, self.off = np.array(a["c"]), a["off"]

    def span(self):
        """[min, max] of the objective, or None."""
        lo = self.minimum(self.c)
        if lo[0] == "inf":
            return None
        up = self.minimum(-self.c)
        return [-1e9 if lo[0] == "unb" else lo[1] + self.off,
                1e9 if up[0] != "opt" else self.off - up[1]]


def solve(milp):
    """Optimal value and solution as the solver reports them."""
    m = getattr(milp, "gurobi_model", milp)
    m.setParam("OutputFlag", False)
    m.optimize()
    if m.status != 2:
        return None
    return m.ObjVal


def optimum(c, op, milp, x, pts, **kw):
    """The solver's optimum, where it is attained, and states to beat."""
    v = solve(milp)
    e = dict(c.base, op=op, found=v is not None, bound=0, x=[], exact=True,
             grid=[RV(p) for p in pts])
    if v is not None:
        q = [min(max(w.x, a), b) for w, a, b in zip(x, c.o.lo, c.o.up)]
        e["x"], e["exact"] = exactly(q)
        e["bound"] = tick(v)
    e.update(kw)
    return e


def at(c, op, rd, xv, x, **kw):
    """Objective range at a fixed state."""
    s = rd.fix(xv, x).span()
    e = dict(c.base, op=op, x=RV(x), feas=s is not None,
             obj=[tick(v) for v in s] if s else [])
    e.update(kw)
    return e


def aged(rng, c, f, p=.3, free=False):
    """See nets.aged."""
    return nets.aged(rng, [c.net, c.ctlnet, getattr(c.o, "net", None)], f, c,
                     p, free)
