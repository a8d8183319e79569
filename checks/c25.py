"""Regions of attraction and sublevel bands."""
import itertools

import numpy as np

from checks import c20, c21, loops
from lib import lyap, nets
from lib.core import R, RV, tick
from neural_network_lyapunov import lyapunov

T = nets.t


def border(rng, c, k):
    out = []
    for p in lyap.points(rng, c, k):
        j = rng.randrange(len(p))
        p = list(p)
        p[j] = rng.choice([c.o.lo[j], c.o.up[j]])
        out.append(p)
    return out


def on_border(rng, c):
    ev = []
    milp, x = c.real._construct_milp_for_roa_boundary(c.lam, c.R, c.eq)
    rd = lyap.Obj(milp)
    for p in border(rng, c, 4) + lyap.points(rng, c, 2):
        ev.append(lyap.at(c, "border", rd, x, p))
    ev.append(lyap.optimum(c, "borderopt", milp, x,
                           border(rng, c, 8) + c20.grid(c)))
    return ev


def roa(rng, c):
    o = c.o
    d = [rng.choice([1., 2., 6.]) for _ in range(o.nx)]
    biglo = [a - v for a, v in zip(o.lo, d)]
    bigup = [a + v for a, v in zip(o.up, d)]
    cap = rng.choice([None, None, None, float("inf"), .5, 1., 2.])
    a = rng.choice([T, np.array])
    big = (a(biglo), a(bigup))
    level = c.real.compute_region_of_attraction(
        c.lam, c.R, c.eq, cap, *big)
    args = []
    for inside in (True, False):
        milp, x, y, _, _ = c.real._construct_milp_for_roa(
            c.lam, c.R, c.eq, *big, inside)
        if lyap.solve(milp) is not None:
            args.append(lyap.exactly([min(max(v.x, p), q) for v, p, q in
                                      zip(x, o.lo, o.up)])[0])
    fin = bool(np.isfinite(level))
    return [dict(c.base, op="roa", biglo=RV(biglo), bigup=RV(bigup),
                 cap=[R(cap)] if cap is not None and np.isfinite(cap) else
                 [], fin=fin, level=tick(level) if fin else 0, args=args,
                 grid=[RV(p) for p in lyap.points(rng, c, 8) +
                       border(rng, c, 6) + c20.grid(
                           c, {1: 17, 2: 7}.get(o.nx))])]


def bands(rng, c):
    """The band rows in a program of the value alone."""
    ev = []
    m = loops.mip()
    x = loops.free(m, c.o.nx, "x")
    z, _, a, b, _ = c.real.add_lyap_relu_output_constraint(m, x)
    s, _ = c.real.add_state_error_l1_constraint(m, c.eq, x, R=c.R)
    pts = lyap.points(rng, c, 6)
    lo, up = c21.band(rng, c, pts)
    c.real.add_lyapunov_bounds_constraint(
        lo, up, m, a, b, c.lam, z, c.net(c.eq), s)
    rd = lyap.Obj(m)
    for p in pts:
        ev.append(lyap.at(c, "band", rd, x, p,
                          blo=[R(lo)] if lo is not None else [],
                          bup=[R(up)] if up is not None else []))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(50, 400)):
        c = lyap.case(rng, True, small=rng.random() < .8)
        ev += lyap.aged(rng, c, lambda: roa(rng, c) + on_border(rng, c) +
                        bands(rng, c), free=True)
    ck.stateless("Lyap", ev)
