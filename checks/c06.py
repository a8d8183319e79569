"""Piecewise-linear building blocks as mixed-integer constraints."""
import itertools

import gurobipy
import torch

from lib import nets
from lib.core import R, RV, tick
from lib.mip import Block
from neural_network_lyapunov import gurobi_torch_mip as gtm
from neural_network_lyapunov import utils

T = nets.t


class Ret:
    """Four rows A_x x + A_y y + A_b b <= rhs as a block."""

    def __init__(self, rows):
        for k in ("Aeq_input", "Aeq_slack", "Aeq_binary", "rhs_eq",
                  "Aout_input", "Aout_binary", "Cout", "input_lo",
                  "input_up", "slack_lo", "slack_up", "binary_lo",
                  "binary_up"):
            setattr(self, k, None)
        a, y, b, r = rows
        self.Ain_input, self.Ain_slack, self.Ain_binary = [
            v.reshape((-1, 1)) for v in (a, y, b)]
        self.rhs_in = r
        self.Aout_slack = T([[1.]])


def rng_range(rng, n, kind=None):
    lo, up = [], []
    for _ in range(n):
        a = rng.choice(["two", "pos", "neg", "lo0", "up0", "point", "two"])
        if kind == "two":
            a = "two"
        p, q = rng.choice([.25, .5, 1., 2.]), rng.choice([.5, .75, 1.5, 3.])
        lo_, up_ = {"two": (-p, q), "pos": (p, p + q), "neg": (-p - q, -p),
                    "lo0": (0., q), "up0": (-q, 0.),
                    "point": (q - 1., q - 1.)}[a]
        lo.append(lo_)
        up.append(up_)
    return lo, up


def args(rng, lo, up, k, out=.25):
    """Corners, zeros, ties, interior points and points outside."""
    xs = nets.points(rng, lo, up, k)
    for _ in range(k // 2):
        x = [min(max(0., a), b) if rng.random() < .5 else
             a + (b - a) * rng.randint(0, 4) / 4 for a, b in zip(lo, up)]
        xs.append(x)
    m = rng.choice(xs)
    xs.append([min(max(m[0], a), b) for a, b in zip(lo, up)])
    for _ in range(max(1, int(k * out))):
        x = list(rng.choice(xs))
        i = rng.randrange(len(x))
        x[i] = rng.choice([lo[i] - .5, up[i] + .5, lo[i] - .125,
                           up[i] + .125])
        xs.append(x)
    return xs


def par(lo, up, c=0., a=0., b=0., zero=False):
    return {"lo": RV(lo), "up": RV(up), "c": R(c), "a": R(a), "b": R(b),
            "zero": zero}


def observe(ev, kind, key, p, block, xs, nb, outs=True):
    for x in xs:
        obs = []
        for b in itertools.product([0, 1], repeat=nb):
            o = block.at(x, binary=list(b), outs=outs)
            obs.append({"b": list(b), "feas": o is not None,
                        "out": [tick(v) for v in o["out"][0]]
                        if o is not None and outs else []})
        ev.append({"op": kind, "key": key, "p": p, "x": RV(x), "nb": nb,
                   "obs": obs})


def run(ck):
    ck.model("MC_Blocks", wait=False)
    rng = ck.rng
    ev = []
    scal = ck.n(14, 90)
    for _ in range(scal):
        lo, up = rng_range(rng, 1)
        xs = args(rng, lo, up, 5)
        as_t = rng.random() < .5
        lo_, up_ = (T(lo[0]), T(up[0])) if as_t else (lo[0], up[0])
        observe(ev, "product", "product", par(lo, up),
                Block(Ret(utils.replace_binary_continuous_product(lo_, up_))),
                xs, 1)
        c = rng.choice([0., .25, .5, 1.5, 2., -.5])
        observe(ev, "gradx", "leaky-derivative-times-x", par(lo, up, c),
                Block(Ret(utils.leaky_relu_gradient_times_x(lo_, up_, c))),
                xs, 1)
        for zero in (False, True):
            sign = "zero" if lo[0] == 0 else "other"
            r = utils.absolute_value_as_mixed_integer_constraint(
                lo_, up_, zero) if zero or rng.random() < .5 else \
                utils.absolute_value_as_mixed_integer_constraint(lo_, up_)
            bl = Block(r)
            observe(ev, "abs", "abs" + ("-zero-binary" if zero else ""),
                    par(lo, up, zero=zero), bl, xs, bl.nb)
        lo, up = rng_range(rng, 1, "two")
        xs = args(rng, lo, up, 5)
        lo_, up_ = (T(lo[0]), T(up[0])) if as_t else (lo[0], up[0])
        observe(ev, "relu", "relu", par(lo, up, 0.),
                Block(Ret(utils.replace_relu_with_mixed_integer_constraint(
                    lo_, up_))), xs, 1)
        for c in (rng.choice([0., .25, .75]), rng.choice([1.5, 2., -.25])):
            observe(ev, "relu", "leaky-relu", par(lo, up, c), Block(Ret(
                utils.replace_leaky_relu_mixed_integer_constraint(
                    c, lo_, up_))), xs, 1)
    # every sign pattern of the absolute value's range
    for lo, up in ((-1., 2.), (0., 2.), (1., 2.), (-2., 0.), (-2., -1.),
                   (0., 0.), (1., 1.), (-1., -1.)):
        for zero in (False, True):
            bl = Block(utils.absolute_value_as_mixed_integer_constraint(
                T(lo), T(up), zero))
            observe(ev, "abs", "abs" + ("-zero-binary" if zero else ""),
                    par([lo], [up], zero=zero), bl,
                    args(rng, [lo], [up], 4), bl.nb)
    for _ in range(ck.n(16, 100)):
        n = rng.randint(1, 4)
        lo, up = rng_range(rng, n)
        if rng.random() < .4:   # one entry certainly not the maximum
            lo[0], up[0] = min(lo) - 2., min(lo) - 1.
        bl = Block(utils.max_as_mixed_integer_constraint(T(lo), T(up)))
        observe(ev, "max", "max", par(lo, up), bl,
                args(rng, lo, up, 5, out=0), bl.nb)
        n = rng.randint(1, 3)
        lo, up = rng_range(rng, n)
        bl = Block(utils.box_boundary(T(lo), T(up)))
        xs = args(rng, lo, up, 5)
        observe(ev, "boundary", "box-boundary", par(lo, up), bl, xs, bl.nb,
                outs=False)
    for _ in range(ck.n(36, 240)):
        saturation(ck, ev)
    ck.stateless("Blocks", ev)


def saturation(ck, ev):
    rng = ck.rng
    a = nets.dy(rng, 1., 2)
    b = a + rng.choice([.5, 1., 2.])
    g = [a - 1.5, a - 1., a - .5, a, a + .25, (a + b) / 2, b - .25, b, b + .5,
         b + 1., b + 2.]
    lo, up = sorted(rng.sample(g, 2))
    kind = rng.choice([gurobipy.GRB.BINARY] * 4 +
                      [gurobipy.GRB.CONTINUOUS, gtm.BINARYRELAX])
    mip = gtm.GurobiTorchMILP(nets.F64)
    inf = gurobipy.GRB.INFINITY
    x = mip.addVars(1, lb=-inf)[0]
    y = mip.addVars(1, lb=-inf)[0]
    if rng.random() < .5:
        lims = [a, b, lo, up]
    else:
        lims = [T(v) for v in (a, b, lo, up)]
    beta = utils.add_saturation_as_mixed_integer_constraint(
        mip, x, y, *lims, kind)
    m = mip.gurobi_model
    m.setParam("OutputFlag", False)
    p = par([lo], [up], 0., a, b)
    xs = {lo, up, a, b, (lo + up) / 2, (a + lo) / 2, (b + up) / 2}
    xs = [v for v in xs if lo <= v <= up]
    if kind == gurobipy.GRB.BINARY:
        xs += [lo - .5, up + .5]

    def ends():
        out = []
        for s in (gurobipy.GRB.MINIMIZE, gurobipy.GRB.MAXIMIZE):
            m.setObjective(gurobipy.LinExpr([1.], [y]), sense=s)
            m.optimize()
            if m.status == gurobipy.GRB.Status.INFEASIBLE:
                return None
            out.append(tick(m.ObjVal) if m.status ==
                       gurobipy.GRB.Status.OPTIMAL else
                       (-10**9 if s == gurobipy.GRB.MINIMIZE else 10**9))
        return out

    for v in xs:
        x.lb = x.ub = v
        if kind != gurobipy.GRB.BINARY:
            o = ends()
            ev.append({"op": "relaxed", "key": "saturation-relaxed", "p": p,
                       "x": RV([v]), "nb": len(beta), "feas": o is not None,
                       "out": o or []})
            continue
        obs = []
        for bs in itertools.product([0, 1], repeat=len(beta)):
            for q, w in zip(beta, bs):
                q.lb = q.ub = w
            o = ends()
            obs.append({"b": list(bs), "feas": o is not None, "out": o or []})
        ev.append({"op": "sat", "key": "saturation", "p": p, "x": RV([v]),
                   "nb": len(beta), "obs": obs})
