"""Barrier candidates and their certificates."""
import torch

from checks import c20, loops
from lib import lyap, nets, systems
from lib.core import R, RV
from lib.solver import Read
from neural_network_lyapunov import barrier, gurobi_torch_mip, utils

T, GRB = nets.t, loops.GRB
MIC = gurobi_torch_mip.MixedIntegerConstraintsReturn


def box_rows(lo, up):
    n = len(lo)
    P = [[float((j == k) * s) for j in range(n)] for s in (-1, 1)
         for k in range(n)]
    return P, [-v for v in lo] + list(up)


def polys(ps):
    return [{"P": RV(P), "q": RV(q)} for P, q in ps]


def faces(lo, up):
    out = []
    for k in range(len(lo)):
        for v in (lo[k], up[k]):
            a, b = list(lo), list(up)
            a[k] = b[k] = v
            out.append(box_rows(a, b))
    return out


def inner(rng, o):
    """A box in, across, or beyond the state box."""
    a, b = list(o.lo), list(o.up)
    for k in range(o.nx):
        w = (b[k] - a[k]) / 4
        i = rng.randint(0, 3)
        j = rng.randint(i, 4)
        a[k], b[k] = a[k] + w * i, a[k] + w * j
    if rng.random() < .15:
        k = rng.randrange(o.nx)
        b[k] += .5
    if rng.random() < .06:
        k = rng.randrange(o.nx)
        a[k], b[k] = o.up[k] + .5, o.up[k] + 1.
    return a, b


def region(rng, o):
    """(encoded region, polytopes, name)."""
    ret = MIC()
    u = rng.random()
    n = o.nx
    if u < .3:
        a, b = inner(rng, o)
        P, q = box_rows(a, b)
        if n > 1 and rng.random() < .4:
            r = [rng.choice([-1., 1.]) for _ in range(n)]
            P, q = P + [r], q + [sum(
                s * (x + y) / 2 for s, x, y in zip(r, a, b)) + .25]
        ret.Ain_input, ret.rhs_in = T(P), T(q)
        return ret, [(P, q)], "box"
    if u < .55:
        lo, up = (o.lo, o.up) if rng.random() < .7 else inner(rng, o)
        return utils.box_boundary(T(lo), T(up)), faces(lo, up), "border"
    if u < .8:
        # one of several boxes, by indicator
        bs = [inner(rng, o) for _ in range(rng.randint(2, 3))]
        BIG = 64.
        P, B, q, ps = [], [], [], []
        for k, (a, b) in enumerate(bs):
            p_, q_ = box_rows(a, b)
            ps.append((p_, q_))
            for r, v in zip(p_, q_):
                P.append(r)
                B.append([BIG * (j == k) for j in range(len(bs))])
                q.append(v + BIG)
        ret.Ain_input, ret.Ain_binary, ret.rhs_in = T(P), T(B), T(q)
        ret.Aeq_binary, ret.rhs_eq = T([[1.] * len(bs)]), T([1.])
        return ret, ps, "union"
    # a diamond around a state, with slacks
    c = systems.inside(rng, o.lo, o.up)
    rad = rng.choice([.25, .5, 1.])
    eye = torch.eye(n, dtype=nets.F64)
    ret.Ain_input = torch.cat((eye, -eye, torch.zeros(1, n)))
    ret.Ain_slack = torch.cat((-eye, -eye, torch.ones(1, n)))
    ret.rhs_in = torch.cat((T(c), -T(c), T([rad])))
    P, q = [], []
    for m in range(2 ** n):
        s = [1. if m >> k & 1 else -1. for k in range(n)]
        P.append(s)
        q.append(rad + sum(a * b for a, b in zip(s, c)))
    return ret, [(P, q)], "diamond"


def case(rng, small=True):
    made = lyap.system(rng, True, small)
    c = lyap.case(rng, made=made)
    o = c.o
    if rng.random() < .3:
        c.xs = systems.inside(rng, o.lo, o.up)
    c.real = barrier.DiscreteTimeBarrier(c.sys, c.net)
    c.real.network_bound_propagate_method = c.method
    c.c = rng.choice([.125, .25, .5, 1., 2.])
    c.B = {"net": nets.spec(c.net), "xs": RV(c.xs), "c": R(c.c)}
    c.base = {"key": c.base["key"], "B": c.B, "T": c.T, "lo": RV(o.lo),
              "up": RV(o.up)}
    c.eq = T(c.xs)
    return c


def one(rng, c):
    ev = []
    o, b0 = c.o, c.base
    pts = lyap.points(rng, c, 7)
    far = [[v + rng.choice([-3., 0., 2.]) for v in p] for p in pts[:3]]
    for p in pts + far:
        v = c.real.value(T(p), c.eq, c.c).detach()
        ev.append(dict(b0, op="value", x=RV(p), v=R(v.reshape(-1)[0])))
    for k in (1, 2, len(pts)):
        v = c.real.value(T(pts[-k:]), c.eq, c.c).detach()
        ev.append(dict(b0, op="values", xs=[RV(p) for p in pts[-k:]],
                       vs=RV(v.reshape(-1))))
    grid = pts + c20.grid(c, 5 if o.nx < 3 else 2)
    for _ in range(2):
        reg, ps, name = region(rng, o)
        safe = rng.random() < .5
        milp, x = c.real.value_as_milp(c.eq, c.c, reg, safe)
        c.base = dict(b0, key=name, safe=safe, region=polys(ps))
        rd = lyap.Obj(milp)
        out = list(pts[0])
        j = rng.randrange(len(out))
        out[j] = rng.choice([o.lo[j] - .25, o.up[j] + .25])
        at = [list(p) for p in pts[-5:]]
        for P, q in rng.sample(ps, min(2, len(ps))):    # states of the region
            for p in grid:
                if all(sum(r * v for r, v in zip(row, p)) <= t
                       for row, t in zip(P, q)):
                    at.append(p)
                    break
        for p in at + [out]:
            ev.append(lyap.at(c, "region", rd, x, p))
        ev.append(lyap.optimum(c, "regopt", milp, x, grid))
    eps = rng.choice([0., .125, .25, .5, 1., 1.5])
    for vt in [None] + [loops.RELAX] * (rng.random() < .25):
        c.base = dict(b0, eps=R(eps), relaxed=vt is not None,
                      key=b0["key"] + ("-relaxed" if vt else ""))
        kw = {} if vt is None else {"binary_var_type": vt}
        ret = c.real.derivative_as_milp(c.eq, c.c, eps, **kw)
        rd = lyap.Obj(ret.milp)
        out = list(pts[0])
        j = rng.randrange(len(out))
        out[j] = rng.choice([o.lo[j] - .25, o.up[j] + .25])
        for p in pts[-6:] + ([out] if vt is None else []):
            ev.append(lyap.at(c, "dec", rd, ret.x, p))
        if vt is None:
            ev.append(lyap.optimum(c, "decopt", ret.milp, ret.x, grid))
    b = dict(b0, eps=R(eps))
    for p in pts[-4:]:
        if o.kind == "hybrid" and not c.T["loop"] and \
                c.sys.mode(T(p)) is None:
            continue
        d = c.real.derivative(T(p), c.eq, c.c, eps) if o.kind != "hybrid" \
            or c.T["loop"] else None
        if d is not None:
            ev.append(dict(b, op="point", x=RV(p),
                           d=R(d.detach().reshape(-1)[0])))
    # the encoded border by itself
    lo, up = (o.lo, o.up) if rng.random() < .5 else inner(rng, o)
    m = loops.mip()
    x = loops.free(m, o.nx, "x")
    m.add_mixed_integer_linear_constraints(
        utils.box_boundary(T(lo), T(up)), x, None, "", "", "", "", "",
        binary_var_type=GRB.BINARY)
    rd = Read(m)
    at = [systems.inside(rng, lo, up) for _ in range(4)] + pts[:2]
    for p in [list(lo), list(up)] + at:
        ev.append({"key": "box", "op": "border", "lo": RV(lo), "up": RV(up),
                   "x": RV(p), "feas": bool(rd.fix(x, p).feasible())})
    return ev


def run(ck):
    ck.model("MC_Bar", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(48, 340)):
        c = case(rng, rng.random() < .7)
        ev += lyap.aged(rng, c, lambda: one(rng, c), .5, True)
    ck.stateless("Bar", ev)
