"""Strengthening cuts of leaky-ReLU encodings."""
import gurobipy
import torch

from lib import nets
from lib.core import R, RV, snap
from neural_network_lyapunov import gurobi_torch_mip
from neural_network_lyapunov import mip_utils as mu
from neural_network_lyapunov import relu_to_optimization as rto
from neural_network_lyapunov.mip_utils import PropagateBoundsMethod as PB


def rows(r):
    if r[0] is None:
        return {"xc": [], "bc": [], "kc": []}
    return {"xc": RV(r[0]), "bc": RV(r[1]), "kc": RV(r[2])}


def run(ck):
    ck.model("MC_Cuts", wait=False)
    rng = ck.rng
    ev = []
    T = nets.t
    for rep in range(ck.n(120, 900)):
        n = rng.randint(1, 3)
        c = rng.choice([0., .25, .5])
        w = nets.vec(rng, n, 2., 2)
        b = nets.dy(rng, 1., 2)
        lo, up = nets.box(rng, n)
        u = {"c": R(c), "w": RV(w), "b": R(b), "lo": RV(lo), "up": RV(up)}
        xs = [RV(x) for x in nets.points(rng, lo, up, 10)]
        I = {i for i in range(n) if rng.random() < .5}
        a = (c, T(w), T(b), T(lo), T(up))
        x, bc, k = mu.strengthen_relu_mip_w_indices(*a, set(I))
        ev.append({"op": "indices", "key": "indices", "u": u,
                   "I": sorted(i + 1 for i in I), "x": RV(x), "b": R(bc),
                   "k": R(k), "xs": xs})
        px = nets.points(rng, lo, up, 5, corners=False)
        pb = [rng.choice([0., .25, .5, .5, .75, 1.]) for _ in px]
        py = []
        for x, be in zip(px, pb):
            pre = sum(p * q for p, q in zip(w, x)) + b
            py.append(max(pre, c * pre) + rng.choice(
                [0., .25, .5, 1., 2., -.5]))
        # one of the points exactly on its best cut
        I0 = mu.find_index_set_to_strengthen(T(w), T(lo), T(up), T(px[0]),
                                             pb[0])
        ev.append({"op": "find", "key": "find", "u": u, "x": RV(px[0]),
                   "beta": R(pb[0]), "I": sorted(i + 1 for i in I0)})
        cx, cb, ck_ = mu.strengthen_relu_mip_w_indices(*a, I0)
        py[0] = float(cx @ T(px[0]) + cb * pb[0] + ck_) + rng.choice(
            [0., 0., .125])
        r = mu.strengthen_relu_mip_given_pts(
            *a, [T(x) for x in px], [T(y) for y in py], [T(v) for v in pb])
        ev.append(dict({"op": "points", "key": "points", "u": u,
                        "px": [RV(x) for x in px], "pb": RV(pb),
                        "py": RV(py), "xs": xs}, **rows(r)))
        mlo = sum(p * (l if p > 0 else h) for p, l, h in zip(w, lo, up)) + b
        mup = sum(p * (h if p > 0 else l) for p, l, h in zip(w, lo, up)) + b
        if mlo < 0 < mup:
            keep = xs
            tl, tu = mlo, mup
            if rng.random() < .3:
                tl, tu = mlo * .75, mup * .5
                keep = []
                for p in nets.points(rng, lo, up, 24):
                    v = sum(i * j for i, j in zip(w, p)) + b
                    if tl <= v <= tu:
                        keep.append(RV(p))
            for sel in (False, True):
                r = mu.strengthen_relu_mip(*a, T(tl), T(tu), sel)
                ev.append(dict({"op": "unit", "all": not sel, "u": u,
                                "key": "selective" if sel else "all",
                                "xs": keep}, **rows(r)))
    for rep in range(ck.n(50, 400)):
        wd = nets.shape(rng, nin=(1, 2), depth=(1, 2), width=(1, 3))
        n = nets.net(rng, wd, bias=rng.random() < .8)
        free = rto.ReLUFreePattern(n, nets.F64)
        lo, up = nets.box(rng, wd[0])
        ret = free.output_constraint(T(lo), T(up), PB.IA)
        llo = torch.cat((ret.nn_input_lo, ret.relu_output_lo)).detach()
        lup = torch.cat((ret.nn_input_up, ret.relu_output_up)).detach()
        nu = sum(wd[1:-1])
        base = {"op": "network", "net": nets.spec(n), "lo": RV(llo),
                "up": RV(lup),
                "xs": [RV(x) for x in nets.points(rng, lo, up, 6)]}
        x = nets.points(rng, lo, up, 1, corners=False)[0]
        z = [a + (b - a) * rng.randint(0, 4) / 4
             for a, b in zip(ret.relu_output_lo.tolist(),
                             ret.relu_output_up.tolist())]
        beta = [rng.choice([0., .25, .5, .75, 1.]) for _ in range(nu)]
        r = nets.aged(rng, [n], lambda: free.strengthen_mip_at_point(
            (T(x + z), T(beta)), llo, lup))
        e = dict(base, key="at-point", pt=RV(x + z), beta=RV(beta), eps=0)
        if r[0] is None:
            e.update(rx=[], rs=[], rb=[], rr=[])
        else:
            e.update(rx=RV(r[0]), rs=RV(r[1]), rb=RV(r[2]), rr=RV(r[3]))
        ev.append(e)
        # the same at the solution of the relaxed program
        mip = gurobi_torch_mip.GurobiTorchMILP(nets.F64)
        xv = mip.addVars(wd[0], lb=-gurobipy.GRB.INFINITY)
        s, be = mip.add_mixed_integer_linear_constraints(
            ret, xv, None, "s", "b", "in", "eq", "",
            gurobi_torch_mip.BINARYRELAX)
        obj = nets.vec(rng, nu, 2., 2)
        mip.setObjective([T(obj)], [s], constant=0.,
                         sense=gurobipy.GRB.MAXIMIZE)
        mip.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
        mip.gurobi_model.optimize()
        pt, tol = snap([v.x for v in xv] + [v.x for v in s])
        bt, tol2 = snap([v.x for v in be])
        m0 = len(mip.rhs_in)
        free.strengthen_relu_mip_at_solution(mip, xv, s, be, ret)
        if max(tol, tol2) < 10:
            Ain_r, Ain_z, rhs = mip.get_inequality_constraints()
            rx, rs, rb, rr = [], [], [], []
            for k in range(m0, len(rhs)):
                row = [float(Ain_r[k, mip.r_indices[v]])
                       if v in mip.r_indices else
                       float(Ain_z[k, mip.zeta_indices[v]])
                       for v in xv + s + be]
                rx.append(RV(row[:wd[0]]))
                rs.append(RV(row[wd[0]:wd[0] + nu]))
                rb.append(RV(row[wd[0] + nu:]))
                rr.append(R(rhs[k]))
            ev.append(dict(base, key="at-solution", pt=pt, beta=bt, eps=2,
                           rx=rx, rs=rs, rb=rb, rr=rr))
    ck.stateless("Cuts", ev)

