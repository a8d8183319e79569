"""Hybrid linear systems: simulation, possible results and encoding."""
import gurobipy
import numpy as np
import torch

from checks import c07
from lib import hybrid, nets
from lib.core import R, RV, exc_in_repo, tick
from lib.mip import Block
from neural_network_lyapunov import gurobi_torch_mip
from neural_network_lyapunov import hybrid_linear_system as hls

T = nets.t


def step(s, z, nx, nu):
    x, u = T(z[:nx]), T(z[nx:])
    if nu:
        y, m = s.step_forward(x, u)
        if y is None:
            return {"refused": True, "next": [], "mode": 0}
        return {"refused": False, "next": RV(y), "mode": int(m) + 1}
    try:
        y = s.step_forward(x)
    except hls.AutonomousHybridLinearSystem.StepForwardException:
        return {"refused": True, "next": [], "mode": 0}
    return {"refused": y is None, "next": RV(y) if y is not None else [],
            "mode": 0}


def program(s, z, nx, nu, binary):
    """The system's constraints in a program of ours, the state fixed."""
    out, feas = [], True
    for j in range(nx):
        r = []
        for sense in (gurobipy.GRB.MINIMIZE, gurobipy.GRB.MAXIMIZE):
            mip = gurobi_torch_mip.GurobiTorchMILP(nets.F64)
            inf = gurobipy.GRB.INFINITY
            x = mip.addVars(nx, lb=-inf, name="x")
            y = mip.addVars(nx, lb=-inf, name="y")
            if nu:
                u = mip.addVars(nu, lb=-inf, name="u")
                mip.addMConstr([torch.eye(nu, dtype=nets.F64)], [u],
                               sense=gurobipy.GRB.EQUAL, b=T(z[nx:]))
                s.add_dynamics_constraint(mip, x, y, u, "s", "b",
                                          binary_var_type=binary)
            else:
                s.add_dynamics_constraint(mip, x, y, "s", "b", binary)
            mip.addMConstr([torch.eye(nx, dtype=nets.F64)], [x],
                           sense=gurobipy.GRB.EQUAL, b=T(z[:nx]))
            mip.setObjective([T([1.])], [[y[j]]], constant=0., sense=sense)
            mip.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
            mip.gurobi_model.setParam(gurobipy.GRB.Param.DualReductions,
                                      False)
            mip.gurobi_model.optimize()
            if mip.gurobi_model.status != gurobipy.GRB.Status.OPTIMAL:
                feas = False
            else:
                r.append(tick(mip.gurobi_model.ObjVal))
        out.append(r if len(r) == 2 else [0, 0])
    return feas, out


def extent(ck, ev, key, side, qs, cs, ks, obs):
    certs = []
    for (n, C, d), c in zip(qs, cs):
        G, h = c07.rows(n, C, d, [], [], None, None)
        certs.append(c07.certify(c, n, G, h))
    if any(c is None for c in certs):
        ck.notes["uncertified"] = ck.notes.get("uncertified", 0) + 1
        return
    ev.append({"op": "extent", "key": key, "side": side,
               "qs": [c07.q_of(n, C, d, [], [], None, None)
                      for n, C, d in qs],
               "cs": [RV(c) for c in cs], "ks": [R(k) for k in ks],
               "certs": certs, "obs": obs})


def extents(ck, ev, s, ms, nx, nu):
    n = nx + nu
    eye = np.eye(n).tolist()
    qs = [(n, m["P"], m["q"]) for m in ms]
    both = [(s.x_lo_all, s.x_up_all, 0, nx)]
    if nu:
        both.append((s.u_lo_all, s.u_up_all, nx, nu))
    for lo, up, o, d in both:
        for j in range(d):
            e = eye[o + j]
            ne = [-v for v in e]
            extent(ck, ev, "domain-extent", "upper-end", qs,
                   [e] * len(ms), [0.] * len(ms), tick(up[j]))
            extent(ck, ev, "domain-extent", "lower-end", qs,
                   [ne] * len(ms), [0.] * len(ms), -tick(lo[j]))
    if nu:
        return
    for j in range(nx):
        A = [m["A"][j] for m in ms]
        nA = [[-v for v in a] for a in A]
        c = [m["c"][j] for m in ms]
        extent(ck, ev, "derivative-extent", "upper-end", qs, A, c,
               tick(s.dx_upper[j]))
        extent(ck, ev, "derivative-extent", "lower-end", qs, nA,
               [-v for v in c], -tick(s.dx_lower[j]))
        for k in range(len(ms)):
            lo, up = s.mode_derivative_bounds(k)
            extent(ck, ev, "mode-derivative", "upper-end", [qs[k]], [A[k]],
                   [0.], tick(up[j]))
            extent(ck, ev, "mode-derivative", "lower-end", [qs[k]], [nA[k]],
                   [0.], -tick(lo[j]))


def run(ck):
    ck.model("MC_Hybrid", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(36, 260)):
        nx, nu = rng.choice([(1, 0), (2, 0), (2, 0), (1, 1), (2, 1), (1, 2)])
        ms, lo, up = hybrid.modes(rng, nx, nu)
        s = hybrid.build(ms, nx, nu, rng.random() < .5)
        sp = hybrid.spec(ms)
        kind = "controlled" if nu else "autonomous"
        base = {"key": kind, "sys": sp}
        zs = hybrid.points(rng, ms, lo, up, 10)
        single = []
        for z in zs:
            x, u = T(z[:nx]), T(z[nx:])
            md = s.mode(x, u) if nu else s.mode(x)
            ev.append(dict(base, op="mode", z=RV(z),
                           mode=0 if md is None else int(md) + 1))
            o = step(s, z, nx, nu)
            single.append(o)
            ev.append(dict(base, op="step", z=RV(z), obs=o,
                           hasmode=bool(nu)))
            d = s.possible_dx(x, u) if nu else s.possible_dx(x)
            ev.append(dict(base, op="possible", z=RV(z),
                           dxs=[RV(v) for v in d]))
        if not nu:
            k = rng.randrange(len(ms))
            ev.append(dict(base, op="inmode", z=RV(zs[0]), k=k + 1,
                           next=RV(s.step_forward(T(zs[0]), mode_x=k))))
        inside = [k for k in range(len(zs)) if not single[k]["refused"]]
        for ks in (inside, list(range(len(zs)))):
            if not ks:
                continue
            Z = T([zs[k] for k in ks])
            try:
                r, md = s.step_forward(Z[:, :nx], Z[:, nx:]) if nu else \
                    (s.step_forward(Z), [])
                ref, nxt = False, [RV(v) for v in r]
                md = [int(v) + 1 for v in md]
            except Exception as e:
                if not exc_in_repo(e):
                    raise
                ref, nxt, md = True, [], []
            ev.append(dict(base, op="batch", zs=[RV(zs[k]) for k in ks],
                           refused=ref, next=nxt, modes=md, hasmode=bool(nu),
                           smodes=[single[k]["mode"] for k in ks],
                           single=[single[k]["next"] for k in ks]))
        # the encoding, with or without a tighter box
        kw = {}
        blo, bup = [-1e3] * (nx + nu), [1e3] * (nx + nu)
        if rng.random() < .4:
            w = [(p + (q - p) * rng.choice([0., .25]),
                  q - (q - p) * rng.choice([0., .25]))
                 for p, q in zip(lo, up)]
            parts = [("x_lo", 0, nx, 0), ("x_up", 0, nx, 1)]
            if nu:
                parts += [("u_lo", nx, nx + nu, 0), ("u_up", nx, nx + nu, 1)]
            for name, a, b, side in parts:
                if rng.random() < .7:
                    v = [w[j][side] for j in range(a, b)]
                    kw[name] = T(v) if rng.random() < .5 else np.array(v)
                    (bup if side else blo)[a:b] = v
        if kw and rng.random() < .5:        # asked before without it
            s.mixed_integer_constraints()
        bl = Block(s.mixed_integer_constraints(**kw))
        for z in zs[:6]:
            for g in [None] + hybrid.onehots(len(ms)):
                r = bl.at(z, binary=g)
                ev.append(dict(base, op="encode", z=RV(z), lo=RV(blo),
                               up=RV(bup), fixed=g is not None,
                               g=list(g) if g is not None else [],
                               feas=r is not None,
                               out=[[tick(a), tick(b)] for a, b in r["out"]]
                               if r else []))
        if rep % 2 == 0:
            for z in zs[:3]:
                f, o = program(s, z, nx, nu, gurobipy.GRB.BINARY)
                ev.append(dict(base, key=kind + "-in-a-program", op="encode",
                               z=RV(z), lo=RV([-1e3] * (nx + nu)),
                               up=RV([1e3] * (nx + nu)), fixed=False, g=[],
                               feas=f, out=o))
        if rep % 2:
            extents(ck, ev, s, ms, nx, nu)
        # a polytope open on one side is refused when asked to be checked
        m = ms[0]
        n = nx + nu
        j = rng.randrange(n)
        sg = rng.choice([-1., 1.])
        keep = [k for k, r in enumerate(m["P"]) if not
                (r[j] * sg > 0)]
        if keep and rep % 4 == 0 and n > 1:
            bad = dict(m, P=[m["P"][k] for k in keep],
                       q=[m["q"][k] for k in keep])
            try:
                hybrid.build([bad], nx, nu, True)
                ref = False
            except AssertionError:
                ref = True
            ev.append({"op": "unbounded", "key": "unbounded",
                       "refused": ref})
    ck.stateless("Hybrid", ev)
