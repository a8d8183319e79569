"""Adversarial states found by the trainer."""
import torch

from checks import c20, c21, c26, loops
from lib import fake, lyap, nets
from lib.core import R, RV, tick
from neural_network_lyapunov import r_options
from neural_network_lyapunov import train_lyapunov_barrier as tlb

T, GRB = nets.t, loops.GRB


def entries(m):
    out = []
    for k in range(m.solCount):
        m.setParam(GRB.Param.SolutionNumber, k)
        v = m.PoolObjVal
        out.append([tick(v), bool(v > 0)])
    m.setParam(GRB.Param.SolutionNumber, 0)
    return out


def avail(milp, limit):
    """How many of the limit best solutions the program has."""
    m = milp.gurobi_model
    m.setParam("PoolSearchMode", 2)
    m.setParam("PoolSolutions", limit)
    m.optimize()
    return min(limit, m.solCount)


def states(xs, ys=None):
    out = []
    for k in range(xs.shape[0]):
        x, ok = lyap.exactly(xs[k].tolist())
        e = {"x": x, "exact": ok}
        if ys is not None:
            e["y"], ok = lyap.exactly(ys[k].detach().tolist())
            e["exact"] = e["exact"] and ok
        out.append(e)
    return out


def settings(rng, tr):
    tr.add_adversarial_state_only = rng.random() < .6
    p = rng.choice([1, 2, 3, 4, 12])
    d = rng.choice([1, 2, 3, 4, 11] if rng.random() < .3 else [1, 2, 3, 4])
    tr.lyapunov_positivity_mip_pool_solutions = p
    tr.lyapunov_derivative_mip_pool_solutions = d
    tr.barrier_value_mip_pool_solutions = p
    tr.barrier_derivative_mip_pool_solutions = d
    if d > 1 and rng.random() < .8:
        tr.lyapunov_derivative_mip_params[GRB.Param.PoolSearchMode] = 2
    return p, d


def opt(c, e, op, mip, obj, rets, pts):
    """The reported optimum against states, when attained by a returned one"""
    x = rets[0]
    return dict(c.base, op=op, found=True, bound=tick(obj), x=x["x"],
                exact=x["exact"], grid=[RV(p) for p in pts])


SET = ("lyapunov_positivity_mip_term_threshold",
       "lyapunov_derivative_mip_term_threshold",
       "lyapunov_positivity_mip_warmstart",
       "lyapunov_derivative_mip_warmstart",
       "derivative_mip_num_strengthen_pts", "derivative_mip_strengthen_binary",
       "lyapunov_derivative_mip_params", "safe_regions", "unsafe_regions")


def one_trainer(c):
    """The trainer that was used on this candidate before, if any."""
    fresh = tlb.Trainer()
    if not hasattr(c.o, "trainer"):
        c.o.trainer = fresh
    for k in SET:
        setattr(c.o.trainer, k, getattr(fresh, k))
    return c.o.trainer


def trainer(rng, c):
    tr = one_trainer(c)
    R_ = r_options.FixedROptions(T(c.rows))
    tr.add_lyapunov(c.real, float(c.lam), c.eq, R_)
    tr.lyapunov_positivity_epsilon = rng.choice([0., .125, .25, .5, 1.5])
    tr.lyapunov_derivative_epsilon = rng.choice([0., .125, .25, .5])
    c.type = rng.choice(list(c21.TYPES))
    tr.lyapunov_derivative_eps_type = c21.TYPES[c.type]
    return tr


def certificates(rng, c):
    try:
        tr = trainer(rng, c)
    except AssertionError:      # the equilibrium is refused (C19)
        return []
    p, d = settings(rng, tr)
    ev = []
    pts = lyap.points(rng, c, 6) + c20.grid(c, 5 if c.o.nx < 3 else 2)
    b0 = dict(c.base, only=tr.add_adversarial_state_only)
    early = rng.random() < .25
    warm = rng.random() < .25
    if early:
        tr.lyapunov_positivity_mip_term_threshold = rng.choice([0., .25])
        tr.lyapunov_derivative_mip_term_threshold = rng.choice([0., .25])
    if warm:
        tr.lyapunov_positivity_mip_warmstart = True
        tr.lyapunov_derivative_mip_warmstart = c.o.kind != "hybrid"
    for rep in range(2 if warm else 1):
        mip, obj, xs = tr.solve_positivity_mip()
        m = mip.gurobi_model
        n = avail(c.real.lyapunov_positivity_as_milp(
            c.eq, c.lam, tr.lyapunov_positivity_epsilon, R=T(c.rows))[0],
            p) if p > 1 and not early else 1
        e = dict(b0, op="pool", kind="positivity", limit=p, obj=tick(obj),
                 eps=R(tr.lyapunov_positivity_epsilon), ent=entries(m), avail=n,
                 rets=states(xs))
        ev.append(e)
        if early:
            ev.append({"op": "early", "key": b0["key"],
                       "stopped": m.status == GRB.Status.INTERRUPTED,
                       "above": bool(
                           m.ObjVal >
                           tr.lyapunov_positivity_mip_term_threshold)})
        elif e["rets"]:
            c.base = dict(b0, eps=e["eps"])
            ev.append(opt(c, e, "posopt", mip, obj, e["rets"], pts))
    mode = rng.choice(["plain", "plain", "points", "binaries"])
    if mode == "points":
        tr.derivative_mip_num_strengthen_pts = rng.choice([1, 2])
    elif mode == "binaries":
        tr.derivative_mip_strengthen_binary = True
    for rep in range(2 if warm else 1):
        ret = c.real.lyapunov_derivative_as_milp(
            c.eq, c.lam, tr.lyapunov_derivative_epsilon,
            tr.lyapunov_derivative_eps_type, R=T(c.rows))
        if lyap.solve(ret.milp) is None:
            break       # no state keeps its successor in the box (C21)
        if mode == "binaries" and ret.milp.gurobi_model.ObjVal < 0:
            break       # presumes the equilibrium is one: optimum >= 0
        n = avail(ret.milp, d) if d > 1 and not early and mode == "plain" \
            and tr.lyapunov_derivative_mip_params.get(
                GRB.Param.PoolSearchMode) == 2 else 1
        mip, obj, xs, ys = tr.solve_lyap_derivative_mip()
        m = mip.gurobi_model
        e = dict(b0, op="pool", kind="decrease", type=c.type, limit=d,
                 obj=tick(obj), eps=R(tr.lyapunov_derivative_epsilon),
                 ent=entries(m), avail=n, rets=states(xs, ys))
        e["key"] += "-" + mode
        ev.append(e)
        if early:
            ev.append({"op": "early", "key": b0["key"],
                       "stopped": m.status == GRB.Status.INTERRUPTED,
                       "above": bool(
                           m.ObjVal >
                           tr.lyapunov_derivative_mip_term_threshold)})
        elif e["rets"] and (mode != "binaries" or obj >= 0):
            c.base = dict(b0, eps=e["eps"], type=c.type, blo=[], bup=[],
                          keep=False)
            ev.append(opt(c, e, "decopt", mip, obj, e["rets"], pts))
    return ev


def barriers(rng, c):
    tr = one_trainer(c)
    eps = rng.choice([0., .125, .25, .5, 1.5])
    tr.add_barrier(c.real, c.eq, c.c, eps)
    p, d = settings(rng, tr)
    ev = []
    grid = lyap.points(rng, c, 6) + c20.grid(c, 5 if c.o.nx < 3 else 2)
    b0 = c.base
    for safe in (True, False):
        regs = []
        while len(regs) < 2:
            r = c26.region(rng, c.o)
            m, _ = c.real.value_as_milp(c.eq, c.c, r[0], safe)
            if lyap.solve(m) is not None:       # a region within the box
                regs.append(r)
            elif rng.random() < .3:
                break
        if safe:
            tr.safe_regions = [r[0] for r in regs]
        else:
            tr.unsafe_regions = [r[0] for r in regs]
        mips, objs, xss = tr.solve_barrier_value_mip(safe)
        if not len(mips) == len(objs) == len(xss) == len(regs):
            ev.append({"op": "one-answer-per-region", "key": "regions"})
            continue
        for m, o, xs, (reg, ps, name) in zip(mips, objs, xss, regs):
            c.base = dict(b0, key=name, safe=safe, region=c26.polys(ps))
            e = dict(c.base, op="pool", kind="value", only=False, limit=p,
                     obj=tick(o), ent=entries(m.gurobi_model),
                     avail=avail(c.real.value_as_milp(
                         c.eq, c.c, reg, safe)[0], p) if p > 1 else 1,
                     rets=states(xs))
            ev.append(e)
            ev.append(opt(c, e, "regopt", m, o, e["rets"], grid))
    c.base = dict(b0, eps=R(eps), relaxed=False)
    ret = c.real.derivative_as_milp(c.eq, c.c, eps)
    if lyap.solve(ret.milp) is None:
        return ev
    m, o, xs = tr.solve_barrier_derivative_mip()
    e = dict(c.base, op="pool", kind="decrease", limit=d, obj=tick(o),
             only=tr.add_adversarial_state_only,
             ent=entries(m.gurobi_model), rets=states(xs),
             avail=avail(ret.milp, d) if d > 1 else 1)
    ev.append(e)
    if e["rets"]:
        ev.append(opt(c, e, "decopt", m, o, e["rets"], grid))
    return ev


def clusters(rng):
    n = rng.randint(1, 3)
    k = rng.randint(0, 9)
    xs = fake.samples(rng, n, k)
    if rng.random() < .5:       # close companions
        for j in range(1, k):
            if rng.random() < .6:
                xs[j] = [v + rng.choice([0., .125, -.125]) for v in xs[j - 1]]
    rad = rng.choice([0., .125, .25, .5, 1., 4.])
    kept, cnt = tlb._cluster_adversarial_states(T(xs).reshape(-1, n), rad)
    return {"op": "cluster", "key": "n%d" % n, "xs": fake.sv(xs),
            "rad": R(rad), "kept": fake.sv(kept.tolist()),
            "counts": [int(v) for v in cnt]}


def run(ck):
    ck.model("MC_Lyap", wait=False)
    ck.model("MC_Adv", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(90, 600)):
        c = lyap.case(rng, True, small=True)
        ev += lyap.aged(rng, c, lambda: certificates(rng, c))
    ck.stateless("Lyap", ev)
    ev = []
    for rep in range(ck.n(40, 300)):
        c = c26.case(rng)
        ev += lyap.aged(rng, c, lambda: barriers(rng, c))
    ck.stateless("Bar", ev)
    ck.stateless("Train", [clusters(rng) for _ in range(ck.n(300, 3000))])
