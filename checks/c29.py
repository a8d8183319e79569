"""Training losses: parts, weights and gradients."""
import contextlib
import io

import torch

from checks import c20, c21, c22, c23, c26, c28, loops
from lib import lyap, nets
from lib.core import R, RV, tick
from neural_network_lyapunov import continuous_time_lyapunov as ct
from neural_network_lyapunov import train_lyapunov_barrier as tlb

T, GRB = nets.t, loops.GRB
WS = [.25, .5, 1., 2.]


def weight(rng, none):
    u = rng.random()
    if none and u < .25:
        return None
    return 0. if u < .45 else rng.choice(WS)


def opt(v):
    return [] if v is None else [v]


def num(v):
    return v.item() if isinstance(v, torch.Tensor) else float(v)


def grads(f, ps):
    """Gradient of the value f returns."""
    for p in ps:
        p.grad = None
    v = f()
    if isinstance(v, torch.Tensor) and v.requires_grad:
        v.backward()
    return [x for p in ps for x in
            ([0.] * p.numel() if p.grad is None
             else p.grad.reshape(-1).tolist())]


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def near(rng, c, k):
    return T(lyap.points(rng, c, k)[:k]).reshape(-1, c.o.nx)


def successors(c, xs):
    if xs.shape[0] == 0:
        return xs.clone()
    out = []
    for x in xs:
        out.append(c.sys.step_forward(x).detach())
    return torch.stack(out)


def total(rng, c):
    try:
        tr = c28.trainer(rng, c)
    except AssertionError:
        return []
    c28.settings(rng, tr)
    ev = []
    b = c.base
    tr.lyapunov_positivity_sample_margin = rng.choice([0., .125, .5])
    tr.lyapunov_derivative_sample_margin = rng.choice([0., .125, .5])
    tr.sample_loss_reduction = rng.choice(["mean", "mean", "max"])
    tr.add_positivity_adversarial_state = rng.random() < .5
    tr.add_derivative_adversarial_state = rng.random() < .5
    tr.max_sample_pool_size = rng.choice([2, 4, 500])
    xs = near(rng, c, rng.choice([0, 1, 3, 6]))
    zs = near(rng, c, rng.choice([0, 1, 3, 6]))
    try:
        ys = successors(c, zs)
    except Exception:       # no mode there: take states without successors
        if c.o.kind != "hybrid":
            raise
        ys = near(rng, c, 6)[:zs.shape[0]]
        zs = zs[:ys.shape[0]]
    w = [weight(rng, False), weight(rng, False), weight(rng, True),
         weight(rng, True), weight(rng, False)]
    ret = c.real.lyapunov_derivative_as_milp(
        c.eq, c.lam, tr.lyapunov_derivative_epsilon,
        tr.lyapunov_derivative_eps_type, R=T(c.rows))
    if lyap.solve(ret.milp) is None:
        w[3] = None
    r = quiet(tr.total_loss, xs, zs, ys, *w)
    q = r.lyap_loss
    parts = [q.positivity_sample_loss, q.derivative_sample_loss,
             q.positivity_mip_loss, q.derivative_mip_loss, q.gap_mip_loss]
    gap = quiet(tr.solve_boundary_gap_mip) if w[4] else None
    ev.append(dict(
        b, op="total", loss=tick(num(r.loss)), parts=[
            tick(num(p)) for p in parts],
        ws=[opt(None if v is None else R(v)) for v in w],
        # sample parts are judged sample by sample below
        qs=[[tick(num(parts[k]) / w[k])] if w[k] else [] for k in (0, 1)] +
        [opt(None if v is None else tick(num(v))) for v in (
            q.positivity_mip_obj, q.derivative_mip_obj)] +
        [opt(None if gap is None else tick(num(gap[2] - gap[1])))]))
    eps = {"positivity": tr.lyapunov_positivity_epsilon,
           "decrease": tr.lyapunov_derivative_epsilon}
    pm = quiet(tr.solve_positivity_mip) if w[2] is not None else None
    dm = quiet(tr.solve_lyap_derivative_mip) if w[3] is not None else None
    TVs = lambda t: [[tick(v) for v in x] for x in t.tolist()]  # noqa: E731
    none = xs[:0]
    ev.append(dict(b, op="pools", given=TVs(xs),
                   adv=TVs(pm[2] if pm else none),
                   got=TVs(q.positivity_state_samples),
                   add=tr.add_positivity_adversarial_state))
    for g, j, o in ((zs, 2, q.derivative_state_samples),
                    (ys, 3, q.derivative_state_samples_next)):
        ev.append(dict(b, op="pools", given=TVs(g),
                       adv=TVs(dm[j].detach() if dm else none),
                       got=TVs(o.detach()),
                       add=tr.add_derivative_adversarial_state))
    for kind, k, X, Y, m in (
            ("positivity", 0, q.positivity_state_samples, None,
             tr.lyapunov_positivity_sample_margin),
            ("decrease", 1, q.derivative_state_samples,
             q.derivative_state_samples_next,
             tr.lyapunov_derivative_sample_margin)):
        if not w[k] or X.shape[0] == 0:
            continue
        s = c28.states(X, Y)
        ev.append(dict(
            b, op="sloss", kind=kind, eps=R(eps[kind]), margin=R(m),
            red=tr.sample_loss_reduction, cap=tr.max_sample_pool_size,
            loss=tick(num(parts[k]) / w[k]), type=c.type,
            xs=[z["x"] for z in s], ys=[z.get("y", []) for z in s],
            exact=all(z["exact"] for z in s)))
    if gap is not None:
        ends = c28.states(torch.stack((gap[3], gap[4])))
        ev.append(dict(b, op="gapmip", vmin=tick(num(gap[1])),
                       vmax=tick(num(gap[2])), gap=tick(num(gap[0])),
                       ends=ends, grid=[RV(p) for p in c20.grid(
                           c, 9 if c.o.nx == 1 else 5)]))
    # gradients: the loss against its terms
    ps = list(c.net.parameters())
    if c.ctlnet is not None:
        ps += list(c.ctlnet.parameters())

    def term(k):
        if k < 2:
            u = [0., 0.]
            u[k] = w[k]
            cut = tr.max_sample_pool_size
            Y = q.derivative_state_samples_next.detach()
            if w[3] is not None and tr.add_derivative_adversarial_state:
                Y = torch.cat((ys, quiet(tr.solve_lyap_derivative_mip)[3]))
            return tr.lyapunov_sample_loss(
                q.positivity_state_samples[-cut:],
                q.derivative_state_samples[-cut:], Y[-cut:], *u)[k]
        if k == 4:
            return w[4] * quiet(tr.solve_boundary_gap_mip)[0]
        mip = quiet((tr.solve_positivity_mip, None,
                     tr.solve_lyap_derivative_mip)[2 * (k - 2)])[0]
        return w[k] * mip.compute_objective_from_mip_data_and_solution(
            solution_number=0, penalty=1e-13)

    g = grads(lambda: quiet(tr.total_loss, xs, zs, ys, *w).loss, ps)
    terms = [grads(lambda: term(k), ps) for k in range(5) if w[k]]
    if max([abs(v) for t in terms + [g] for v in t] + [0.]) < 1e5:
        ev.append(dict(key=b["key"], op="gsum", g=[tick(v) for v in g],
                       terms=[[tick(v) for v in t] for t in terms]))
    return ev


def slopes(rng, c):
    """Sample terms at parameters in general position."""
    try:
        tr = c28.trainer(rng, c)
    except AssertionError:
        return []
    ps = list(c.net.parameters())
    if c.ctlnet is not None:
        ps += list(c.ctlnet.parameters())
    general(rng, ps)
    xs = torch.stack([T([rng.uniform(a, b) for a, b in zip(c.o.lo, c.o.up)])
                      for _ in range(5)])
    w = rng.choice([(1., 0.), (0., 1.), (.5, 2.)])
    tr.lyapunov_positivity_sample_margin = .5
    tr.lyapunov_derivative_sample_margin = .5
    tr.sample_loss_reduction = rng.choice(["mean", "max", "4norm"])

    def f():
        y = c.sys.step_forward(xs)
        return tr.total_loss(xs, xs, y, w[0], w[1], None, None, 0.).loss

    if c.o.kind == "hybrid":
        try:
            f()
        except Exception:       # a sample outside every mode
            return []
    g = grads(f, ps)
    q = quotients(rng, f, ps, len(g), 2. ** -20)
    if q is None:
        return []
    d, fwd, bwd = q
    return [{"op": "slope", "key": c.base["key"], "fwd": fwd, "bwd": bwd,
             "slope": tick(sum(x * y for x, y in zip(g, d)))}]


def general(rng, ps):
    """Put parameters into general position."""
    for p in ps:
        p.data += T([[rng.uniform(-.05, .05) for _ in range(p.numel())]]
                    ).reshape(p.shape)


def programs(rng, c):
    """Programs of the candidate, rebuilt from the current parameters."""
    eps = rng.choice([.125, .25, .5])
    r = c.real
    if hasattr(c, "c"):
        reg = c26.region(rng, c.o)[0]
        safe = rng.random() < .5
        return [lambda: r.value_as_milp(c.eq, c.c, reg, safe)[0],
                lambda: r.derivative_as_milp(c.eq, c.c, eps).milp]
    out = [lambda: r.lyapunov_positivity_as_milp(
        c.eq, c.lam, eps, R=c.Rt)[0]]
    kind = "lower" if isinstance(r, FLOWS) else rng.choice(list(c21.TYPES))
    a = (c.eq, c.lam, eps, c21.TYPES[kind])
    out.append(lambda: r.lyapunov_derivative_as_milp(*a, R=c.Rt).milp)
    if isinstance(r, FLOWS[1]):
        out.append(lambda: r.lyapunov_derivative_as_milp2(*a, R=c.Rt).milp)
    return out


FLOWS = (ct.LyapunovContinuousTimeSystem,
         ct.LyapunovContinuousTimeHybridSystem)


def intervals(c):
    """Differentiable bounds; those of linear programs are constants."""
    for o in (c.real, c.sys, c.o.real, getattr(c.sys, "forward_system", 0)):
        for a in ("network_bound_propagate_method",
                  "controller_network_bound_propagate_method"):
            if hasattr(o, a):
                setattr(o, a, lyap.M.IA)


def certificates(rng, c):
    """The recomputed optimum follows the parameters."""
    intervals(c)
    ps = [p for n in (c.net, c.ctlnet, getattr(c.o, "net", None))
          if n is not None for p in n.parameters()]
    c.Rt = None
    if c.R is not None and not hasattr(c, "c"):
        c.Rt = T(c.rows)
        if not isinstance(c.real, FLOWS[1]):
            c.Rt.requires_grad = True
            ps.append(c.Rt)
    general(rng, ps)
    ev = []
    for build in programs(rng, c):
        m = build()
        if lyap.solve(m) is None:
            continue
        act, z = m.get_active_constraint_indices_and_binary_val(0, 1e-7)

        def f():
            return build().compute_objective_from_mip_data(act, z, 1e-13)
        g = grads(f, ps)
        q = quotients(rng, f, ps, len(g), 2. ** -16)
        if q is None:
            continue
        d, fwd, bwd = q
        ev.append({"op": "slope", "key": c.base["key"] + "-certificate",
                   "slope": tick(sum(x * y for x, y in zip(g, d))),
                   "fwd": fwd, "bwd": bwd})
    return ev


def quotients(rng, f, ps, n, h):
    """Difference quotients of f along a random direction."""
    d = [rng.choice([-1., 0., 1.]) for _ in range(n)]

    def at(s):
        k = 0
        old = [p.data.clone() for p in ps]
        for p in ps:
            n = p.numel()
            p.data += s * T(d[k:k + n]).reshape(p.shape)
            k += n
        try:
            return f().item()
        finally:
            for p, o in zip(ps, old):
                p.data = o

    try:
        a, m, b = at(-h), at(0.), at(h)
    except Exception:
        return None
    return d, tick((b - m) / h), tick((m - a) / h)


def barrier(rng, c):
    tr = c28.one_trainer(c)
    eps = rng.choice([0., .125, .25, .5])
    tr.add_barrier(c.real, c.eq, c.c, eps)
    c28.settings(rng, tr)
    tr.max_sample_pool_size = rng.choice([2, 4, 500])
    tr.sample_loss_reduction = rng.choice(["mean", "max"])
    b0 = c.base
    regs = {}
    for safe in (True, False):
        regs[safe] = []
        for _ in range(rng.randint(0, 2)):
            r = c26.region(rng, c.o)[0]
            if lyap.solve(c.real.value_as_milp(
                    c.eq, c.c, r, safe)[0]) is not None:
                regs[safe].append(r)
    tr.safe_regions, tr.unsafe_regions = regs[True], regs[False]
    w = [weight(rng, False) for _ in range(3)] + \
        [weight(rng, True) for _ in range(3)]
    if lyap.solve(c.real.derivative_as_milp(c.eq, c.c, eps).milp) is None:
        w[5] = None
    given = [near(rng, c, rng.choice([0, 1, 3])) for _ in range(3)]
    if c.o.kind == "hybrid":
        w[2] = 0.       # mode-less samples have no successor
    r = quiet(tr.compute_barrier_loss, *given, *w)
    TVs = lambda t: [[tick(v) for v in x] for x in t.tolist()]  # noqa: E731
    ev = []
    adv = [quiet(tr.solve_barrier_value_mip, True)[2],
           quiet(tr.solve_barrier_value_mip, False)[2],
           [quiet(tr.solve_barrier_derivative_mip)[2]]
           if w[5] is not None else []]
    names = ("safe", "unsafe", "derivative")
    for k, name in enumerate(names):
        pool = getattr(r, name + "_state_samples")
        ev.append(dict(key=b0["key"], op="pools", given=TVs(given[k]),
                       got=TVs(pool), adv=[
                           x for a in adv[k] for x in TVs(a)]
                       if w[3 + k] is not None else []))
        o = getattr(r, name + "_mip_obj")
        p = getattr(r, name + "_mip_loss")
        many = lambda v: [] if v is None else [     # noqa: E731
            tick(num(z)) for z in (v if isinstance(v, list) else [v])]
        ev.append(dict(key=b0["key"] + "-" + name, op="part",
                       w=opt(None if w[3 + k] is None else R(w[3 + k])),
                       parts=many(p), qs=many(o), none=o == []))
        s = c28.states(pool)
        ev.append(dict(
            b0, op="sloss", kind="decrease" if k == 2 else name, eps=R(eps),
            w=R(w[k]), red=tr.sample_loss_reduction,
            cap=tr.max_sample_pool_size, xs=[z["x"] for z in s],
            exact=all(z["exact"] for z in s),
            loss=tick(num(getattr(r, name + "_sample_loss")))))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 560)):
        c = lyap.case(rng, True, small=True)
        ev += lyap.aged(rng, c, lambda: total(rng, c))
    for rep in range(ck.n(150, 1200)):
        c = lyap.case(rng, True)
        ev += lyap.aged(rng, c, lambda: slopes(rng, c))
    for case in (lambda r: lyap.case(r, True), c22.case, c23.case,
                 lambda r: lyap.case(r, True), c26.case):
        for rep in range(ck.n(14, 160)):
            ev += certificates(rng, case(rng))
    ck.stateless("Lyap", ev)
    ev = []
    for rep in range(ck.n(60, 400)):
        c = c26.case(rng)
        ev += lyap.aged(rng, c, lambda: barrier(rng, c))
    ck.stateless("Bar", ev)
