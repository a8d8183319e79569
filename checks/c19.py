"""Candidate Lyapunov functions: value, gradients, equilibrium."""
import torch

from checks import loops
from lib import lyap, nets
from lib.core import R, RV, tick
from lib.solver import Read
from neural_network_lyapunov import lyapunov
import gurobipy

T = nets.t


def values(c, xs):
    b = c.base
    ev = [dict(b, op="value", x=RV(x), v=R(c.real.lyapunov_value(
        T(x), c.eq, c.lam, R=c.R).reshape(-1)[0])) for x in xs]
    for q in (xs, xs[:1]):
        if len(q) == c.o.nx and len(q) == 1:
            q = q + q
        v = c.real.lyapunov_value(T(q), c.eq, c.lam, R=c.R)
        ev.append(dict(b, op="values", xs=[RV(x) for x in q],
                       vs=RV(v.reshape(-1))))
    return ev


@torch.enable_grad()
def gradients(rng, c, xs):
    b, ev = c.base, []
    rows = T(c.rows)
    for x in xs:
        tol = rng.choice([0., 0., .25])
        with torch.no_grad():
            z, kinks = T(x), 0
            for q in c.net:
                if not isinstance(q, torch.nn.Linear):
                    kinks += int((z.abs() <= tol).sum())
                z = q(z)
            kinks += int((rows @ (T(x) - c.eq)).abs().le(tol).sum())
        if kinks > 6:
            continue
        g = c.real._lyapunov_gradient(T(x), c.eq, c.lam, rows, tol)
        ev.append(dict(b, op="grads", x=RV(x), tol=R(tol),
                       gs=[RV(v) for v in g]))
    X = T(xs)
    g = c.real._lyapunov_gradient_batch(X, c.eq, c.lam, rows,
                                        rng.random() < .5)
    ev += [dict(b, op="gradrow", x=RV(x), g=RV(g[k]))
           for k, x in enumerate(xs)]
    ev.append(dict(b, op="value", x=RV(X[0]), v=R(c.real.lyapunov_value(
        X[0].detach(), c.eq, c.lam, R=c.R).reshape(-1)[0])))
    return ev


def refusals(rng, c):
    ev = []
    for _ in range(3):
        x = list(c.xs)
        k = rng.randrange(len(x))
        x[k] = rng.choice([c.o.lo[k], c.o.up[k], c.o.lo[k] - .125,
                           c.o.up[k] + .125, c.o.lo[k] - 5., x[k]])

        def raised(f):
            try:
                f()
                return False
            except Exception:
                return True

        def l1():
            m = loops.mip()
            c.real.add_state_error_l1_constraint(
                m, T(x), loops.free(m, c.o.nx, "x"), R=c.R)

        for f in (lambda: c.real.validate_x_equilibrium(T(x)), l1):
            ev.append(dict(c.base, op="refuse", x=RV(x), raised=raised(f)))
    return ev


def encoded(rng, c, xs):
    """The error norm and the value inside a program."""
    ev, b = [], c.base
    zero = rng.random() < .5
    m = loops.mip()
    x_ = loops.free(m, c.o.nx, "x")
    s, al = c.real.add_state_error_l1_constraint(
        m, c.eq, x_, R=c.R, binary_for_zero_input=zero)
    rd = Read(m)
    al = [list(a) if isinstance(a, (list, tuple)) else [a] for a in al]
    for x in xs:
        r = rd.fix(x_, x).ranges(list(s) + [v for a in al for v in a])
        e = dict(b, op="errs", x=RV(x), feas=r is not None, out=[], bits=[])
        if r:
            r = [[tick(p), tick(q)] for p, q in r]
            e["out"], k = r[:len(s)], len(s)
            for a in al:
                e["bits"].append(r[k:k + len(a)])
                k += len(a)
        ev.append(e)
    m = loops.mip()
    x_ = loops.free(m, c.o.nx, "x")
    co, va, const, s = c.real._lyapunov_value_as_milp(
        m, x_, c.eq, c.lam, c.R)
    m.setObjective(list(co), list(va), const, sense=gurobipy.GRB.MAXIMIZE)
    rd = lyap.Obj(m)
    for x in xs:
        ev.append(lyap.at(c, "venc", rd, x_, x))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(70, 500)):
        c = lyap.case(rng, None, cls=rng.choice(
            [lyapunov.LyapunovHybridLinearSystem,
             lyapunov.LyapunovDiscreteTimeHybridSystem]))
        xs = lyap.points(rng, c, 6)
        far = [[v + rng.choice([-3., 0., 2.]) for v in x] for x in xs[:2]]
        ev += lyap.aged(rng, c, lambda: values(c, xs + far) + gradients(
            rng, c, xs[-3:] + far[:1]) + refusals(rng, c) + encoded(
                rng, c, xs[-4:]) + values(c, xs[:1]), free=True)
    ck.stateless("Lyap", ev)
