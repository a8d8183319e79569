"""Losses at samples: reduced hinges of the certified quantities."""
import torch

from checks import c21, c22, c23, c26
from lib import lyap, nets
from lib.core import R, RV, tick

T = nets.t


def reduction(rng, n, weighted=True):
    """(name, weights or None)."""
    red = rng.choice(["mean", "mean", "max", "4norm"])
    if red == "mean" and weighted and rng.random() < .6:
        return red, [rng.choice([0., .25, .5, 1., 2.]) for _ in range(n)]
    return red, None


def event(b, red, w, n, margin, eps, v, **kw):
    v = v.detach()
    return dict(b, op="loss", red=red, ws=RV(w or [1.] * n), eps=R(eps),
                margin=R(margin), loss=tick(v), zero=bool(v == 0), **kw)


def discrete(rng, c):
    ev = []
    o = c.o
    for _ in range(4):
        n = rng.choice([1, 2, 3, 3, 5])
        if n == o.nx and n == 1:
            n = 2
        xs = lyap.points(rng, c, n)[:n]
        if rng.random() < .3:
            xs = [[v + rng.choice([-2., 0., 1.]) for v in x] for x in xs]
        margin = rng.choice([0., 0., .125, .5, -.25, 1.])
        eps = rng.choice([0., .125, .5, 1., 1.5])
        red, w = reduction(rng, n)
        kw = dict(R=c.R, reduction=red)
        if margin != 0. or rng.random() < .5:
            kw["margin"] = margin
        if w is not None:
            kw["weight"] = T(w)
        if red == "mean" and rng.random() < .5:
            del kw["reduction"]
        v = c.real.lyapunov_positivity_loss_at_samples(
            c.eq, T(xs), c.lam, eps, **kw)
        b = dict(c.base, type="none")
        ev.append(event(b, red, w, n, margin, eps, v, kind="positivity",
                        xs=[RV(x) for x in xs], ys=[]))
        name = rng.choice(list(c21.TYPES))
        ys = [[nets.dy(rng, 2., 4) for _ in x] for x in xs]
        if rng.random() < .6 and o.kind != "hybrid":
            ys = c.sys.step_forward(T(xs))
            if rng.random() < .6:
                v = c.real.lyapunov_derivative_loss_at_samples(
                    c.lam, eps, T(xs), c.eq, c21.TYPES[name], **kw)
            else:
                v = c.real.\
                    lyapunov_derivative_loss_at_samples_and_next_states(
                        c.lam, eps, T(xs), ys, c.eq, c21.TYPES[name], **kw)
            ys = ys.detach().tolist()
        else:
            v = c.real.lyapunov_derivative_loss_at_samples_and_next_states(
                c.lam, eps, T(xs), T(ys), c.eq, c21.TYPES[name], **kw)
        ev.append(event(dict(b, type=name), red, w, n, margin, eps, v,
                        kind="decrease", xs=[RV(x) for x in xs],
                        ys=[RV(y) for y in ys]))
    return ev


@torch.enable_grad()
def flow(rng, c, hybrid):
    """Continuous time: velocities in place of next states."""
    ev = []
    o = c.o
    for _ in range(3):
        n = rng.choice([1, 2, 3, 3, 5])
        xs = lyap.points(rng, c, n)[:n]
        n = len(xs)
        ys = [[nets.dy(rng, 2., 4) for _ in x] for x in xs]
        margin = rng.choice([0., 0., .125, .5, -.25, 1.])
        eps = rng.choice([0., .125, .5, 1.])
        name, (red, w) = "lower", reduction(rng, n)
        if hybrid:
            name = rng.choice(list(c21.TYPES))
            if red != "mean":
                red, w = "mean", None
        kw = dict(R=c.R, reduction=red, margin=margin)
        if w is not None:
            kw["weight"] = T(w)
        a = (c.lam, eps, T(xs))
        if hybrid and rng.random() < .4:
            if any(c.real.system.mode(T(x)) is None for x in xs):
                continue
            ys = [c.real.system.step_forward(T(x)).tolist() for x in xs]
            v = c.real.lyapunov_derivative_loss_at_samples(
                *a, c.eq, c21.TYPES[name], **kw)
        else:
            v = c.real.lyapunov_derivative_loss_at_samples_and_next_states(
                *a, T(ys), c.eq, c21.TYPES[name], **kw)
        ev.append(event(dict(c.base, type=name,
                             key=c.base["key"] + "-flow"), red, w, n,
                        margin, eps, v, kind="flow", xs=[RV(x) for x in xs],
                        ys=[RV(y) for y in ys]))
    return ev


def barrier(rng, c):
    ev = []
    for _ in range(3):
        n = rng.choice([1, 2, 3, 5])
        xs = lyap.points(rng, c, n)[:n]
        n = len(xs)
        ys = [[nets.dy(rng, 2., 4) for _ in x] for x in xs]
        margin = rng.choice([0., 0., .125, .5, -.25, 1.])
        eps = rng.choice([0., .125, .5, 1., 1.5])
        red, _ = reduction(rng, n, False)
        kw = dict(reduction=red)
        if red == "mean" and rng.random() < .5:
            kw = {}
        if margin or rng.random() < .5:
            kw["margin"] = margin
        v = c.real.derivative_loss_at_samples_and_next_states(
            c.eq, c.c, eps, T(xs), T(ys), **kw)
        ev.append(event(dict(c.base, type="none", L={}, key="barrier"), red,
                        None, n, margin, eps, v, kind="barrier",
                        xs=[RV(x) for x in xs], ys=[RV(y) for y in ys]))
    return ev


def run(ck):
    ck.model("MC_Lyap", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(110, 800)):
        c = lyap.case(rng, True)
        ev += lyap.aged(rng, c, lambda: discrete(rng, c), free=True)
    for rep in range(ck.n(60, 420)):
        for case, f in ((c22.case, lambda c: flow(rng, c, False)),
                        (c23.case, lambda c: flow(rng, c, True)),
                        (c26.case, lambda c: barrier(rng, c))):
            c = case(rng)
            ev += lyap.aged(rng, c, lambda: f(c), free=True)
    ck.stateless("Lyap", ev)
