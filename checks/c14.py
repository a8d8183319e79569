"""Cost-to-go samples and partitions of a state-input box."""
import numpy as np
import torch

from lib import hybrid, nets
from lib.core import R, RV, TV, exc_in_repo, tick
from neural_network_lyapunov import hybrid_linear_system as hls

T = nets.t
Stop = hls.AutonomousHybridLinearSystem.StepForwardException


def cost_fn(c):
    Q, w, k = T(c["Q"]), T(c["w"]), c["c"]
    if not any(any(r) for r in c["Q"]) and k == 0. and \
            sorted(c["w"]) == [0.] * (len(c["w"]) - 1) + [1.]:
        j = c["w"].index(1.)
        return lambda x: x[j]   # may return part of its argument
    return lambda x: x @ Q @ x + w @ x + k


def cost(rng, n):
    u = rng.random()
    if u < .25:
        w = [0.] * n
        w[rng.randrange(n)] = 1.
        return {"Q": [[0.] * n] * n, "w": w, "c": 0.}
    return {"Q": [nets.vec(rng, n, 1., 1) if u < .7 else [0.] * n
                  for _ in range(n)], "w": nets.vec(rng, n, 1., 1),
            "c": nets.dy(rng, 1., 1)}


def cspec(c):
    return {"Q": RV(c["Q"]), "w": RV(c["w"]), "c": R(c["c"])}


def pairs(ps):
    return [[RV(x), R(v)] for x, v in ps]


def discrete(ck, ev):
    rng = ck.rng
    for rep in range(ck.n(60, 400)):
        n = rng.choice([1, 2, 2])
        ms, lo, up = hybrid.modes(rng, n, 0, amp=1., overlap=0., gap=.1,
                                  cut=.2)
        for m in ms:
            if rng.random() < .5:
                m["A"] = [[v / 2 for v in r] for r in m["A"]]
        s = hybrid.build(ms, n, 0)
        sp = hybrid.spec(ms)
        c = cost(rng, n)
        f = cost_fn(c)
        H = rng.randint(1, 4)
        zs = [[round(v * 4) / 4 for v in z] for z in
              hybrid.points(rng, ms, lo, up, 6)]
        singles, kw = [], {}
        goal = []
        if rng.random() < .4:
            try:   # a state that is reached
                g = T(zs[0])
                for _ in range(rng.randint(0, 2)):
                    g = s.step_forward(g)
                goal = g.tolist()
            except Stop:
                pass
        g = T(goal) if goal else None
        pr = {"w": [], "c": 0.}
        pf = None
        if rng.random() < .4:
            pr = {"w": nets.vec(rng, n, 1., 1), "c": nets.dy(rng, .5, 2)}
            pw, pc = T(pr["w"]), pr["c"]

            def pf(x):
                return bool(pw @ x > pc)
        base = {"key": "discrete", "sys": sp, "cost": cspec(c), "T": H,
                "goal": RV(goal)}
        prs = {"w": RV(pr["w"]), "c": R(pr["c"])}
        for z in zs:
            x0 = T(z)
            e = dict(base, op="discrete", x0=RV(z), raised=False)
            try:
                tot, xs, cs = hls.compute_discrete_time_system_cost_to_go(
                    s, x0, H, f, g)
                e.update(xs=RV(xs.t()), costs=RV(cs), total=R(tot),
                         x0after=RV(x0))
            except Stop:
                e["raised"] = True
            ev.append(e)
            e = dict(base, op="samples", x0=RV(z), raised=False, pairs=[],
                     prune=prs)
            try:
                e["pairs"] = pairs(hls.generate_cost_to_go_samples(
                    s, [T(z)], H, f, True, g, pf))
            except Exception as ex:
                if not exc_in_repo(ex):
                    raise
                e["raised"] = True
            singles += e["pairs"]
            ev.append(e)
        try:
            p = pairs(hls.generate_cost_to_go_samples(
                s, [T(z) for z in zs], H, f, True, g, pf))
            raised = False
        except Exception as ex:
            if not exc_in_repo(ex):
                raise
            p, raised = [], True
        ev.append({"op": "list", "key": "discrete", "raised": raised,
                   "pairs": sorted(p), "single": sorted(singles)})


def stable(rng, n):
    """Modes on quadrant-like cells; every flow line stays inside."""
    lo, up = [-2.] * n, [2.] * n
    ms = []
    for sg in ([[-1], [1]] if n == 1 else
               [[a, b] for a in (-1, 1) for b in (-1, 1)]):
        P, q = [], []
        for j in range(n):
            r = [0.] * n
            r[j] = float(sg[j])
            P.append(r)
            q.append(2.)
            P.append([-v for v in r])
            q.append(0.)
        A = [[0.] * n for _ in range(n)]
        for j in range(n):
            A[j][j] = -rng.choice([.25, .5, 1.])
        ms.append({"A": A, "c": [0.] * n, "P": P, "q": q})
    return ms, lo, up


def continuous(ck, ev):
    rng = ck.rng
    for rep in range(ck.n(16, 120)):
        n = rng.choice([1, 2])
        leave = rng.random() < .3
        ms, lo, up = stable(rng, n)
        if leave:
            for m in ms:
                m["A"] = [[-2 * v for v in r] for r in m["A"]]
        elif n == 2 and rng.random() < .5:
            # rotation with contraction: still inside for these states
            for m in ms:
                m["A"] = [[-.5, 1.], [-1., -.5]]
        s = hybrid.build(ms, n, 0)
        H = rng.choice([.5, 1., 2.]) if not leave else 8.
        kind = rng.choice(["time", "linear", "quad"])
        w = nets.vec(rng, n, 1., 1)
        Q = [nets.vec(rng, n, 1., 1) for _ in range(n)]

        def f(x):
            d = s.step_forward(x)
            if kind == "time":
                return torch.tensor(1., dtype=nets.F64)
            if kind == "linear":
                return -(T(w) @ d)
            return -(d @ T(Q) @ x + x @ T(Q) @ d)
        z = [rng.choice([-1., -.75, -.5, .5, .75, 1.]) for _ in range(n)]
        goal = []
        if not leave and rng.random() < .4:
            _, xt, _, sol = hls.compute_continuous_time_system_cost_to_go(
                s, T(z), H, f)
            k = xt.shape[1] // 2
            goal = xt[:, k].tolist() if rng.random() < .7 else [.125] * n
        g = T(goal) if goal else None
        base = {"key": "continuous", "kind": kind, "w": RV(w), "Q": RV(Q),
                "x0": TV(z), "T": tick(H), "goal": TV(goal)}
        raised, count, same = False, 0, True
        if not leave:
            tot, xt, ct, sol = hls.compute_continuous_time_system_cost_to_go(
                s, T(z), H, f, g)
            ev.append(dict(base, op="flow", xs=TV(xt.t()), costs=TV(ct),
                           total=tick(tot), ts=TV(np.asarray(sol.t))))
        try:
            ps = hls.generate_cost_to_go_samples(s, [T(z)], H, f, False, g)
            count = len(ps)
            if not leave:
                same = [(TV(a), tick(b)) for a, b in ps] == \
                    [(TV(a), tick(b)) for a, b in zip(xt.t(), ct)]
        except Exception as ex:
            if not exc_in_repo(ex):
                raise
            raised = True
        ev.append({"op": "flowlist", "key": "continuous", "leaves": leave,
                   "raised": raised, "count": count, "same": same})


def partition(ck, ev):
    rng = ck.rng
    for rep in range(ck.n(16, 100)):
        nx, nu = rng.choice([(1, 1), (2, 1), (1, 2), (2, 2)])
        n = nx + nu
        lo, up = nets.box(rng, n)
        br = [rng.randint(1, 4 if n < 4 else 3) for _ in range(n)]
        d = [rng.choice([0., 0., .25, .5, -.125, 1.5]) for _ in range(n)]

        def i(v):
            return torch.tensor(v, dtype=torch.int)
        o = hls.partition_state_input_space(
            T(lo[:nx]), T(up[:nx]), T(lo[nx:]), T(up[nx:]), i(br[:nx]),
            i(br[nx:]), T(d[:nx]), T(d[nx:]))
        sx, su, xl, xu, ul, uu = o
        rows = zip(torch.cat((sx, su), 1), torch.cat((xl, ul), 1),
                   torch.cat((xu, uu), 1))
        ev.append({"op": "partition", "key": "partition", "nx": nx,
                   "box": {"lo": RV(lo), "up": RV(up), "n": br, "d": RV(d)},
                   "cells": [[TV(a), TV(b), TV(c)] for a, b, c in rows]})


def run(ck):
    ck.model("MC_Cost", wait=False)
    ev = []
    discrete(ck, ev)
    continuous(ck, ev)
    partition(ck, ev)
    ck.rng.shuffle(ev)
    ck.stateless("Cost", ev)
