"""Simulator sample generation against a simulator with exact motion."""
import os
import sys

import numpy as np
import torch

from lib import core
from lib.core import R, RV, TV

sys.path.insert(0, os.path.join(core.VERIF, "shim_pb"))
import pybullet as pb  # noqa: E402
import neural_network_lyapunov.pybullet_data_generation as pdg  # noqa: E402


def dyad(rng, lo, hi, den):
    return rng.randint(lo * den, hi * den) / den


def img(X):
    return TV(X.to(torch.float64) * 255.)


def run(ck):
    rng = ck.rng
    sessions = []
    dts = [[1, 10], [1, 20], [1, 40], [1, 60], [31, 120], [1, 50], [7, 240],
           [1, 240]]
    for k in range(ck.n(14, 60)):
        kind = ["joint", "joint", "base"][k % 3]
        n = [1, 2, 3][(k // 3) % 3]
        gray = k % 2 == 0
        size = rng.choice([1, 2, 3])
        dtype = torch.float64 if k % 5 else torch.float32
        g = pdg.PybulletSampleGenerator(
            lambda p: pb.fresh(kind, n), kind == "joint", image_width=size,
            image_height=size, grayscale=gray, dtype=dtype)
        key = "%s%d" % (kind, n if kind == "joint" else 0)
        ev = [{"op": "setup", "clock0": pb.W.saved[max(pb.W.saved)][2]
               if pb.W.saved else -1, "size": size, "gray": gray,
               "motors": sorted(j for j, f in pb.W.motors.items() if f == 0),
               "joints": n if kind == "joint" else 0,
               "gravity": TV(pb.W.gravity), "hz": TV(1 / pb.W.timestep),
               "key": key}]
        dim = 2 * n if kind == "joint" else 12
        vmax = 2

        def state():
            x = [dyad(rng, -vmax, vmax, 4) for _ in range(dim)]
            return x

        def tens(x):
            return torch.tensor(x, dtype=dtype)

        for _ in range(2):
            x0 = state()
            dt = rng.choice(dts)
            x, X, Xn = g.generate_sample(tens(x0), dt[0] / dt[1])
            ev.append({"op": "sample", "x0": RV(x0), "dt": dt, "x": TV(x),
                       "X": img(X), "Xn": img(Xn), "key": key,
                       "inunit": bool((X >= 0).all() and (X <= 1).all() and
                                      X.dtype == dtype and
                                      Xn.dtype == dtype and x.dtype == dtype
                                      )})
        x0, dt, N = state(), rng.choice(dts[:4]), rng.choice([1, 2, 3])
        xs, Xs = g.generate_rollout(tens(x0), dt[0] / dt[1], N)
        ev.append({"op": "rollout", "x0": RV(x0), "dt": dt, "n": N,
                   "x": TV(xs), "X": [img(a) for a in Xs], "key": key})
        nr = rng.choice([1, 2])
        # a box of one point, and a normal of no spread (clamped to the box)
        for mode in ("point", "mean", "meanclamp"):
            x0 = state()
            N = rng.choice([1, 2, 3, 3])
            dt = rng.choice(dts[:4])
            dtf = dt[0] / dt[1]
            if mode == "point":
                r = g.generate_dataset(tens(x0), tens(x0), dtf, N, nr)
            else:
                lo = [a - 1 for a in x0]
                up = [a + 1 for a in x0]
                mean = list(x0)
                if mode == "meanclamp":
                    for j in range(dim):
                        d = rng.choice([-3, 0, 3])
                        mean[j] = x0[j] + d
                        x0[j] = min(max(mean[j], lo[j]), up[j])
                r = g.generate_dataset(tens(lo), tens(up), dtf, N, nr,
                                       x_mean=tens(mean),
                                       x_std=tens([0.] * dim))
            ev.append({"op": "dataset", "starts": [RV(x0)] * nr, "n": N,
                       "dt": dt, "x": TV(r[0]), "xn": TV(r[1]),
                       "X": [img(a) for a in r[2]],
                       "Xn": [img(a) for a in r[3]], "key": key})
        lo = [dyad(rng, -2, 0, 2) for _ in range(dim)]
        up = [a + dyad(rng, 1, 2, 2) for a in lo]
        torch.manual_seed(ck.seed * 100 + k)
        r = g.generate_dataset(tens(lo), tens(up), .05, 2, 40)
        ev.append({"op": "box", "n": 2, "lo": RV(lo), "up": RV(up), "dt": [1, 20],
                   "x": TV(r[0]), "xn": TV(r[1]), "spread": True,
                   "key": key})
        r = g.generate_dataset(tens(lo), tens(up), .05, 2, 40,
                               x_mean=tens([0.] * dim),
                               x_std=tens([4.] * dim))
        ev.append({"op": "box", "n": 2, "lo": RV(lo), "up": RV(up), "dt": [1, 20],
                   "x": TV(r[0]), "xn": TV(r[1]), "spread": True,
                   "key": key})
        starts = [state() for _ in range(2)]
        xs, Xs = g.data_to_rollouts(tens(starts), .05, 2)
        ev.append({"op": "rollouts", "starts": RV(starts), "dt": [1, 20],
                   "n": 2, "xs": [TV(a) for a in xs],
                   "Xs": [[img(b) for b in a] for a in Xs], "key": key})
        sessions.append(ev)
        del g
    sessions.append(extras(ck))
    ck.sessions("Sim", sessions)


def extras(ck):
    rng = ck.rng
    ev = []
    for k in range(6):
        torch.manual_seed(k)
        n, d = 400, rng.choice([1, 2, 3])
        x = torch.tensor([[dyad(rng, -2, 2, 4) for _ in range(d)]
                          for _ in range(n)], dtype=torch.float64)
        x[:, 0] *= 3
        x0 = x.clone()
        pct = torch.tensor([rng.choice([0., .5, 2.]) for _ in range(d)],
                           dtype=torch.float64)
        out = pdg.add_noise(x, pct)
        sd = pct * x0.abs().mean(dim=0)
        z = out - x0
        ok = all(sd[j] == 0 or (
            abs(z[:, j].std() / sd[j] - 1) < .25 and
            abs(z[:, j].mean()) < .25 * sd[j]) for j in range(d))
        # independent across rows and columns
        if ok and d > 1 and all(sd > 0):
            c = np.corrcoef(z.numpy().T)
            ok = bool(abs(c - np.eye(d)).max() < .3)
        ev.append({"op": "noise", "x": TV(x0[:20]), "out": TV(out[:20]),
                   "xafter": TV(x[:20]), "key": "noise",
                   "zero": [bool(p == 0) for p in pct], "scaleok": bool(ok)})
    for k in range(6):
        torch.manual_seed(k)
        n, bs = rng.choice([(7, 3), (8, 4), (5, 10), (30, 7)])
        x = torch.arange(n * 2, dtype=torch.float64).reshape(n, 2)
        y = -torch.arange(n, dtype=torch.float64).reshape(n, 1) - 1
        got, sizes, first = [], [], []
        orders = []
        for rep in range(3):
            got, sizes = [], []
            for a, b in pdg.get_dataloader(x, y, bs):
                sizes.append(a.shape[0])
                got += [RV(torch.cat((p, q))) for p, q in zip(a, b)]
            orders.append(str(got))
        pairs = [RV(torch.cat((p, q))) for p, q in zip(x, y)]
        ev.append({"op": "loader", "pairs": pairs, "got": got,
                   "sizes": sizes, "bs": bs, "key": "loader",
                   "shuffled": any(o != str(pairs) for o in orders)})
    import matplotlib.pyplot as plt
    shown = []
    real = plt.imshow

    def fake(a, *args, **kw):
        shown.append(np.array(a))
        return real(a, *args, **kw)
    plt.imshow = fake
    try:
        for ch in (1, 2, 3, 6):
            for clamp in (False, True):
                for nxt in (False, True):
                    if nxt and ch in (1, 3):
                        continue
                    scale = 3. if clamp else 1.
                    X = torch.rand(ch, 4, 5, dtype=torch.float64) * scale
                    Xn = torch.rand(1 if ch < 3 else 3, 4, 5,
                                    dtype=torch.float64) * scale
                    shown.clear()
                    ok = True
                    try:
                        pdg.show_sample(X, Xn if nxt else None, clamp=clamp)
                    except Exception:
                        ok = False
                    c = 1 if ch < 3 else 3
                    exp = [X[:c]] + ([X[c:]] if ch in (2, 6) else []) + (
                        [Xn] if nxt else [])
                    exp = [e.clamp(0, 1) if clamp else e for e in exp]
                    ok = ok and len(exp) == len(shown) and all(
                        np.array_equal(e.numpy().transpose(1, 2, 0), s)
                        for e, s in zip(exp, shown))
                    ev.append({"op": "show", "ok": bool(ok),
                               "key": "show%d%d%d" % (ch, clamp, nxt)})
                    plt.close("all")
        try:
            pdg.show_sample(torch.rand(4, 4, 5))
            ok = False
        except NotImplementedError:
            ok = True
        ev.append({"op": "show", "ok": ok, "key": "show-unsupported"})
    finally:
        plt.imshow = real
    g = pdg.PybulletSampleGenerator(
        lambda p: pb.fresh("joint", 1), True, image_width=3, image_height=2)
    try:
        x, X, Xn = g.generate_sample(torch.zeros(2, dtype=g.dtype), .1)
        ok = X.shape == (6, 3, 2) and Xn.shape == (3, 3, 2)
    except Exception:
        ok = False
    ev.append({"op": "nonsquare", "ok": ok, "key": "nonsquare"})
    return ev
