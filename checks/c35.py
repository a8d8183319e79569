"""Constant-control Runge-Kutta integration."""
import numpy as np
import torch

from lib.core import R, RV, TV
from neural_network_lyapunov.integrator import rk4_constant_control


def dyad(rng, lo, hi, den):
    return rng.randint(lo * den, hi * den) / den


def steady(A, B, c, Q, u, x, dt, steps):
    """Whether rounding every stage to ticks hardly moves the result."""
    def run(r):
        z = np.array(x)
        for _ in range(steps):
            def f(y):
                y = r(y)
                return r(np.array(A) @ y + np.array(B) @ u + np.array(c) +
                         np.array([y @ np.array(q) @ y if q else 0.
                                   for q in Q]))
            k1 = f(z)
            k2 = f(z + dt / 2 * k1)
            k3 = f(z + dt / 2 * k2)
            k4 = f(z + dt * k3)
            z = r(z + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4))
        return z
    z = run(lambda v: v)
    return np.abs(z).max() < 100 and all(
        np.abs(run(lambda v: r(v * 4096) / 4096) - z).max() < 16 / 4096
        for r in (np.floor, np.ceil))


def run(ck):
    ck.model("MC_RK4", wait=False)
    rng = ck.rng
    ev = []
    for k in range(ck.n(240, 1500)):
        n, m = rng.randint(1, 3), rng.randint(1, 2)
        steps = rng.choice([0, 1, 1, 2, 3, 4])
        dt = rng.choice([1., .5, .25, .125, 1 / 16])
        quad = rng.random() < .5 and dt < 1 and steps < 4
        A = [[dyad(rng, -1, 1, 2) for _ in range(n)] for _ in range(n)]
        B = [[dyad(rng, -2, 2, 2) for _ in range(m)] for _ in range(n)]
        c = [dyad(rng, -2, 2, 2) for _ in range(n)]
        Q = [[[dyad(rng, -1, 1, 1) / 4 for _ in range(n)] for _ in range(n)]
             if quad and rng.random() < .7 and r == 0 else []
             for r in range(n)]
        Kc = [[dyad(rng, -1, 1, 2) for _ in range(n)] for _ in range(m)]
        kc = [dyad(rng, -2, 2, 2) for _ in range(m)]
        x0 = [dyad(rng, -2, 2, 4) for _ in range(n)]
        if quad:
            x0 = [v / 2 for v in x0]
        kind = rng.choice(["torch", "numpy"])
        if not steady(A, B, c, Q, np.array(Kc) @ np.array(x0) + np.array(kc),
                      x0, dt, steps):
            continue
        tens = (lambda v: torch.tensor(v, dtype=torch.float64)) \
            if kind == "torch" else np.array
        At, Bt, ct = tens(A), tens(B), tens(c)
        Qt = [tens(q) if q else None for q in Q]
        Kt, kt = tens(Kc), tens(kc)
        asked = []

        def f(x, u):
            d = At @ x + Bt @ u + ct
            return d + (torch.stack if kind == "torch" else np.stack)(
                [x @ q @ x if q is not None else 0. * x[0] for q in Qt])

        def ctl(x):
            asked.append(RV(x))
            return Kt @ x + kt

        x = tens(x0)
        xf, u = rk4_constant_control(f, ctl, x, dt, steps)
        ev.append({"op": "rk4", "key": kind,
                   "d": {"A": RV(A), "B": RV(B), "c": RV(c), "Q": RV(Q)},
                   "p": {"K": RV(Kc), "k": RV(kc)}, "x0": RV(x0),
                   "dt": R(dt), "n": steps, "u": TV(u), "x": TV(xf),
                   "tol": 8 if steps <= 1 else 50, "x0after": RV(x),
                   "asked": [TV([a[0] / a[1] for a in q]) for q in asked]})
    ck.trace("RK4", ev)
