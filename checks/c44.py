"""Physical vehicle models: equations of motion, derivatives, equilibria."""
import math
from fractions import Fraction

import numpy as np
import torch

from lib.core import TV, tick
from neural_network_lyapunov.examples.car import acceleration_car, unicycle
from neural_network_lyapunov.examples.pendulum import pendulum
from neural_network_lyapunov.examples.pole import pole
from neural_network_lyapunov.examples.quadrotor2d import quadrotor_2d
from neural_network_lyapunov.examples.quadrotor3d import quadrotor
from neural_network_lyapunov.examples.rocket import rocket

F64 = torch.float64
MODELS = ["pendulum", "unicycle", "car", "quad2d", "rocket", "rocket2",
          "quad3d", "pole"]
SIZES = {"pendulum": (2, 1), "unicycle": (3, 2), "car": (4, 2),
         "quad2d": (6, 2), "rocket": (6, 2), "rocket2": (6, 2),
         "quad3d": (12, 4), "pole": (7, 3)}
ANGLES = {"pendulum": [0], "unicycle": [2], "car": [2], "quad2d": [2],
          "rocket": [2], "rocket2": [2], "quad3d": [3, 4, 5]}


def t(v):
    return torch.tensor(v, dtype=F64)


def rat(v):
    f = Fraction(repr(float(v))).limit_denominator(100000)
    return [f.numerator, f.denominator]


def dy(rng, a, b, d=64):
    return rng.randint(int(a * d), int(b * d)) / d


class Model:
    def __init__(self, rng, name):
        self.name = name
        self.nx, self.nu = SIZES[name]
        p = {}
        if name == "pendulum":
            o = pendulum.Pendulum(F64)
            if rng.random() < .5:
                o.mass, o.length = rng.choice([.5, 2.]), rng.choice([.5, 1.5])
                o.damping = rng.choice([0., .25])
            p = {"m": o.mass, "l": o.length, "g": o.gravity, "b": o.damping}
        elif name == "unicycle":
            o = unicycle.Unicycle(F64)
        elif name == "car":
            o = acceleration_car.AccelerationCar(F64)
        elif name == "quad2d":
            o = quadrotor_2d.Quadrotor2D(F64)
            if rng.random() < .5:
                o.mass, o.length, o.inertia = .75, .5, .25
            p = {"m": o.mass, "l": o.length, "g": o.gravity, "I": o.inertia}
        elif name in ("rocket", "rocket2"):
            o = rocket.Rocket() if name == "rocket" else rocket.Rocket2()
            if rng.random() < .5:
                o.mass, o.length, o.inertia = .75, 1.5, .25
            p = {"m": o.mass, "l": o.length, "g": o.gravity, "I": o.inertia}
        elif name == "quad3d":
            o = quadrotor.Quadrotor(F64)
            if rng.random() < .5:
                o.mass, o.arm_length = .75, .5
                o.inertia = np.array(rng.choice(
                    [[.25, .5, .75], [.5, .25, .5], [.5, .75, .25]]))
            p = {"m": o.mass, "l": o.arm_length, "g": o.gravity,
                 "k": o.z_torque_to_force_factor}
        else:
            o = pole.Pole(rng.choice([.5, 1., 2.]), rng.choice([1., 2., 3.]),
                          rng.choice([1., 1.5]))
            p = {"ms": o.m_sphere, "me": o.m_ee, "g": o.gravity}
        self.o = o
        self.p = {k: rat(v) for k, v in p.items()}
        if name == "quad3d":
            self.p["I"] = [rat(v) for v in o.inertia]
        if not p:
            self.p = {"none": [0, 1]}

    def state(self, rng):
        n = self.name
        x = [dy(rng, -2, 2) for _ in range(self.nx)]
        u = [dy(rng, -3, 3) for _ in range(self.nu)]
        for k in ANGLES.get(n, []):
            x[k] = rng.choice([0., dy(rng, -.5, .5), dy(rng, -3, 3)])
        if n == "quad3d":
            x[4] = dy(rng, -1, 1)
            u = [dy(rng, 0, 3) for _ in u]
        if n == "pole":
            m = .4 * self.o.length
            x[:2] = [dy(rng, -m, m), dy(rng, -m, m)]
            u[2] = dy(rng, 0, 30)
        return x, u

    def height(self, x):
        return math.sqrt(self.o.length**2 - x[0]**2 - x[1]**2)

    def f(self, x, u):
        return self.o.dynamics(np.array(x, dtype=float),
                               np.array(u, dtype=float))

    def ft(self, x, u):
        """The derivative as a tensor; None where tensors are refused."""
        try:
            return self.o.dynamics(t(list(x)), t(list(u)))
        except RuntimeError:
            return None

    def sc(self, x):
        if self.name == "pole":
            return [], [tick(self.height(x))]
        return ([tick(math.sin(x[k])) for k in ANGLES[self.name]],
                [tick(math.cos(x[k])) for k in ANGLES[self.name]])

    def linear(self, x, u):
        """(name, A, B) of the model's own linear models."""
        o, n = self.o, self.name
        X, U = np.array(x, dtype=float), np.array(u, dtype=float)
        if n == "pendulum":
            yield (n,) + tuple(o.dynamics_gradient(t(x)))
        elif n == "unicycle":
            yield (n,) + tuple(o.dynamics_gradient(X, U))
            yield (n + "-tensor",) + tuple(o.dynamics_gradient(t(x), t(u)))
        elif n == "quad2d":
            yield (n,) + tuple(o.linearized_dynamics(X, U))
            yield (n + "-tensor",) + tuple(
                o.linearized_dynamics(t(x), t(u)))
        elif n in ("rocket", "rocket2"):
            yield (n,) + tuple(o.linearized_dynamics(X, U))
        elif n == "quad3d":
            yield (n,) + tuple(o.dynamics_gradient(X, U))
        elif n == "pole":
            yield (n,) + tuple(o.gradient(t(x), t(u)))
        if self.ft(x, u) is not None:
            yield (n + "-autograd",) + tuple(
                torch.autograd.functional.jacobian(
                    o.dynamics, (t(x), t(u))))


def clamp(v, m=4000.):
    v = np.asarray([float(q) for q in v])
    return [max(-m, min(m, q)) if q == q else 77777. for q in v]


def many(M):
    if isinstance(M, torch.Tensor):
        M = M.detach().numpy()
    return clamp(np.asarray(M, dtype=float).reshape(-1))


def slopes(m, x, u, h=2.**-9):
    z = np.array(list(x) + list(u))
    cols = []
    for k in range(len(z)):
        e = np.zeros(len(z))
        e[k] = h

        def q(s):
            a, b = z + s * e, z - s * e
            return (m.f(a[:m.nx], a[m.nx:]) - m.f(b[:m.nx], b[m.nx:])) / (
                2 * s * h)
        # without the error of order h^2
        cols.append((4 * q(.5) - q(1.)) / 3)
    return np.array(cols).T


def one(rng, m):
    ev = []
    for _ in range(4):
        x, u = m.state(rng)
        s, c = m.sc(x)
        X, U = np.array(x), np.array(u)
        Xt, Ut = t(x), t(u)
        d = m.o.dynamics(X, U)
        try:
            dt = m.o.dynamics(Xt, Ut)
        except RuntimeError:
            dt = None
        ev.append(dict(op="takes", key=m.name, ok=dt is not None))
        if dt is None:
            dt = t(d.tolist())
        tol = {"pole": 60, "quad3d": 40}.get(m.name, 24)
        b = dict(key=m.name, model=m.name, p=m.p, x=TV(x), u=TV(u), s=s, c=c,
                 tol=tol)
        ev.append(dict(b, op="rate", d=TV(clamp(d)),
                       dt=TV(clamp(dt.detach().numpy()))))
        J = slopes(m, x, u)
        tol = 12 + int(np.abs(J).max() / 8)
        for name, A, B in m.linear(x, u):
            for what, got, want in (("A", A, J[:, :m.nx]),
                                    ("B", B, J[:, m.nx:])):
                ev.append(dict(op="slope", key=name + "-" + what, tol=tol,
                               got=TV(many(got)), want=TV(many(want))))
        ev.append(dict(op="kept", key=m.name, ok=bool(
            X.tolist() == x and U.tolist() == u and Xt.tolist() == x and
            Ut.tolist() == u)))
        if m.name == "pendulum":
            for kind, y in (("array", X), ("tensor", Xt)):
                ev.append(dict(b, op="energy", key=kind,
                               kin=tick(float(m.o.kinetic_energy(y))),
                               pot=tick(float(m.o.potential_energy(y)))))
            g = np.array([math.pi, 0.])
            E = m.o.kinetic_energy(X) + m.o.potential_energy(X) - \
                m.o.potential_energy(g)
            k = m.o.energy_shaping_control(X, g, rng.choice([.5, 1., 2.]))
            ev.append(dict(op="brake", key="shaping", ex=tick(float(E)),
                           w=tick(x[1]), u=tick(float(k[0]))))
    return ev


def rest(rng, m):
    o, n = m.o, m.name
    x, u = [0.] * m.nx, [0.] * m.nu
    if n == "pendulum":
        x[0] = rng.choice([0., math.pi, -math.pi])
    elif n in ("unicycle", "car"):
        x[:3] = [dy(rng, -2, 2) for _ in range(3)]
    elif n == "quad2d":
        x[:2] = [dy(rng, -2, 2) for _ in range(2)]
        u = o.u_equilibrium.tolist()
    elif n in ("rocket", "rocket2"):
        x[:2] = [dy(rng, -2, 2) for _ in range(2)]
        u = [0., o.hover_thrust]
    elif n == "quad3d":
        x[:3] = [dy(rng, -2, 2) for _ in range(3)]
        x[5] = dy(rng, -3, 3)
        if o.mass == quadrotor.Quadrotor(F64).mass:
            u = [o.hover_thrust] * 4
        else:
            u = [o.mass * o.gravity / 4] * 4
    else:
        u[2] = (o.m_ee + o.m_sphere) * o.gravity
    vs = [m.f(x, u)]
    if m.ft(x, u) is not None:
        vs.append(m.ft(x, u).detach().numpy())
    return [dict(op="rest", key=n, d=TV(clamp(v))) for v in vs]


def pose(rng):
    ev = []
    o = unicycle.Unicycle(F64)
    x = [dy(rng, -2, 2), dy(rng, -2, 2), dy(rng, -3, 3)]
    v, w = dy(rng, -2, 2), dy(rng, .25, 2) * rng.choice([-1, 1])
    h = rng.choice([.125, .25, .5])
    kinds = [np.array, t]
    for k in kinds:
        th = [x[2], x[2] + w * h]
        ev.append(dict(op="arc", key="unicycle", x=TV(x), v=tick(v),
                       w=tick(w), t=tick(h), s=TV([math.sin(a) for a in th]),
                       c=TV([math.cos(a) for a in th]), tol=24,
                       got=TV(clamp(o.next_pose(k(x), k([v, w]), h)))))
        ev.append(dict(op="glide", key="unicycle-straight", x=TV(x), tol=8,
                       v=TV([v * math.cos(x[2]), v * math.sin(x[2]), 0.]),
                       a=[0, 0, 0], t=tick(h),
                       got=TV(clamp(o.next_pose(k(x), k([v, 0.]), h)))))
    o = acceleration_car.AccelerationCar(F64)
    a = dy(rng, -2, 2)
    ev.append(dict(op="glide", key="car-straight", x=TV(x), tol=8,
                   v=TV([v * math.cos(x[2]), v * math.sin(x[2]), 0.]),
                   a=TV([a * math.cos(x[2]), a * math.sin(x[2]), 0.]),
                   t=tick(h), got=TV(clamp(o.next_pose(
                       np.array(x + [v]), np.array([0., a]), h)))))
    o = quadrotor_2d.Quadrotor2D(F64)
    z = x + [dy(rng, -2, 2), dy(rng, -2, 2), 0.]
    u = [dy(rng, 0, 3)] * 2
    F = 2 * u[0] / o.mass
    acc = [-F * math.sin(x[2]), F * math.cos(x[2]) - o.gravity, 0.]
    for k in kinds:
        r = clamp(o.next_pose(k(z), k(u), h))
        ev.append(dict(op="glide", key="quad2d-flight", x=TV(z[:3]), tol=12,
                       v=TV(z[3:]), a=TV(acc), t=tick(h), got=TV(r[:3])))
        ev.append(dict(op="glide", key="quad2d-velocity", x=TV(z[3:]),
                       tol=12, v=TV(acc), a=[0, 0, 0], t=tick(h),
                       got=TV(r[3:])))
    return ev


def feedback(rng):
    ev = []
    o = pendulum.Pendulum(F64)
    Q = np.diag([rng.choice([1., 2., 10.]), rng.choice([.5, 1., 4.])])
    R = np.array([[rng.choice([.5, 1., 2.])]])
    Kg = np.asarray(o.lqr_control(Q, R)).reshape(1, 2)
    # the motion around upright under u = K (x - x*), from the dynamics
    e = 2.**-10
    M = []
    for d in ([e, 0.], [0., e]):
        f = [o.dynamics(np.array([math.pi + s * d[0], s * d[1]]),
                        Kg @ np.array(d) * s) for s in (1, -1)]
        M.append((f[0] - f[1]) / (2 * e))
    ev.append(dict(op="stable", key="pendulum-lqr",
                   M=[TV(clamp(v, 90.)) for v in np.array(M).T]))
    q = quadrotor_2d.Quadrotor2D(F64)
    x, u = np.zeros(6), q.u_equilibrium.numpy()
    Q = np.diag([rng.choice([1., 4., 10.]) for _ in range(6)])
    R = np.diag([rng.choice([.5, 1., 2.]) for _ in range(2)])
    for k in (np.array, t):
        G, S = q.lqr_control(Q, R, k(x.tolist()), k(u.tolist()))
        m = Model(rng, "quad2d")
        m.o = q
        J = slopes(m, x.tolist(), u.tolist())
        A, B = J[:, :6], J[:, 6:]
        # x'Sx is the cost to go of u = K x: its rate is minus the stage cost
        L = S @ (A + B @ G)
        D = L + L.T
        W = Q + G.T @ R @ G
        s = max(1., np.abs(W).max() / 16)
        for what, got, want in (
                ("regulator-cost-decreases-by-the-stage-cost", D / s, -W / s),
                ("regulator-is-stationary", R @ G, -B.T @ S)):
            s2 = max(1., np.abs(want).max() / 16)
            ev.append(dict(op="balance", key="quad2d-lqr", what=what, tol=24,
                           got=TV(many(got / s2)), want=TV(many(want / s2))))
    return ev


def run(ck):
    ck.model("MC_Body", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(20, 200)):
        for name in MODELS:
            m = Model(rng, name)
            ev += one(rng, m) + rest(rng, m)
        ev += pose(rng)
        if rep % 4 == 0:
            ev += feedback(rng)
    ck.stateless("Body", ev)
