"""The learned vehicle models of the examples, with exact parameters."""
import inspect

import numpy as np
import torch

from lib import nets, systems
from lib.core import R, RV
from lib.systems import M, Sys, T
from neural_network_lyapunov import relu_system, r_options
from neural_network_lyapunov.examples.car import acceleration_car, unicycle, \
    unicycle_feedback_system
from neural_network_lyapunov.examples.pendulum import pendulum
from neural_network_lyapunov.examples.pole import pole_relu_system
from neural_network_lyapunov.examples.quadrotor2d import quadrotor_2d
from neural_network_lyapunov.examples.quadrotor3d import quadrotor, \
    quadrotor_feedback_system

PI = 3217 / 1024
KINDS = ["pendulum", "quad2d", "accel", "uni", "unizero", "pixhawk",
         "quad3d", "pole"]


def pick(n, cols):
    """Rows that read the coordinates cols of n."""
    return [[float(k == c) for k in range(n)] for c in cols]


def zeros(r, c):
    return [[0.] * c for _ in range(r)]


def eyes(n, m, pairs):
    """n x m, with entries (row, column, value) added."""
    A = zeros(n, m)
    for r, c, v in pairs:
        A[r][c] += v
    return A


def boxes(rng, n, low=()):
    """A box around zero; low: coordinates whose lower end is zero."""
    lo = [rng.choice([-2., -1., -1., -.5]) for _ in range(n)]
    up = [rng.choice([.5, 1., 1., 2.]) for _ in range(n)]
    for k in low:
        lo[k] = 0.
    return lo, up


def completed(o):
    """What the recorded findings about joining vehicles into a closed loop
    leave out is supplied here, so that the rest is still looked at.  The
    findings themselves are reported by probe()."""
    orig = o.real.add_dynamics_constraint
    takes = inspect.signature(orig).parameters
    # with a relaxed program: the variables' type is an argument, and the
    # bounds needed for strengthening are returned
    o.relaxes = "binary_var_type" in takes and o.name != "unizero"

    def add(mip, x_var, x_next_var, u_var, *args, **kw):
        for k in ("u_input_prog", "binary_var_type"):
            if k not in takes:
                kw.pop(k, None)
        ret = orig(mip, x_var, x_next_var, u_var, *args, **kw)
        if isinstance(ret, tuple):
            ret = relu_system.ReLUDynamicsConstraintReturn(*ret)
        elif o.name == "quad2d":
            ret.nn_input = list(x_var)[2:3] + list(u_var)
        return ret
    o.real.add_dynamics_constraint = add


def probe(rng, kind, base):
    """Whether a vehicle can be joined into a closed loop as it is."""
    ev = []
    for relaxed in (False, True):
        o = vehicle(rng, kind, False)
        fb, _, _, _ = systems.controller(rng, o)
        m = base.mip()
        x_, y_ = base.free(m, o.nx, "x"), base.free(m, o.nx, "y")
        what = ""
        try:
            u_, fr, cr = fb.add_dynamics_mip_constraint(
                m, x_, y_, "u", "fs", "fb", "cs", "cb",
                binary_var_type=base.RELAX if relaxed else base.GRB.BINARY)
            if relaxed:
                m.setObjective([T([1.] * o.nx)], [list(y_)], constant=0.,
                               sense=base.GRB.MAXIMIZE)
                m.gurobi_model.optimize()
                if m.gurobi_model.status == base.GRB.Status.OPTIMAL:
                    fb.strengthen_dynamics_constraint(m, fr, cr)
        except Exception as e:
            what = "%s: %s" % (type(e).__name__, str(e)[:200])
        # the keywords every forward system is given by a closed loop
        why = "keyword-refused" if what.startswith("TypeError") and (
            "'u_input_prog'" in what or "'binary_var_type'" in what) else \
            "raises" if what else ""
        ev.append(dict(op="joins", key=kind + (
            "-relaxed" if relaxed else "-exact"), what=what, why=why))
    return ev


def vehicle(rng, kind=None, supply=True):
    o = Sys()
    o.kind, o.name = "vehicle", kind or rng.choice(KINDS)
    o.dt = rng.choice([.5, .25, .125])
    o.disc, tol = True, 0
    sizes = {"pendulum": (2, 1, 3, 1), "quad2d": (6, 2, 3, 3),
             "accel": (4, 2, 4, 2), "uni": (3, 2, 3, 2),
             "unizero": (3, 2, 3, 2), "pixhawk": (9, 4, 7, 6),
             "quad3d": (12, 4, 10, 9), "pole": (7, 3, 7, 5)}
    o.nx, o.nu, nin, nout = sizes[o.name]
    rate = rng.random() < .5    # the network reads the turning rate
    if o.name in ("uni", "unizero") and not rate:
        nin = 2
    hid = [rng.randint(1, 3) for _ in range(2 if rng.random() < .3 else 1)]
    o.net = nets.net(rng, [nin] + hid + [nout], bias=rng.random() < .8)
    o.lo, o.up = boxes(rng, o.nx)
    o.ulo, o.uup = boxes(rng, o.nu, [0] if o.name in (
        "uni", "unizero") and rng.random() < .5 else [])
    o.xs, o.us = [0.] * o.nx, [0.] * o.nu
    nz = o.nx + o.nu
    u0 = o.nx
    a = [T(o.lo), T(o.up), T(o.ulo), T(o.uup), o.net]
    h, F = o.dt, nets.F64
    second = None
    if o.name == "pendulum":
        o.disc, tol, o.xs = False, 4, [PI, 0.]
        o.lo[0], o.up[0] = rng.choice([(2., 4.), (3., 5.), (-1., 4.)])
        a[0], a[1] = T(o.lo), T(o.up)
        o.real = pendulum.PendulumReluContinuousTime(F, *a)
        reads, A, S = [0, 1, 2], eyes(2, nz, [(0, 1, 1.)]), [[0.], [1.]]
    elif o.name == "quad2d":
        o.disc = False
        o.us = systems.inside(rng, o.ulo, o.uup)
        o.real = quadrotor_2d.QuadrotorReluContinuousTime(F, *a, T(o.us))
        reads = [2, 6, 7]
        A = eyes(6, nz, [(k, 3 + k, 1.) for k in range(3)])
        S = zeros(3, 3) + pick(3, range(3))
    elif o.name == "accel":
        o.real = acceleration_car.AccelerationCarReLUModel(F, *a, h)
        reads = [2, 3, 4, 5]
        A = eyes(4, nz, [(k, k, 1.) for k in range(4)] +
                 [(2, 4, h), (3, 5, h)])
        S = pick(2, range(2)) + zeros(2, 2)
    elif o.name in ("uni", "unizero"):
        c = unicycle.UnicycleReLUModel if o.name == "uni" else \
            unicycle.UnicycleReLUZeroVelModel
        o.real = c(F, *a, h, rate)
        reads = [2, 3, 4][:nin]
        A = eyes(3, nz, [(k, k, 1.) for k in range(3)] + [(2, 4, h)])
        S = pick(2, range(2)) + zeros(1, 2)
        if o.name == "unizero":
            second = pick(nz, reads)
            second[1] = [0.] * nz
    elif o.name == "pixhawk":
        o.us = [0., 0., 0., rng.choice([.25, .5])]
        o.real = quadrotor.QuadrotorWithPixhawkReLUSystem(F, *a, o.us[3], h)
        reads = [3, 4, 5] + list(range(u0, nz))
        A = eyes(9, nz, [(k, k, 1.) for k in range(9)] +
                 [(k, 6 + k, h) for k in range(3)])
        S = eyes(9, 6, [(6 + k, k, 1.) for k in range(3)] +
                 [(3 + k, 3 + k, 1.) for k in range(3)] +
                 [(k, k, h / 2) for k in range(3)])
    elif o.name == "quad3d":
        o.us = [rng.choice([.25, .5])] * 4
        o.real = quadrotor.QuadrotorReLUSystem(F, *a, o.us[0], h)
        o.real.network_bound_propagate_method = rng.choice(
            [M.IA, M.LP, M.MIP])
        reads = [3, 4, 5, 9, 10, 11] + list(range(u0, nz))
        A = eyes(12, nz, [(k, k, 1.) for k in (0, 1, 2, 6, 7, 8)] +
                 [(k, 6 + k, h) for k in range(3)])
        S = eyes(12, 9, [(3 + k, k, 1.) for k in range(9)] +
                 [(k, 3 + k, h / 2) for k in range(3)])
    else:
        o.us = [0., 0., rng.choice([-.25, .25, .5])]
        o.real = pole_relu_system.PoleReluSystem(*a, h, o.us[2])
        o.real.network_bound_propagate_method = rng.choice(
            [M.IA, M.LP, M.MIP])
        reads = [0, 1, 5, 6] + list(range(u0, nz))
        A = eyes(7, nz, [(k, k, 1.) for k in range(7)] +
                 [(0, 5, h), (1, 6, h)])
        S = eyes(7, 5, [(2 + k, k, 1.) for k in range(5)] +
                 [(0, 3, h / 2), (1, 4, h / 2)])
    if o.name in ("pendulum", "quad2d"):
        o.real.network_bound_propagate_method = rng.choice(
            [M.IA, M.IA, M.LP, M.MIP])
    o.guarded = o.name in ("uni", "unizero")  # a step refuses other inputs
    if supply:
        completed(o)
    z0 = o.xs + o.us
    o.spec = dict(systems.spec("vehicle", o.net, o.disc, o.xs, o.us), map={
        "A": RV(A), "S": RV(S), "P1": RV(pick(nz, reads)),
        "b1": RV([0.] * len(reads)),
        "P2": RV(second or zeros(len(reads), nz)),
        "b2": RV([0.] * len(reads) if second else [z0[k] for k in reads]),
        "tol": tol})
    return o


def controller(rng, o):
    """A closed loop, of the vehicle's own kind where there is one."""
    if o.name == "quad3d" and rng.random() < .8:
        _, net, sp, linear = systems.controller(rng, o, False)
        lim = [[v[0] / v[1] for v in sp[k]] for k in ("lo", "up")]
        fb = quadrotor_feedback_system.QuadrotorFeedbackSystem(
            o.real, net, np.array(lim[0]), np.array(lim[1]))
        o.methods = [M.IA, M.LP, M.MIP]
        return fb, net, sp, linear
    if o.name in ("uni", "unizero") and o.ulo[0] == 0. and \
            rng.random() < .8:
        _, net, sp, linear = systems.controller(rng, o, False)
        up = [v[0] / v[1] for v in sp["up"]]
        lo = [v[0] / v[1] for v in sp["lo"]]
        lo[0] = 0.
        lam = rng.choice([.5, 1., .25])
        Rm = [[nets.dy(rng) for _ in range(2)]
              for _ in range(rng.choice([2, 2, 3]))]
        fb = unicycle_feedback_system.UnicycleFeedbackSystem(
            o.real, net, np.array(lo), np.array(up), lam,
            r_options.FixedROptions(T(Rm)))
        sp = dict(sp, lo=RV(lo), up=RV(up),
                  push={"lam": R(lam), "R": RV(Rm)})
        return fb, net, sp, False
    return systems.controller(rng, o)


def rest(x):
    return torch.tensor(x, dtype=nets.F64)
