"""Random network dynamics and closed loops with exact parameters."""
import gurobipy
import numpy as np
import torch

from lib import hybrid, nets
from lib.core import R, RV
from neural_network_lyapunov import feedback_system, mip_utils, \
    relu_system, relu_to_optimization

T = nets.t
M = mip_utils.PropagateBoundsMethod
NOTHING = {"W": [], "b": [], "c": [0, 1]}


class Sys:
    """A real system, its specification and boxes."""

    def at(self, x, u):
        return self.real.step_forward(T(x), T(u)) if self.nu else \
            self.real.step_forward(T(x))

    def dxs(self, x, u):
        if not hasattr(self.real, "possible_dx"):
            return [self.at(x, u)]
        return self.real.possible_dx(T(x), T(u)) if self.nu else \
            self.real.possible_dx(T(x))

    def inbox(self, rng, k, corners=True):
        z = nets.points(rng, self.lo + self.ulo, self.up + self.uup, k, 4,
                        corners)
        return [(p[:self.nx], p[self.nx:]) for p in z]


def spec(kind, net=None, disc=True, xs=(), us=(), dt=1., idx=(), modes=()):
    return {"kind": kind, "net": nets.spec(net) if net is not None else
            NOTHING, "disc": disc, "xs": RV(list(xs)), "us": RV(list(us)),
            "dt": R(dt), "idx": [k + 1 for k in idx], "modes": list(modes)}


def inside(rng, lo, up):
    """A point of the box: its middle, or anywhere, or on its border."""
    return [a + (b - a) * rng.choice([0., .25, .5, .5, .5, .75, 1.])
            for a, b in zip(lo, up)]


def widths(rng, nin, nout, deep=.4):
    hid = [rng.randint(1, 3) for _ in range(2 if rng.random() < deep else 1)]
    return [nin] + hid + [nout]


def autonomous(rng, kind=None, nx=None, method=None):
    o = Sys()
    o.kind = kind or rng.choice(["plain", "pinned", "residual"])
    o.nx, o.nu = nx or rng.randint(1, 2), 0
    o.lo, o.up = nets.box(rng, o.nx, 1, 2)
    o.ulo, o.uup = [], []
    o.net = nets.net(rng, widths(rng, o.nx, o.nx), bias=rng.random() < .8)
    o.xs = inside(rng, o.lo, o.up)
    o.disc = rng.random() < .6
    if rng.random() < .3:
        nets.tie(rng, o.net, inside(rng, o.lo, o.up))
    o.method = method or rng.choice([M.IA, M.LP, M.MIP, M.IA_MIP])
    a = [nets.F64, T(o.lo), T(o.up), o.net]
    if o.kind == "plain":
        o.disc = True
        o.real = relu_system.AutonomousReLUSystem(
            *a, network_bound_propagate_method=o.method)
    else:
        c = relu_system.AutonomousReLUSystemGivenEquilibrium \
            if o.kind == "pinned" else \
            relu_system.AutonomousResidualReLUSystemGivenEquilibrium
        o.real = c(*a, T(o.xs), discrete_time_flag=o.disc,
                   network_bound_propagate_method=o.method)
    o.spec = spec(o.kind, o.net, o.disc, o.xs)
    return o


def controlled(rng, kind=None, nx=None, wide=False, pinned_at=None):
    o = Sys()
    o.kind = kind or rng.choice(["uplain", "upinned", "second", "residue"])
    o.nu = rng.choice([1, 1, 2])
    nv = 1
    if o.kind in ("second", "residue"):
        nv = rng.choice([1, 1, 2]) if nx is None else nx // 2
        o.nx = 2 * nv
    else:
        o.nx = nx or rng.randint(1, 2)
    o.lo, o.up = nets.box(rng, o.nx, 1, 2)
    o.disc, o.dt, idx = True, 1., ()
    if o.kind in ("second", "residue"):
        for k in range(nv, 2 * nv):  # rest has zero velocity
            o.lo[k], o.up[k] = rng.choice([(-1., 1.), (-.5, 1.), (0., 1.5),
                                           (-2., .5)])
        o.dt = rng.choice([.5, .25, 1.])
    o.ulo, o.uup = nets.box(rng, o.nu, 1, 2)
    if wide:
        o.ulo, o.uup = [-64.] * o.nu, [64.] * o.nu
    o.xs = inside(rng, o.lo, o.up)
    if o.kind in ("second", "residue"):
        o.xs[nv:] = [0.] * nv
    o.us = inside(rng, o.ulo, o.uup)
    if wide:
        o.us = [nets.dy(rng, 1.) for _ in range(o.nu)]
    nin, nout = o.nx + o.nu, o.nx
    if o.kind == "second":
        nout = nv
    if o.kind == "residue":
        nout = nv
        idx = rng.sample(range(o.nx), rng.randint(1, o.nx))
        nin = len(idx) + o.nu
    o.net = nets.net(rng, widths(rng, nin, nout, .3),
                     bias=rng.random() < .8)
    a = [nets.F64, T(o.lo), T(o.up), T(o.ulo), T(o.uup), o.net]
    nq = o.nx - nv
    if o.kind == "uplain":
        o.real = relu_system.ReLUSystem(*a)
    elif o.kind == "upinned":
        o.disc = rng.random() < .6
        o.real = relu_system.ReLUSystemGivenEquilibrium(
            *a, T(o.xs), T(o.us), o.disc)
    elif o.kind == "second":
        o.real = relu_system.ReLUSecondOrderSystemGivenEquilibrium(
            *a, T(o.xs[:nq]), T(o.us), o.dt)
    else:
        o.real = relu_system.ReLUSecondOrderResidueSystemGivenEquilibrium(
            *a, T(o.xs[:nq]), T(o.us), o.dt, list(idx))
    o.spec = spec(o.kind, o.net, o.disc, o.xs, o.us, o.dt, idx)
    return o


class Flow2:
    """A user's system q' = v, v' = phi(x, u) - phi(x*, u*)."""

    def __init__(self, lo, up, ulo, uup, net, xs, us, method):
        self.dtype, self.x_dim, self.u_dim = nets.F64, len(lo), len(ulo)
        self.x_lo, self.x_up, self.u_lo, self.u_up = lo, up, ulo, uup
        self.x_equilibrium, self.u_equilibrium = xs, us
        self.dynamics_relu, self.nv = net, len(lo) // 2
        self.dynamics_relu_free_pattern = relu_to_optimization.\
            ReLUFreePattern(net, self.dtype)
        self.network_bound_propagate_method = method

    @property
    def x_lo_all(self):
        return self.x_lo.detach().numpy()

    @property
    def x_up_all(self):
        return self.x_up.detach().numpy()

    def rest(self):
        return self.dynamics_relu(torch.cat((self.x_equilibrium,
                                             self.u_equilibrium)))

    def mixed_integer_constraints(self, u_lo=None, u_up=None):
        u_lo = self.u_lo if u_lo is None else u_lo
        u_up = self.u_up if u_up is None else u_up
        r = self.dynamics_relu_free_pattern.output_constraint(
            torch.cat((self.x_lo, u_lo)), torch.cat((self.x_up, u_up)),
            self.network_bound_propagate_method)
        n, v, z = self.x_dim, self.nv, self.rest()
        r.Cout = torch.cat((torch.zeros(v, dtype=self.dtype),
                            r.Cout.reshape(-1) - z))
        r.Aout_input = torch.zeros((n, n + self.u_dim), dtype=self.dtype)
        for k in range(v):
            r.Aout_input[k, v + k] = 1.
        r.Aout_slack = torch.cat((
            torch.zeros((v, r.num_slack()), dtype=self.dtype),
            r.Aout_slack.reshape((v, -1))))
        if r.Aout_binary is not None:
            r.Aout_binary = torch.cat((
                torch.zeros((v, r.num_binary()), dtype=self.dtype),
                r.Aout_binary.reshape((v, -1))))
        r.x_next_lb = torch.cat((self.x_lo[v:],
                                 r.nn_output_lo.reshape(-1) - z))
        r.x_next_ub = torch.cat((self.x_up[v:],
                                 r.nn_output_up.reshape(-1) - z))
        return r

    def step_forward(self, x, u):
        d = self.dynamics_relu(torch.cat((x, u), dim=-1)) - self.rest()
        return torch.cat((x[..., self.nv:], d), dim=-1)

    def possible_dx(self, x, u):
        return [self.step_forward(x, u)]

    def add_dynamics_constraint(self, mip, x, xn, u, s, b,
                                additional_u_lo=None, additional_u_up=None,
                                binary_var_type=gurobipy.GRB.BINARY,
                                u_input_prog=None):
        return relu_system._add_forward_dynamics_mip_constraints(
            self, mip, x, xn, u, s, b, additional_u_lo, additional_u_up,
            binary_var_type, u_input_prog)


def flowing(rng):
    o = Sys()
    o.kind, nv = "flow2", rng.choice([1, 1, 1, 2])
    o.nx, o.nu, o.disc = 2 * nv, rng.choice([1, 1, 2]), False
    o.lo, o.up = nets.box(rng, o.nx, 1, 2)
    for k in range(nv, 2 * nv):
        o.lo[k], o.up[k] = rng.choice([(-1., 1.), (-.5, 1.), (0., 1.5),
                                       (-2., .5)])
    o.ulo, o.uup = nets.box(rng, o.nu, 1, 2)
    o.xs = inside(rng, o.lo, o.up)[:nv] + [0.] * nv
    o.us = inside(rng, o.ulo, o.uup)
    o.net = nets.net(rng, widths(rng, o.nx + o.nu, nv, .3),
                     bias=rng.random() < .8)
    o.real = Flow2(T(o.lo), T(o.up), T(o.ulo), T(o.uup), o.net, T(o.xs),
                   T(o.us), M.IA)
    o.spec = spec(o.kind, o.net, False, o.xs, o.us)
    return o


def hybrid_sys(rng, nx=None, nu=None):
    o = Sys()
    o.kind = "hybrid"
    o.nx, o.nu = nx or rng.randint(1, 2), nu or 1
    n = o.nx + o.nu
    lo, up = nets.box(rng, n, 1, minw=1.)
    for k in range(o.nx, n):
        lo[k], up[k] = rng.choice([(-1., 1.), (-2., 1.), (-1., 3.)])
    ms, lo, up = hybrid.modes(rng, o.nx, o.nu, cut=0., overlap=.3, gap=0., clip=True,
                              lo=lo, up=up, k=rng.randint(1, 3))
    o.net = None
    o.lo, o.up, o.ulo, o.uup = lo[:o.nx], up[:o.nx], lo[o.nx:], up[o.nx:]
    o.xs, o.us = inside(rng, o.lo, o.up), inside(rng, o.ulo, o.uup)
    o.real = hybrid.build(ms, o.nx, o.nu)
    o.disc = True
    o.spec = spec("hybrid", None, True, o.xs, o.us, modes=hybrid.spec(ms))
    return o


def controller(rng, o, linear=None):
    """A controller of the system and the closed loop."""
    linear = rng.random() < .3 if linear is None else linear
    if linear:
        n = nets.net(rng, [o.nx, o.nu], bias=rng.random() < .6)
        real = n[0]
    else:
        n = nets.net(rng, widths(rng, o.nx, o.nu, .3),
                     bias=rng.random() < .8)
        real = n
    inf = o.ulo[0] < -50
    lim, lo, up = [], [], []
    for k in range(o.nu):
        free = inf and rng.random() < .6
        lim.append(not free)
        if inf:
            a = nets.dy(rng, 1.)
            b = a + rng.choice([.5, 1., 2.])
        else:
            w = o.uup[k] - o.ulo[k]
            a = o.ulo[k] + w * rng.choice([0., 0., .25])
            b = o.uup[k] - w * rng.choice([0., 0., .25])
        lo.append(-np.inf if free else a)
        up.append(np.inf if free else b)
    fb = feedback_system.FeedbackSystem(
        o.real, real, T(o.xs), T(o.us), np.array(lo), np.array(up))
    sp = {"net": nets.spec(n), "xs": RV(o.xs), "us": RV(o.us), "lim": lim,
          "lo": [R(0. if np.isinf(v) else v) for v in lo],
          "up": [R(0. if np.isinf(v) else v) for v in up]}
    return fb, n, sp, linear


NOCTL = {"net": NOTHING, "xs": [], "us": [], "lim": [], "lo": [], "up": []}


def same(net):
    return [RV(p) for p in net.parameters()]
