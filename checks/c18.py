"""Control-affine systems: drift, input matrix, dynamics and encodings."""
import contextlib
import io
import re

import torch

from checks import loops
from lib import nets, systems
from lib.core import R, RV, TV, tick
from lib.solver import Read
from neural_network_lyapunov import control_affine_system as cas
from neural_network_lyapunov import gurobi_torch_mip

T, GRB = nets.t, loops.GRB


def affine_block(net, way):
    """An affine function; way: its parts go through (slacks, binaries)."""
    r = gurobi_torch_mip.MixedIntegerConstraintsReturn()
    w = net[0].weight.detach().clone()
    b = None if net[0].bias is None else net[0].bias.detach().clone()
    n, nx = w.shape
    ns, nb = n * way[0], 1 * (way[1] and b is not None)
    if ns:      # s = w x
        r.Aout_slack = torch.eye(n, dtype=torch.float64)
    else:
        r.Aout_input = w
    if nb:      # beta = 1
        r.Aout_binary = b.reshape(-1, 1)
    elif b is not None:
        r.Cout = b
    if ns or nb:
        r.Aeq_input = torch.cat([w] * bool(ns) + [torch.zeros(
            (1, nx), dtype=torch.float64)] * nb)
        r.Aeq_slack = torch.zeros((ns + nb, ns), dtype=torch.float64)
        r.Aeq_slack[:ns] = -torch.eye(ns, dtype=torch.float64)
        r.Aeq_binary = torch.zeros((ns + nb, nb), dtype=torch.float64)
        r.Aeq_binary[ns:] = 1.
        r.rhs_eq = torch.zeros(ns + nb, dtype=torch.float64)
        r.rhs_eq[ns:] = 1.
        if not ns:
            r.Aeq_slack = None
        if not nb:
            r.Aeq_binary = None
    return r


class Affine(cas.SecondOrderControlAffineSystem):
    """A user's second-order system with affine a(x) and b(x)."""

    def __init__(self, lo, up, ulo, uup, na, nb, ways):
        super(Affine, self).__init__(lo, up, ulo, uup)
        self.na, self.nb, self.ways = na, nb, ways

    def a(self, x):
        return self.na(x)

    def b(self, x):
        return self.nb(x).reshape((self.nq, self.u_dim))

    def _mixed_integer_constraints_v(self):
        def span(n):
            w, c = n[0].weight, (n[0].bias if n[0].bias is not None else 0.)
            p, m = w.clamp(min=0.), w.clamp(max=0.)
            return p @ self.x_lo + m @ self.x_up + c, \
                p @ self.x_up + m @ self.x_lo + c
        return (affine_block(self.na, self.ways[0]),
                affine_block(self.nb, self.ways[1])) + \
            span(self.na) + span(self.nb)


def make(rng):
    o = systems.Sys()
    o.nu = rng.choice([1, 2, 2])
    o.kind = rng.choice(["linear", "relu", "relu", "affine"])
    o.nq = rng.choice([1, 1, 2])
    o.nx = rng.randint(1, 3) if o.kind == "linear" else 2 * o.nq
    o.lo, o.up = nets.box(rng, o.nx, 1, 2)
    o.ulo, o.uup = nets.box(rng, o.nu, 1, 2)
    if rng.random() < .2:
        o.uup[0] = o.ulo[0]
    a = [T(o.lo), T(o.up), T(o.ulo), T(o.uup)]
    none = systems.NOTHING
    sp = {"kind": "second", "A": [], "B": [], "na": none, "nb": none,
          "nq": o.nq, "ulo": RV(o.ulo), "uup": RV(o.uup)}
    o.nets, o.mats, o.method = [], [], "none"
    if o.kind == "linear":
        A = [nets.vec(rng, o.nx) for _ in range(o.nx)]
        B = [nets.vec(rng, o.nu) for _ in range(o.nx)]
        o.mats = [T(A), T(B)]
        o.real = cas.LinearSystem(*o.mats, *a)
        sp.update(kind="linear", A=RV(A), B=RV(B))
    else:
        if o.kind == "relu":
            w = [systems.widths(rng, o.nx, n, .3)
                 for n in (o.nq, o.nq * o.nu)]
        else:
            w = [[o.nx, o.nq], [o.nx, o.nq * o.nu]]
        na = nets.net(rng, w[0], bias=rng.random() < .8)
        nb = nets.net(rng, w[1], bias=rng.random() < .8)
        if rng.random() < .3:
            nets.tie(rng, na, systems.inside(rng, o.lo, o.up))
        if o.kind == "relu":
            o.method = rng.choice(list(systems.M))
            o.real = cas.ReluSecondOrderControlAffineSystem(
                *a, na, nb, o.method)
            o.method = o.method.name
        else:
            o.real = Affine(*a, na, nb, [
                [rng.random() < .5 for _ in range(2)] for _ in range(2)])
        o.nets = [na, nb]
        sp.update(na=nets.spec(na), nb=nets.spec(nb))
    o.spec = sp
    return o


def dyn(b, o, x, u):
    r = o.real
    return dict(b, op="dyn", x=RV(x), u=RV(u), f=RV(r.f(T(x))),
                g=RV(r.G(T(x))), dx=RV(r.dynamics(T(x), T(u))))


def state(o):
    r = o.real
    ps = [RV(p) for n in o.nets for p in n.parameters()]
    if o.kind == "linear":
        ps = [RV(r.A), RV(r.B)]
    return ps + [RV(v) for v in (r.x_lo, r.x_up, r.u_lo, r.u_up,
                                 r.x_lo_all, r.x_up_all)]


def fit(rng, ev, rep):
    """Fitting a model to data it explains, or does not."""
    nx, nu = rng.randint(1, 2), rng.randint(1, 2)
    nf = nets.net(rng, [nx, 3, nx], slope=.25)
    ng = nets.net(rng, [nx, 3, nx * nu], slope=.25)
    xs, us = nets.vec(rng, nx), nets.vec(rng, nu)
    n = 10
    X = [nets.vec(rng, nx, 2.) for _ in range(n)]
    U = [nets.vec(rng, nu, 2.) for _ in range(n)]
    gap = rep % 3 == 0
    with torch.no_grad():
        def model(x, u):
            return nf(T(x)) + ng(T(x)).reshape(nx, nu) @ T(u) - nf(T(xs)) - \
                ng(T(xs)).reshape(nx, nu) @ T(us)
        Y = [(model(x, u) + (1. if gap else 0.)).tolist()
             for x, u in zip(X, U)]
    sf, sg = nets.spec(nf), nets.spec(ng)
    before = [systems.same(nf), systems.same(ng)]
    ds = torch.utils.data.TensorDataset(
        T([x + u for x, u in zip(X, U)]), T(Y))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        cas.train_control_affine_forward_model(
            nf, ng, T(xs), T(us), ds, 2, .0625, batch_size=rng.choice([3, 8]))
    after = [systems.same(nf), systems.same(ng)]
    moved = [p != q for p, q in zip(before, after)]
    nums = [float(v) for v in re.findall(r"loss ([-+\d.e]+)",
                                         out.getvalue())]
    ev.append({"op": "fit", "key": "fit", "nf": sf, "ng": sg, "xs": RV(xs),
               "us": RV(us), "gap": gap,
               "data": [[RV(x), RV(u), RV(y)] for x, u, y in zip(X, U, Y)],
               "moved": all(moved) if gap else any(moved),
               "zero": bool(nums) and all(abs(v) < 1e-12 for v in nums)})


def one(rng, o):
    ev = []
    b = {"key": o.kind, "sys": o.spec}
    before = state(o)
    pts = o.inbox(rng, 8)
    far = [([v + rng.choice([-3., 0., 2.]) for v in x],
            [v + rng.choice([-2., 0., 2.]) for v in u])
           for x, u in pts[:4]]
    ev += [dyn(b, o, x, u) for x, u in pts + far]
    ret = o.real.mixed_integer_constraints()
    vt, exact = rng.choice([(GRB.BINARY, True), (GRB.BINARY, True),
                            (loops.RELAX, False)])
    m = loops.mip()
    x_, f_ = loops.free(m, o.nx, "x"), loops.free(m, o.nx, "f")
    g_ = loops.free(m, o.nx * o.nu, "g")
    for blk, out in ((ret.mip_cnstr_f, f_), (ret.mip_cnstr_G, g_)):
        m.add_mixed_integer_linear_constraints(blk, x_, out, "s", "b", "",
                                               "", "", vt)
    rd = Read(m)
    for x, _ in pts[:5]:
        r = loops.ask(rd, x_, f_ + g_, x)
        ev.append(dict(b, op="encode", x=RV(x), exact=exact,
                       feas=r is not None,
                       fr=loops.ticks(r[:o.nx]) if r else [],
                       gr=loops.ticks(r[o.nx:]) if r else []))
    ev.append(dict(b, op="bounds", key=o.kind + "-" + o.method,
                   xs=[RV(p[0]) for p in pts],
                   flo=TV(ret.f_lo), fup=TV(ret.f_up),
                   glo=TV(ret.G_flat_lo), gup=TV(ret.G_flat_up)))
    ev += [dyn(b, o, x, u) for x, u in pts[:2]]
    ev.append(dict(b, op="same", before=before, after=state(o)))
    ev.append(dict(b, op="sizes", obs=[o.real.x_dim, o.real.u_dim],
                   want=[o.nx, o.nu]))
    return ev


def run(ck):
    ck.model("MC_Ctrl", wait=False)
    rng = ck.rng
    ev = []
    for rep in range(ck.n(60, 420)):
        o = make(rng)
        ev += nets.aged(rng, o.nets + o.mats, lambda: one(rng, o))
    for rep in range(ck.n(18, 90)):
        fit(rng, ev, rep)
    ck.stateless("Ctrl", ev)
