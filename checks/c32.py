"""Gradient projection and supervised fitting."""
import contextlib
import io

import torch
from torch.optim.optimizer import register_optimizer_step_pre_hook

from lib import hybrid, nets
from lib.core import R, RV, TV, tick
from neural_network_lyapunov import hybrid_linear_system as hls
from neural_network_lyapunov import train_lyapunov_barrier as tlb
from neural_network_lyapunov import train_utils, utils

T = nets.t
F64 = torch.float64
MODES = train_utils.ProjectGradientMode


def flat(ps):
    return torch.cat([p.detach().reshape(-1) for p in ps])


def some(rng, n, amp=2):
    return [float(rng.randint(-amp, amp)) / rng.choice([1, 1, 2])
            for _ in range(n)]


def project(rng):
    shape = rng.choice([[1, 1], [2, 1], [2, 2, 1], [1, 3, 1]])
    net = nets.net(rng, shape, slope=0., bias=rng.random() < .7)
    ps = list(net.parameters())
    n = sum(p.numel() for p in ps)
    for p in ps:
        p.data = T(some(rng, p.numel())).reshape(p.shape)
    n1 = some(rng, n)
    u = rng.random()
    if u < .2:
        n2 = [v * rng.choice([.5, 1., 2.]) for v in n1]     # aligned
    elif u < .4:
        n2 = [-v * rng.choice([.5, 1., 2.]) for v in n1]    # opposed
    elif u < .5:
        n2 = [0.] * n
    elif u < .6:        # orthogonal
        n2 = [0.] * n
        if n > 1:
            a, b = rng.sample(range(n), 2)
            n2[a], n2[b] = n1[b], -n1[a]
    else:
        n2 = some(rng, n)
        if sum(a * b for a, b in zip(n1, n2)) > 0 and rng.random() < .7:
            n2 = [-v for v in n2]
    if u >= .5 and rng.random() < .1:
        n1 = [0.] * n
    q = [rng.choice([0., 0., .5, 1.]) for _ in range(2)]
    th = flat(ps).tolist()
    lin = [[a - c * t for a, t in zip(g, th)] for g, c in zip((n1, n2), q)]
    full = torch.cat([p.reshape(-1) for p in ps])
    loss = [T(g) @ full + c / 2 * (full @ full) for g, c in zip(lin, q)]
    before = rng.choice(["none", "zero", "left"])
    for p in ps if before != "none" else []:
        p.grad = torch.zeros_like(p) if before == "zero" else \
            T(some(rng, p.numel())).reshape(p.shape)
    mode = rng.choice(list(MODES))
    keep = rng.random() < .5
    need, r1, r2 = train_utils.project_gradient(net, *loss, mode, keep)
    g = flat([p.grad for p in ps])
    again = True
    if keep:
        try:
            for p in ps:
                p.grad = None
            loss[1].backward()
            again = torch.equal(flat([p.grad for p in ps]), T(n2))
        except RuntimeError:
            again = False
    return {"op": "project", "key": mode.name, "mode": mode.name,
            "n1": RV(n1), "n2": RV(n2), "g": TV(g), "r1": TV(r1),
            "r2": TV(r2), "need": bool(need), "keep": keep, "again": again}


def problem(rng, off):
    n = rng.randint(1, 3)
    k = rng.randint(1 if off else 5, 9)
    xs = []
    while len(xs) < k:
        x = [rng.randint(-8, 8) / 4 for _ in range(n)]
        if x not in xs:
            xs.append(x)
    m = 0 if off else rng.choice([0, 1, 2])
    cfg = {"n": n, "off": off, "s": RV(some(rng, m)), "xs": RV([0.] * n),
           "lam": R(0), "R": [], "tol": R(0), "bs": 1, "ntrain": 1}
    lr = rng.choice([1 / 64, 1 / 16, 1 / 8])
    cfg["lr"] = R(lr)
    return n, xs, lr, cfg, nets.net(rng, [n, 1], slope=0., bias=True)


class Watch:
    """Parameters at every call of the model."""

    def __init__(self, net, extra=()):
        self.ps = list(net.parameters()) + list(extra)
        self.log = []

    def theta(self):
        return TV(flat(self.ps))

    def call(self, x=None):
        self.log.append((self.theta(), x))

    def __enter__(self):
        """Also the gradient handed to every update."""
        self.hook = register_optimizer_step_pre_hook(lambda *a: self.log.append(
            ("update", TV(flat([p.grad if p.grad is not None else p * 0.
                                for p in self.ps])))))
        return self

    def __exit__(self, *a):
        self.hook.remove()

    def events(self, key):
        """Evaluations and updates; one evaluation may call repeatedly."""
        last, xs, out = None, None, []
        for t, x in self.log:
            if t == "update":
                out.append({"op": "update", "key": key, "g": x,
                            "xs": RV(xs) if xs else []})
                last = None
            elif x is not None:
                xs = x
                out.append({"op": "call", "key": key, "t": t, "xs": RV(x)})
            elif t != last:
                last = t
                out.append({"op": "eval", "key": key, "t": t})
        return out


def value(rng):
    n, xs, lr, cfg, net = problem(rng, True)
    eq = [rng.randint(-4, 4) / 4 for _ in range(n)]
    lam = rng.choice([0., .5, 1.])
    Rm = None
    rows = [[float(a == b) for a in range(n)] for b in range(n)]
    if rng.random() < .5:
        rows = [some(rng, n, 1) for _ in range(rng.randint(1, 3))]
        Rm = T(rows)
    vs = [rng.randint(-4, 8) / 4 for _ in xs]
    exact = rng.random() < .3
    if exact:       # values the model takes nearby
        th = flat(net.parameters()) + lr * rng.choice([0., 1., 2.])
        vs = [sum(a * (p - q) for a, p, q in zip(th.tolist(), x, eq)) +
              lam * sum(abs(sum(r * (p - q) for r, p, q in
                                zip(row, x, eq))) for row in rows)
              for x in xs]
    fit = tlb.TrainValueApproximator()
    fit.learning_rate = lr
    fit.max_epochs = rng.randint(1, 8)
    fit.convergence_tolerance = rng.choice([0., 1 / 64, .25, 1., 4.])
    cfg.update(xs=RV(eq), lam=R(lam), R=RV(rows), epochs=fit.max_epochs,
               tol=R(fit.convergence_tolerance),
               data=[[RV(x), R(v)] for x, v in zip(xs, vs)])
    w = Watch(net)
    h = net.register_forward_hook(lambda *a: w.call())
    ses = [{"op": "value", "key": "value", "cfg": cfg,
            "th": RV(flat(net.parameters()))}]
    with w:
        ok, loss = fit.train_with_cost_to_go(
            net, [(T(x), torch.tensor(v, dtype=F64)) for x, v in
                  zip(xs, vs)], lam, T(eq), Rm)
    h.remove()
    ses += w.events("value")
    ses.append({"op": "vend", "key": "value", "ok": bool(ok),
                "loss": tick(loss), "t": w.theta()})
    return ses


def approximator(rng):
    n, xs, lr, cfg, net = problem(rng, False)
    k = len(cfg["s"])
    s = [a / b for a, b in cfg["s"]]
    z = T(some(rng, k)).requires_grad_() if k else None
    vs = [rng.randint(-8, 8) / 4 for _ in xs]
    bs, epochs = rng.randint(1, 4), rng.randint(1, 3)
    cfg.update(bs=bs, epochs=epochs, ntrain=len(xs) * 4 // 5,
               data=[[RV(x), R(v)] for x, v in zip(xs, vs)])
    w = Watch(net, [z] if k else [])

    def out(model, x, scale=None):
        w.call(x.tolist())
        y = model(x)
        return y + (z @ T(scale) if k else 0.)

    ses = [{"op": "batches", "key": "approximator", "cfg": cfg,
            "th": RV(flat(w.ps))}]
    data = torch.utils.data.TensorDataset(T(xs), T(vs).reshape(-1, 1))
    with contextlib.redirect_stdout(io.StringIO()), w:
        utils.train_approximator(
            data, net, out, bs, epochs, lr,
            additional_variable=[z] if k else None,
            output_fun_args={"scale": s} if k else {},
            verbose=rng.random() < .5)
    ses += w.events("approximator")
    return ses + [{"op": "fend", "key": "approximator", "t": w.theta()}]


def model(rng):
    n, xs, lr, cfg, net = problem(rng, False)
    cfg["s"] = []
    vs = [rng.randint(-8, 8) / 4 for _ in xs]
    bs, epochs = rng.randint(1, 5), rng.randint(1, 3)
    cfg.update(bs=bs, epochs=epochs, ntrain=len(xs),
               data=[[RV(x), R(v)] for x, v in zip(xs, vs)])
    w = Watch(net)
    h = net.register_forward_hook(lambda m, a, o: w.call(a[0].tolist()))
    ses = [{"op": "batches", "key": "model", "cfg": cfg,
            "th": RV(flat(w.ps))}]
    with contextlib.redirect_stdout(io.StringIO()), w:
        got = utils.train_model(net, T(xs), T(vs).reshape(-1, 1), bs, epochs,
                                lr, rng.random() < .3)
    h.remove()
    ses += w.events("model")
    return ses + [{"op": "fend", "key": "model",
                   "t": TV(flat(got.parameters()))}]


def fitted_system(rng):
    """train() against train_with_cost_to_go() on generated samples."""
    n = rng.choice([1, 2])
    ms, lo, up = hybrid.modes(rng, n, 0, amp=.5, overlap=0., gap=0.,
                              cut=.2)
    s = hybrid.build(ms, n, 0)
    x0 = T([[round(v * 4) / 4 for v in z] for z in
            hybrid.points(rng, ms, lo, up, 4)])
    H = rng.randint(1, 3)
    goal = T([0.] * n) if rng.random() < .3 else None
    cut = rng.choice([None, .5])
    pruner = None if cut is None else (lambda x: bool(x[0] > cut))
    cost = lambda x: x @ x + 1.     # noqa: E731
    eq, lam = T([0.] * n), rng.choice([0., .5])
    Rm = rng.choice([None, T([some(rng, n, 1)])])
    pairs = hls.generate_cost_to_go_samples(
        s, [x for x in x0], H, cost, True, goal, pruner)
    if not pairs:
        return None
    net = nets.net(rng, [n, 2, 1], slope=.25, bias=True)
    start = {k: v.clone() for k, v in net.state_dict().items()}
    fit = tlb.TrainValueApproximator()
    fit.max_epochs = rng.randint(1, 4)
    fit.convergence_tolerance = rng.choice([0., .5])
    ret = fit.train_with_cost_to_go(net, pairs, lam, eq, Rm)
    a = [bool(ret[0]), tick(ret[1]), TV(flat(net.parameters()))]
    net.load_state_dict(start)
    ret = fit.train(s, net, lam, eq, cost, x0, H, True, Rm, goal, pruner)
    b = [bool(ret[0]), tick(ret[1]), TV(flat(net.parameters()))]
    return {"op": "same", "key": "system", "a": [str(v) for v in a],
            "b": [str(v) for v in b]}


def run(ck):
    ck.model("MC_Fit", wait=False)
    rng = ck.rng
    torch.manual_seed(ck.seed)
    ck.stateless("Fit", [project(rng) for _ in range(ck.n(900, 8000))])
    ses = [f(rng) for f in (value, approximator, model)
           for _ in range(ck.n(160, 1500))]
    for _ in range(ck.n(60, 400)):
        e = fitted_system(rng)
        if e:
            ses.append([e])
    ck.sessions("Fit", ses)
