"""Random small networks with exact (dyadic) parameters."""
import itertools

import torch

from lib.core import R, RV

F64 = torch.float64


def dy(rng, amp=1.5, den=2):
    return rng.randint(-int(amp * den), int(amp * den)) / den


def vec(rng, n, amp=1.5, den=2):
    return [dy(rng, amp, den) for _ in range(n)]


def t(v):
    return torch.tensor(v, dtype=F64)


def net(rng, widths, slope=None, bias=True, amp=1.5, den=2, dense=.8,
        relu=None):
    """slope None: random; relu: use torch.nn.ReLU for slope 0."""
    if slope is None:
        slope = rng.choice([0., 0., .25, .125, .5])
    if relu is None:
        relu = rng.random() < .6
    layers = []
    for i in range(len(widths) - 1):
        lin = torch.nn.Linear(widths[i], widths[i + 1], bias=bias).type(F64)
        with torch.no_grad():
            lin.weight.copy_(t([[dy(rng, amp, den) if rng.random() < dense
                                 else 0. for _ in range(widths[i])]
                                for _ in range(widths[i + 1])]))
            if bias:
                lin.bias.copy_(t(vec(rng, widths[i + 1], 1., den)))
        layers.append(lin)
        if i < len(widths) - 2:
            layers.append(torch.nn.ReLU() if slope == 0. and relu else
                          torch.nn.LeakyReLU(slope))
    return torch.nn.Sequential(*layers)


def slope_of(n):
    for q in n:
        if isinstance(q, torch.nn.LeakyReLU):
            return float(q.negative_slope)
    return 0.


def spec(n):
    lin = [q for q in n if isinstance(q, torch.nn.Linear)]
    return {"W": [RV(q.weight) for q in lin],
            "b": [RV(q.bias) if q.bias is not None else
                  [[0, 1]] * q.out_features for q in lin],
            "c": R(slope_of(n))}


def tie(rng, n, x):
    """Shift a bias so that some hidden unit is exactly zero at x."""
    lin = [q for q in n if isinstance(q, torch.nn.Linear)]
    if lin[0].bias is None or len(lin) < 2:
        return
    k = rng.randrange(len(lin) - 1)
    j = rng.randrange(lin[k].out_features)
    with torch.no_grad():
        z = t(x)
        c = 0
        for q in n:
            if isinstance(q, torch.nn.Linear):
                z = q(z)
                if c == k:
                    lin[k].bias[j] -= z[j]
                    return
                c += 1
            else:
                z = q(z)


def box(rng, n, amp=2, den=2, minw=.5):
    lo = vec(rng, n, amp, den)
    up = [a + rng.choice([minw, 1., 1.5, 2.]) for a in lo]
    return lo, up


def points(rng, lo, up, k, den=4, corners=True):
    """Corners plus random dyadic points of a box."""
    n = len(lo)
    out = []
    if corners:
        out += [list(v) for v in itertools.product(*zip(lo, up))]
        rng.shuffle(out)
        out = out[:max(2, k // 2)]
    while len(out) < k:
        out.append([a + (b - a) * rng.randint(0, den) / den
                    for a, b in zip(lo, up)])
    return out


def shape(rng, nin=(1, 3), nout=(1, 2), depth=(1, 2), width=(1, 4)):
    return [rng.randint(*nin)] + [rng.randint(*width) for _ in
                                  range(rng.randint(*depth))] + \
        [rng.randint(*nout)]


def tensors(of):
    for m in of:
        if isinstance(m, torch.Tensor):
            yield m
        elif m is not None:
            yield from m.parameters()


def pinned(rng, ms, ats):
    """Other first layers with the same value at a point (of ats, or any)."""
    for m in ms:
        l = m[0] if isinstance(m, torch.nn.Sequential) else None
        if not isinstance(l, torch.nn.Linear):
            continue
        at = [a for a in ats if len(a) == l.in_features]
        x = torch.tensor(rng.choice(at) if at else vec(rng, l.in_features),
                         dtype=l.weight.dtype)
        v = l(x)
        l.weight.copy_(torch.tensor([dy(rng) for _ in range(
            l.weight.numel())], dtype=x.dtype).reshape(l.weight.shape))
        if l.bias is not None:
            l.bias.copy_(v - l.weight @ x)


def aged(rng, of, f, c=None, p=.35, free=False, at=()):
    """f(), sometimes on objects already used while some parameters of their
    networks (of) were others: those are then put back in place, as training
    does. at: points where their values may stay. free: f needs no gradients,
    sometimes it gets none."""
    if rng.random() < p:
        ts = list(tensors(of))
        keep = [q.detach().clone() for q in ts]
        attrs = dict(c.__dict__) if c is not None else {}
        some = rng.choice([1., .5, 0., 0.])
        one = rng.randrange(len(ts)) if ts else 0
        ats = [list(a) for a in at] + [list(q.xs) for q in (
            c, getattr(c, "o", None)) if hasattr(q, "xs")]
        pin = rng.random() < .3
        with torch.no_grad():
            if pin:
                pinned(rng, of, ats)
            for k, q in enumerate(ts if not pin else []):
                if k == one or rng.random() < some:
                    q.copy_(torch.tensor([dy(rng) for _ in range(q.numel())],
                                         dtype=q.dtype).reshape(q.shape))
        if hasattr(c, "lam"):
            c.lam = rng.choice([.125, .75, 1.5])
        again = rng.getstate() if rng.random() < .5 else None
        try:
            f()
        except Exception:
            pass
        if again is not None:
            rng.setstate(again)
        with torch.no_grad():
            for q, k in zip(ts, keep):
                q.copy_(k)
        if c is not None:
            c.__dict__.clear()
            c.__dict__.update(attrs)
    with torch.set_grad_enabled(not free or rng.random() < .7):
        return f()
