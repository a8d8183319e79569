"""Random hybrid linear systems with exact (dyadic) parameters."""
import itertools

import torch

from lib import nets
from lib.core import RV
from neural_network_lyapunov import hybrid_linear_system as hls

T = nets.t


def split(rng, lo, up, k):
    """The box cut into about k boxes sharing their borders."""
    cells = [(list(lo), list(up))]
    while len(cells) < k:
        a, b = cells.pop(rng.randrange(len(cells)))
        j = rng.randrange(len(a))
        c = a[j] + (b[j] - a[j]) * rng.choice([.25, .5, .5, .75])
        m1, m2 = list(b), list(a)
        m1[j], m2[j] = c, c
        cells += [(a, m1), (m2, b)]
    rng.shuffle(cells)
    return cells


def poly(rng, lo, up, cut=.4):
    """Rows of the box, shuffled, scaled, with an optional diagonal cut."""
    n = len(lo)
    rows = []
    for j in range(n):
        s = rng.choice([1., 1., 2., .5])
        r = [0.] * n
        r[j] = s
        rows.append((r, s * up[j]))
        r = [0.] * n
        r[j] = -s
        rows.append((r, -s * lo[j]))
    if n > 1 and rng.random() < cut:
        r = [rng.choice([-1., 1., 2.]) for _ in range(n)]
        mid = sum(a * (p + q) / 2 for a, p, q in zip(r, lo, up))
        rows.append((r, mid + rng.choice([0., .25, .5])))
    rng.shuffle(rows)
    return [r for r, _ in rows], [q for _, q in rows]


def modes(rng, nx, nu, k=None, amp=1.5, cut=.4, overlap=.15, gap=.15,
          shrink=False, lo=None, up=None, clip=False):
    n = nx + nu
    if lo is None:
        lo, up = nets.box(rng, n, amp=1, minw=1.)
    out = []
    cells = split(rng, lo, up, k or rng.randint(1, 4))
    for a, b in cells:
        u = rng.random()
        if u < overlap:
            b = [min(q + .25, c) if clip else q + .25
                 for q, c in zip(b, up)]
        elif u < overlap + gap and len(cells) > 1:
            a = [p + (q - p) / 4 for p, q in zip(a, b)]
        P, q = poly(rng, a, b, cut)
        A = [nets.vec(rng, n, amp, 2) for _ in range(nx)]
        if shrink:
            A = [[v / 4 for v in r] for r in A]
        out.append({"A": A, "c": nets.vec(rng, nx, 1., 2), "P": P, "q": q})
    return out, lo, up


def spec(ms):
    return [{"A": RV(m["A"]), "c": RV(m["c"]), "P": RV(m["P"]),
             "q": RV(m["q"])} for m in ms]


def used(s, nx, nu):
    """Use a system that has only some of its modes yet."""
    x, u = torch.zeros(nx, dtype=nets.F64), torch.zeros(nu, dtype=nets.F64)
    a = (x, u) if nu else (x,)
    for f in (lambda: s.mixed_integer_constraints(), lambda: s.mode(*a),
              lambda: s.step_forward(*a), lambda: s.possible_dx(*a),
              lambda: s.mode_derivative_bounds(0)):
        try:
            f()
        except Exception:
            pass


def build(ms, nx, nu, check=False):
    if nu:
        s = hls.HybridLinearSystem(nx, nu, nets.F64)
        for m in ms:
            A = T(m["A"])
            s.add_mode(A[:, :nx], A[:, nx:], T(m["c"]), T(m["P"]), T(m["q"]),
                       check)
            used(s, nx, nu)
    else:
        s = hls.AutonomousHybridLinearSystem(nx, nets.F64)
        for m in ms:
            s.add_mode(T(m["A"]), T(m["c"]), T(m["P"]), T(m["q"]), check)
            used(s, nx, nu)
    return s


def contains(m, z):
    return all(sum(a * b for a, b in zip(r, z)) <= q
               for r, q in zip(m["P"], m["q"]))


def points(rng, ms, lo, up, k):
    """Box points, borders shared by modes, points outside every mode."""
    n = len(lo)
    out = nets.points(rng, lo, up, k // 2)
    qs = [[], []]
    cuts = [[lo[j], up[j]] for j in range(n)]
    for m in ms:
        for r, q in zip(m["P"], m["q"]):
            nz = [j for j in range(n) if r[j]]
            if len(nz) == 1:
                cuts[nz[0]].append(q / r[nz[0]])
    while len(out) < k:
        z = [rng.choice(cuts[j]) if rng.random() < .5 else
             lo[j] + (up[j] - lo[j]) * rng.randint(0, 4) / 4
             for j in range(n)]
        if rng.random() < .2:
            j = rng.randrange(n)
            z[j] += rng.choice([-.5, .5, 3.])
        out.append(z)
    rng.shuffle(out)
    return out


def onehots(k):
    return list(itertools.product([0, 1], repeat=k)) if k <= 2 else \
        [tuple(int(i == j) for i in range(k)) for j in range(k)] + \
        [(0,) * k, (1,) * k, (1, 1) + (0,) * (k - 2)]
