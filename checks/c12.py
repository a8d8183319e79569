"""Combining and transforming encoded blocks."""
import torch

from lib import nets
from lib.core import R, RV, tick
from lib.mip import Block
from neural_network_lyapunov import gurobi_torch_mip as gtm

T = nets.t
COEFF = [-2., -1., -.5, .5, 1., 1., 2., 0.]
NAMES = {"Ox": "Aout_input", "Os": "Aout_slack", "Ob": "Aout_binary",
         "o": "Cout", "Gx": "Ain_input", "Gs": "Ain_slack",
         "Gb": "Ain_binary", "h": "rhs_in", "Ex": "Aeq_input",
         "Es": "Aeq_slack", "Eb": "Aeq_binary", "e": "rhs_eq",
         "xlo": "input_lo", "xup": "input_up", "slo": "slack_lo",
         "sup": "slack_up", "blo": "binary_lo", "bup": "binary_up"}


def absent_or(v):
    return [] if v is None else [v]


def bound(v):
    if v is None:
        return []
    return [[[] if abs(x) > 1e50 else [R(x)]
             for x in torch.as_tensor(v).reshape(-1).tolist()]]


def blk(rng, nx, ns, nb):
    """A block over nx inputs, up to ns slacks and nb binaries."""
    r = {}

    def mat(m, n, p=.65):
        return [[rng.choice(COEFF) for _ in range(n)] for _ in range(m)] \
            if m and n and rng.random() < p else None

    mo, mi, me = rng.choice([0, 1, 2]), rng.randint(0, 3), rng.randint(0, 2)
    r["Ox"], r["Os"], r["Ob"] = mat(mo, nx), mat(mo, ns), mat(mo, nb)
    r["o"] = [rng.choice(COEFF) for _ in range(mo)] if mo and (
        rng.random() < .5 or all(r[k] is None for k in ("Ox", "Os", "Ob"))) \
        else None
    r["Gx"], r["Gs"], r["Gb"] = mat(mi, nx), mat(mi, ns), mat(mi, nb)
    r["Ex"], r["Es"], r["Eb"] = mat(me, nx), mat(me, ns), mat(me, nb)
    r["h"] = nets.vec(rng, mi) if mi else None
    r["e"] = nets.vec(rng, me) if me else None
    if all(r[k] is None for k in ("Ox", "Gx", "Ex")):
        # both blocks must have the same inputs
        if r["h"] is None:
            mi = 1
            r["h"] = nets.vec(rng, 1)
        r["Gx"] = mat(mi, nx, 1.)
    vis = {"x": nx,
           "s": ns if any(r[k] is not None for k in ("Os", "Gs", "Es"))
           else 0,
           "b": nb if any(r[k] is not None for k in ("Ob", "Gb", "Eb"))
           else 0}
    for k, n in vis.items():
        for q in ("lo", "up"):
            r[k + q] = None
            if n and rng.random() < (.3 if k != "x" else .12):
                s = -1. if q == "lo" else 1.
                r[k + q] = [s * rng.choice([0., .5, 1., 2.])
                            for _ in range(n)]
                if k == "b":
                    r[k + q] = [float(rng.randint(0, 1)) for _ in range(n)]
    return r


def build(r):
    b = gtm.MixedIntegerConstraintsReturn()
    for k, n in NAMES.items():
        if r[k] is not None:
            setattr(b, n, T(r[k]))
    return b


def enc(r):
    e = {}
    for k in NAMES:
        v = r[k]
        if k in ("xlo", "xup", "slo", "sup", "blo", "bup"):
            e[k] = bound(v)
        else:
            e[k] = [] if v is None else [RV(v)]
    return e


class Matrices(Block):
    """Without the bounds, which may be on variables no matrix mentions."""

    def __init__(self, b):
        c = gtm.MixedIntegerConstraintsReturn()
        for k, n in NAMES.items():
            if not n.endswith(("_lo", "_up")):
                setattr(c, n, getattr(b, n))
        super().__init__(c)


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.ev = [{"op": "new", "key": "new"}]
        self.b = []

    def make(self, r):
        self.b.append(build(r))
        self.ev.append({"op": "make", "key": "make", "B": enc(r),
                        "id": len(self.b)})

    def see(self, i, why):
        rng, b = self.rng, self.b[i]
        sizes = [b.num_out(), b.num_ineq(), b.num_eq(), b.num_input(),
                 b.num_slack(), b.num_binary()]
        m = Matrices(b)
        o = {"sizes": [int(v) for v in sizes], "pts": [], "out": [],
             "ineq": [], "eq": []}
        for _ in range(2):
            x, s = nets.vec(rng, m.nx, 2.), nets.vec(rng, m.ns, 2.)
            z = [float(rng.randint(0, 1)) for _ in range(m.nb)]
            p = torch.tensor(x + s + z, dtype=torch.float64).numpy()
            o["pts"].append({"x": RV(x), "s": RV(s), "b": RV(z)})
            o["out"].append([tick(v) for v in m.Go @ p + m.co])
            o["ineq"].append([tick(v) for v in m.Gi @ p - m.rhs_in])
            o["eq"].append([tick(v) for v in m.Ge @ p - m.rhs_eq])
        for k in ("xlo", "xup", "slo", "sup", "blo", "bup"):
            o[k] = bound(getattr(b, NAMES[k]))
        self.ev.append({"op": "see", "key": why, "id": i + 1, "obs": o})


def session(ck):
    rng = ck.rng
    nx, ns, nb = rng.randint(1, 3), rng.randint(0, 2), rng.randint(0, 2)
    S = Session(rng)
    for _ in range(rng.randint(2, 3)):
        if rng.random() < .5:
            S.make(blk(rng, nx, ns, nb))
        else:
            S.make(blk(rng, nx, rng.randint(0, 3), rng.randint(0, 3)))
        S.see(len(S.b) - 1, "sizes")
    for _ in range(rng.randint(2, 4)):
        op = rng.choice(["concat", "concat", "concat", "transform", "clone"])
        if op == "clone":
            i = rng.randrange(len(S.b))
            S.b.append(S.b[i].clone())
            S.ev.append({"op": "clone", "key": "clone", "of": i + 1})
            j = len(S.b) - 1
            S.see(j, "clone")
            for k in ("rhs_in", "rhs_eq", "Cout"):
                if getattr(S.b[j], k) is not None:
                    getattr(S.b[j], k).add_(1.)
            S.ev.append({"op": "poke", "key": "poke", "id": j + 1})
            S.see(j, "clone-changed")
            S.see(i, "cloned-original")
        elif op == "transform":
            i = rng.randrange(len(S.b))
            b = S.b[i]
            k, n = b.num_input(), rng.randint(1, 3)
            if k == 0:
                continue
            A = [[rng.choice([0., 0., .5, 1., -1., 2.]) for _ in range(n)]
                 for _ in range(k)]
            a = nets.vec(rng, k)
            if b.input_lo is not None or b.input_up is not None:
                raised = False
                try:
                    b.clone().transform_input(T(A), T(a))
                except Exception:
                    raised = True
                S.ev.append({"op": "refused", "key": "transform-bounded",
                             "raised": raised})
                continue
            b.transform_input(T(A), T(a))
            S.ev.append({"op": "transform", "key": "transform", "id": i + 1,
                         "A": RV(A), "a": RV(a)})
            for j in range(len(S.b)):
                S.see(j, "transform" if j == i else "transform-others")
        else:
            i, j = rng.randrange(len(S.b)), rng.randrange(len(S.b))
            p, q = S.b[i], S.b[j]
            if p.num_input() != q.num_input():
                continue
            ss = p.num_slack() == q.num_slack() and rng.random() < .6
            sb = p.num_binary() == q.num_binary() and rng.random() < .6
            out = rng.random() < .7
            S.b.append(gtm.concatenate_mixed_integer_constraints(
                p, q, ss, sb, out))
            S.ev.append({"op": "concat", "key": "concat", "p": i + 1,
                         "q": j + 1, "sameS": ss, "sameB": sb, "out": out})
            S.see(len(S.b) - 1, "concat-%s%s%s" % (
                "S" if ss else "s", "B" if sb else "b", "O" if out else "o"))
            if len(S.b) > 6:
                break
    return S.ev


def run(ck):
    ck.model("MC_Combine", wait=False)
    ck.sessions("Combine", [session(ck) for _ in range(ck.n(150, 1500))],
                size=500 if not ck.thorough else 3000)
