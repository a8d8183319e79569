"""Line-search optimisers driven by loss/gradient scripts (C33, C34)."""
import copy
from fractions import Fraction as F

import torch

from lib.core import R, RV, TV
import neural_network_lyapunov.line_search_adam as lsa
import neural_network_lyapunov.line_search_gd as lsg


def fl(r):
    return float(F(r[0], r[1]))


def tens(v):
    return torch.tensor([fl(a) for a in v], dtype=torch.float64)


def make(kind, groups):
    if kind == "gd":
        gs = [dict(params=p, lr=fl(c["lr"]), momentum=fl(c["momentum"]),
                   dampening=fl(c["dampening"]), weight_decay=fl(c["wd"]),
                   nesterov=c["nesterov"],
                   min_step_size_decrease=fl(c["minstep"]),
                   loss_minimal_decrement=fl(c["c1"]),
                   step_size_reduction=fl(c["red"]),
                   min_improvement=fl(c["minimp"])) for c, p in groups]
        return lsg.LineSearchGD(gs, lr=0.5)
    gs = [dict(params=p, lr=fl(c["lr"]), betas=(fl(c["b1"]), fl(c["b2"])),
               eps=fl(c["eps"]), weight_decay=fl(c["wd"]),
               amsgrad=c["amsgrad"],
               loss_minimal_decrement=fl(c["c1"]) if c["usec1"] else None,
               min_step_size_decrease=fl(c["minstep"]),
               step_size_reduction=fl(c["red"]),
               min_improvement=fl(c["minimp"])) for c, p in groups]
    return lsa.LineSearchAdam(gs)


class Driver:
    """Drives one optimiser; records its externally visible steps."""
    made = 0

    def __init__(self, cfgs, x, key):
        """cfgs: list of (cfg, number of tensors)."""
        Driver.made += 1
        self.inplace = Driver.made % 2 == 0
        self.ev = []
        self.key = key
        self.kind = cfgs[0][0]["kind"]
        self.exact = cfgs[0][0]["exact"]
        self.p = [torch.nn.Parameter(tens(v)) for v in x]
        tc, groups, k = [], [], 0
        for c, n in cfgs:
            groups.append((c, self.p[k:k + n]))
            tc += [c] * n
            k += n
        self.groups = groups
        self.opt = make(self.kind, groups)
        self.ev.append({"op": "new", "cfg": cfgs[-1][0], "tc": tc, "x": x,
                        "key": key})

    def obs(self):
        return [TV(p.data) for p in self.p]

    def reload(self):
        """The optimiser's state survives being exported and loaded."""
        sd = copy.deepcopy(self.opt.state_dict())
        self.opt = make(self.kind, self.groups)
        self.opt.load_state_dict(sd)

    def repickle(self):
        """...and a deep copy, parameters included."""
        new = copy.deepcopy(self.opt)
        self.p = [p for g in new.param_groups for p in g["params"]]
        self.groups = [(c, g["params"]) for (c, _), g in
                       zip(self.groups, new.param_groups)]
        self.opt = new

    def step(self, g, l0, losses):
        for p, gi in zip(self.p, g):
            if gi and p.grad is not None and self.inplace:
                p.grad.zero_().add_(tens(gi))
            else:
                p.grad = tens(gi) if gi else None
        self.ev.append({"op": "begin", "g": g, "l0": l0, "key": self.key})
        used = [0]

        def closure():
            k = min(used[0], len(losses) - 1)
            used[0] += 1
            if used[0] > 200:
                raise RuntimeError("line search does not end")
            self.ev.append({"op": "trial", "x": self.obs(),
                            "loss": losses[k], "key": self.key})
            return torch.tensor(fl(losses[k]), dtype=torch.float64)

        try:
            ret = self.opt.step(closure, fl(l0))
        except Exception as e:
            self.ev.append({"op": "raised", "what": repr(e)[:200],
                            "key": self.key})
            return False
        self.ev.append({"op": "end", "ret": R(ret), "x": self.obs(),
                        "xr": [RV(p.data) if self.exact else
                               [[t, 4096] for t in TV(p.data)]
                               for p in self.p], "key": self.key})
        return True


def norm(n, d):
    f = F(n, d)
    return [f.numerator, f.denominator]


def rand_cfg(rng, kind, last=None):
    q = norm
    c = dict(kind=kind, exact=False, lr=rng.choice([q(1, 2), q(1, 1), q(1, 4)]),
             wd=rng.choice([q(0, 1), q(1, 4), q(1, 1)]),
             c1=rng.choice([q(1, 4), q(1, 16), q(0, 1)]),
             minstep=rng.choice([q(1, 8), q(1, 16), q(1, 64)]),
             red=rng.choice([q(1, 2), q(1, 4)]),
             minimp=rng.choice([q(0, 1), q(1, 2)]),
             momentum=q(0, 1), dampening=q(0, 1), nesterov=False,
             usec1=True, amsgrad=False, b1=q(0, 1), b2=q(0, 1), eps=q(0, 1))
    if kind == "gd":
        m = rng.randrange(4)
        if m:
            c["momentum"] = rng.choice([q(1, 2), q(1, 4), q(1, 1)])
        if m == 1:
            c["dampening"] = rng.choice([q(1, 2), q(1, 4)])
        if m == 2:
            c["nesterov"] = True
    else:
        c["usec1"] = rng.random() < .7
        c["amsgrad"] = rng.random() < .5
        c["b1"] = rng.choice([q(1, 2), q(3, 4), q(0, 1)])
        c["b2"] = rng.choice([q(1, 2), q(3, 4)])
        c["eps"] = rng.choice([q(1, 4), q(1, 2), q(1, 16)])
    return c


def run(ck, kind):
    behs = ck.generate("MC_LineSearch", "MC_LineSearch_" + kind, workers=1)
    ck.rng.shuffle(behs)
    behs = behs[:ck.n(500, 2400)]
    chunk = []
    for k, b in enumerate(behs):
        new = b[0]
        d = Driver([(new["cfg"], len(new["x"]))], new["x"], kind + "-replay")
        j = 1
        while j < len(b):
            assert b[j]["op"] == "begin"
            losses = []
            e = j + 1
            while b[e]["op"] == "trial":
                losses.append(b[e]["loss"])
                e += 1
            if not d.step(b[j]["g"], b[j]["l0"], losses):
                break
            j = e + 1
        ck.replayed += 1
        chunk += d.ev
        if len(chunk) > 4000:
            ck.trace("LineSearch", chunk, "beh%d" % k)
            chunk = []
    if chunk:
        ck.trace("LineSearch", chunk, "behlast")
    # random longer runs, several tensors and groups
    rng = ck.rng
    q = norm
    chunk = []
    for k in range(ck.n(60, 400)):
        c1 = rand_cfg(rng, kind)
        cfgs = [(c1, rng.choice([1, 2]))]
        if rng.random() < .5:
            c0 = rand_cfg(rng, kind)
            for f in (["lr"] if kind == "gd" else []) + [
                    "c1", "minstep", "red", "minimp", "usec1"]:
                c0[f] = c1[f]
            cfgs.insert(0, (c0, 1))
        nt = sum(n for _, n in cfgs)
        x = [[q(rng.randint(-8, 8), 4) for _ in range(rng.randint(1, 3))]
             for _ in range(nt)]
        d = Driver(cfgs, x, kind + "-random")
        for s in range(rng.randint(1, 3 if kind == "gd" else 5)):
            g = [[q(rng.randint(-8, 8), 4) for _ in v]
                 if rng.random() < .85 else [] for v in x]
            if not any(g):
                g[0] = [q(1, 1) for _ in x[0]]
            mode = rng.randrange(6)
            if mode == 0:
                d.reload()
            elif mode == 1:
                d.repickle()
            l0 = q(rng.randint(-20, 20), 2)
            base = F(*l0)
            losses = []
            for _ in range(rng.randint(1, 12)):
                dl = rng.choice([0, 0, 200, 5000, 1] if kind == "gd"
                                else [5000, 5000, 0, 0])
                losses.append(norm((base + dl).numerator,
                                   (base + dl).denominator))
            fin = base - rng.choice([5000] if kind == "adam" else
                                    [5000, 0, 300])
            losses.append(norm(fin.numerator, fin.denominator))
            if not d.step(g, l0, losses):
                break
        chunk += d.ev
    ck.trace("LineSearch", chunk, "random")
    ck.drain()
    constructor(ck, kind)


def constructor(ck, kind):
    """Settings outside their ranges are refused, others are accepted; the
    documented default settings."""
    p = [torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))]
    if kind == "gd":
        args = [dict(lr=a, momentum=m, weight_decay=w, dampening=d,
                     nesterov=n)
                for a in (-1., 0., .1) for m in (-1., 0., .5, 1.5)
                for w in (-1., 0., .5) for d in (0., .5)
                for n in (True, False)]
        cls, dflt = lsg.LineSearchGD, dict(lr=.1)
    else:
        args = [dict(lr=a, eps=e, betas=(b, c), weight_decay=w)
                for a in (-1., 0., .1) for e in (-1., 0., 1.)
                for b in (-.5, 0., .5, 1.) for c in (-.5, 0., .5, 1.)
                for w in (0., .5)]
        cls, dflt = lsa.LineSearchAdam, {}
    ev = []
    for b in args:
        try:
            cls(p, **b)
            ok = True
        except ValueError:
            ok = False
        z = dict(lr=0., momentum=0., weight_decay=0., dampening=0.,
                 nesterov=False, eps=0., betas=(0., 0.))
        z.update(b)
        ev.append({"op": "construct", "kind": kind, "ok": ok,
                   "lr": R(z["lr"]), "momentum": R(z["momentum"]),
                   "wd": R(z["weight_decay"]), "damp": R(z["dampening"]),
                   "nesterov": z["nesterov"], "eps": R(z["eps"]),
                   "b1": R(z["betas"][0]), "b2": R(z["betas"][1]),
                   "key": kind + "-construct"})
    d = cls(p, **dflt).defaults
    ev.append({"op": "defaults", "kind": kind,
               "d": {k: str(d[k]) for k in d}, "key": kind + "-defaults"})
    ck.trace("LineSearch", ev, "construct")
