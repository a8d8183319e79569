"""Adversarial training and training on samples: scripted runs."""
import torch

from checks.c30 import quiet
from lib import fake
from lib.core import R

F64 = torch.float64


def zipped(pl, dl, key):
    if len(pl) != len(dl):
        return [{"op": "terms-not-evaluated-together", "key": key}]
    return [{"op": "eval", "key": key, "p": p, "d": d}
            for p, d in zip(pl, dl)]


def adversarial(rng, script=None, extra=None):
    fb = rng.random() < .6
    w = fake.World(rng, fb, rng.choice(["free", "free", "fixed"]))
    tr, cfg = fake.trainer(rng, w, True)
    tr.max_iterations = cfg["maxit"] = rng.randint(1, 4)
    script = script or [(rng.random() < .6, rng.random() < .6)
                        for _ in range(tr.max_iterations)]
    tr.max_iterations = cfg["maxit"] = len(script)
    for pb, db in script:
        w.script["pos"].append(fake.entries(rng, w.n, 0, rng.randint(1, 3),
                                            pb))
        w.script["der"].append(fake.entries(rng, w.n, 0, rng.randint(1, 3),
                                            db))
    o = tr.AdversarialTrainingOptions()
    o.num_batches = rng.choice([1, 2, 3, 10])
    o.num_epochs_per_mip = rng.choice([1, 2, 3])
    o.positivity_samples_pool_size = rng.choice([1, 2, 3, 5, 100])
    o.derivative_samples_pool_size = rng.choice([1, 2, 4, 6, 100])
    rad = []
    if rng.random() < .4:
        o.adversarial_cluster_radius = rng.choice([0., 1., 1.5, 3.])
        rad = [R(o.adversarial_cluster_radius)]
    if rng.random() < .25:
        o.perturb_derivative_sample_count = rng.choice([1, 2])
        o.perturb_derivative_sample_std = 0.
    cfg.update(nbatch=o.num_batches, epochs=o.num_epochs_per_mip,
               capp=o.positivity_samples_pool_size,
               capd=o.derivative_samples_pool_size, rad=rad,
               perturb=o.perturb_derivative_sample_count)
    ps = fake.samples(rng, w.n, rng.randint(1, 4))
    ds = fake.samples(rng, w.n, rng.randint(1, 4))
    key = ("loop" if fb else "auto") + ("-R" if w.freeR else "")
    ev = [{"op": "adv", "key": key, "cfg": cfg, "th": w.exact(),
           "ps": fake.sv(ps), "ds": fake.sv(ds)}]
    ret = quiet(tr.train_adversarial, torch.tensor(ps, dtype=F64),
                torch.tensor(ds, dtype=F64), o)
    for z in fake.rounds(w, tr):
        pl, dl = z.pop("pl"), z.pop("dl")
        ev.append(dict(z, op="round", key=key))
        ev += zipped(pl, dl, key)
    ev.append({"op": "end", "key": key, "ok": bool(ret[0]),
               "pos": fake.sv(ret[1]), "der": fake.sv(ret[2]),
               "th": w.theta()})
    return ev


def on_samples(rng):
    fb = rng.random() < .6
    w = fake.World(rng, fb, rng.choice(["free", "free", "fixed"]))
    tr, cfg = fake.trainer(rng, w, True)
    n = rng.choice([5, 6, 7, 10, 11])
    bs = rng.choice([1, 2, 3, 4, 20])
    ep = rng.randint(1, 4)
    cfg.update(opt="Adam", epochs=ep, bs=bs)
    xs = fake.samples(rng, w.n, n)
    key = ("samples-loop" if fb else "samples") + ("-R" if w.freeR else "")
    ev = [{"op": "smp", "key": key, "cfg": cfg, "th": w.exact(),
           "xs": fake.sv(xs)}]
    quiet(tr.train_lyapunov_on_samples, torch.tensor(xs, dtype=F64), ep, bs)
    (z,) = fake.rounds(w, tr)
    ev += zipped(z["pl"], z["dl"], key)
    ev.append({"op": "end", "key": key, "th": w.theta()})
    return ev


def run(ck):
    ck.model("MC_Adv", wait=False)
    beh = ck.generate("MC_Train")
    rng = ck.rng
    torch.manual_seed(ck.seed)
    ses = []
    for b in beh * ck.n(1, 6):
        ck.replayed += 1
        ses.append(adversarial(rng, [(o["p"], o["d"]) for o in b]))
    for k in range(ck.n(160, 1400)):
        ses.append(adversarial(rng))
        ses.append(on_samples(rng))
    ck.sessions("Train", ses, 900)
