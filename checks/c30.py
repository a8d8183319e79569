"""Certificate descent: scripted runs of Trainer.train."""
import contextlib
import io
import os
import shutil
import tempfile

import torch

from lib import fake
from lib.core import R, TV, tick

F64 = torch.float64


def quiet(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


def session(rng, script=None, tmp=None):
    fb = rng.random() < .6
    w = fake.World(rng, fb, rng.choice(["free", "free", "fixed"]))
    tr, cfg = fake.trainer(rng, w)
    if script is None:
        script = []
        for _ in range(tr.max_iterations):
            script.append((rng.random() < .55, rng.random() < .55))
        if rng.random() < .4:
            script[-1] = (False, False)
    else:
        tr.max_iterations = cfg["maxit"] = len(script)
    for pb, db in script:
        w.script["pos"].append(fake.entries(rng, w.n, 0, rng.randint(1, 3),
                                            pb))
        w.script["der"].append(fake.entries(rng, w.n, 0, rng.randint(1, 3),
                                            db))
    if tmp:
        cfg["save"] = tr.save_network_iterations = rng.choice([1, 2, 3])
        tr.save_network_path = tmp
    xs = fake.samples(rng, w.n, rng.choice([0, 1, 2, 4]))
    if cfg["wpm"][0] == cfg["wdm"][0] == 0 and not (
            xs and cfg["wps"][0] + cfg["wds"][0] > 0):
        tr.lyapunov_positivity_mip_cost_weight = .5    # something to train
        cfg["wpm"] = R(.5)
    ev = [{"op": "train", "key": "loop" if fb else "auto", "cfg": cfg,
           "th": w.exact(), "xs": fake.sv(xs)}]
    ret = quiet(tr.train, torch.tensor(xs, dtype=F64).reshape(-1, w.n))
    for z in fake.rounds(w, tr):
        ev.append(dict(z, op="iter", key=ev[0]["key"]))
    e = {"op": "end", "key": ev[0]["key"], "ok": bool(ret[0]),
         "ret": TV(ret[1:]), "th": w.theta(), "saved": []}
    if tmp:
        with torch.serialization.safe_globals([torch.nn.Linear]):
            ld = lambda n: torch.load(os.path.join(tmp, n),  # noqa: E731
                                      weights_only=False)
            c = ld("controller.pt").weight.reshape(-1) if fb else \
                w.system.gain().reshape(1)
            e["saved"] = TV(torch.cat((
                ld("lyapunov.pt").weight.detach().reshape(-1),
                c.detach(), ld("R.pt").detach().reshape(-1))))
    ev.append(e)
    return ev


def run(ck):
    beh = ck.generate("MC_Train")
    rng = ck.rng
    torch.manual_seed(ck.seed)
    rng.shuffle(beh)
    ses = []
    for b in beh[:ck.n(150, 1200)]:
        ck.replayed += 1
        ses.append(session(rng, [(o["p"], o["d"]) for o in b]))
    for k in range(ck.n(250, 2000)):
        tmp = tempfile.mkdtemp(prefix="nnl_c30_") if k % 6 == 0 else None
        try:
            ses.append(session(rng, None, tmp))
        finally:
            if tmp:
                shutil.rmtree(tmp, ignore_errors=True)
    ck.sessions("Train", ses, 400)
