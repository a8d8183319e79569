"""Training logs: replay of specification histories."""
import os
import shutil
import tempfile

import numpy as np
import torch

from lib.core import R, RV
from neural_network_lyapunov.training_log import TrainingLog


class Writer:
    def __init__(self, n, sink):
        self.n, self.sink = n, sink

    def add_scalars(self, tag, d, step=None, *a, **k):
        step = k.get("global_step", step)
        for name, v in d.items():
            self.sink.append({"tag": tag, "name": name, "value": R(v),
                              "step": int(step), "w": self.n})


def fl(v):
    return [a[0] / a[1] for a in v]


def obs(log, writers):
    w = [k for k, x in writers.items() if x is log.writer]
    return {"train": RV(log.train_losses), "val": RV(log.validation_losses),
            "dim": log.loss_dim, "prefix": log.prefix,
            "fvo": bool(log.first_value_only), "writer": w[0] if w else -1}


def run(ck):
    cwd = os.getcwd()
    tmp = tempfile.mkdtemp(prefix="nnl_log_")
    os.chdir(tmp)
    try:
        body(ck)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def body(ck):
    behs = ck.generate("MC_Log")
    ck.rng.shuffle(behs)
    sessions = []
    for b in behs[:ck.n(600, 6000)]:
        ck.replayed += 1
        sink, writers, logs = [], {}, []
        evs = []
        sessions.append(evs)
        evs.append({"op": "reset", "wrote": [], "obs": [], "key": "log"})
        for q, a in enumerate(b):
            ev = dict(a)
            sink.clear()
            try:
                if a["op"] == "new":
                    writers[1] = Writer(1, sink)
                    logs.append(TrainingLog(
                        a["dim"], prefix=a["prefix"], writer=writers[1],
                        **({"first_value_only": True} if a["fvo"] else {})))
                elif a["op"] == "copy":
                    kw = {}
                    if a["prefix"] != "<none>":
                        kw["prefix"] = a["prefix"]
                    if a["keep"]:
                        kw["keep_writer"] = True
                    if a["fvo"] != "none":
                        kw["first_value_only"] = a["fvo"] == "true"
                    new = TrainingLog.get_copy(logs[a["id"] - 1],
                                               **kw)
                    if a["w"] not in writers and not a["keep"]:
                        if any(new.writer is w for w in writers.values()):
                            pass
                        else:
                            if hasattr(new.writer, "close"):
                                new.writer.close()
                            writers[a["w"]] = Writer(a["w"], sink)
                            new.writer = writers[a["w"]]
                    logs.append(new)
                else:
                    v = fl(a["v"])
                    v = (torch.tensor(v, dtype=torch.float64) if q % 2
                         else np.array(v))
                    lg = logs[a["id"] - 1]
                    (lg.add_train_loss if a["op"] == "train"
                     else lg.add_validation_loss)(v)
            except Exception as e:
                ev = {"op": "raised", "what": repr(e)[:200]}
            ev["wrote"] = list(sink)
            ev["obs"] = [obs(x, writers) for x in logs]
            ev["key"] = "log"
            evs.append(ev)
    ck.sessions("Log", sessions)
