"""Encoders and decoders."""
import torch

from lib.core import R, RV, TV
import neural_network_lyapunov.encoders as enc

FAM = {"Linear1": (enc.LinearEncoder1, enc.LinearDecoder1),
       "CNN1": (enc.CNNEncoder1, enc.CNNDecoder1),
       "CNN2": (enc.CNNEncoder2, enc.CNNDecoder2)}


def allgrad(m, out):
    m.zero_grad()
    out.backward()
    return all(p.grad is not None for p in m.parameters())


def run(ck):
    ck.model("MC_Enc", wait=False)
    rng = ck.rng
    ev = []
    for k in range(ck.n(36, 150)):
        torch.manual_seed(ck.seed * 1000 + k)
        fam = list(FAM)[k % 3]
        E, D = FAM[fam]
        gray = bool((k // 3) % 2)
        z = rng.choice([1, 2, 3, 5])
        n = rng.choice([1, 2, 3])
        if fam == "Linear1":
            w, h = rng.choice([1, 3, 8, 10]), rng.choice([1, 2, 8, 9])
        elif fam == "CNN1":
            w, h = 4 * rng.choice([1, 2, 4, 5]), 4 * rng.choice([1, 2, 3])
        else:
            w, h = 4 * rng.choice([9, 10, 11, 12]), 4 * rng.choice([9, 10,
                                                                   12])
        key = fam + ("g" if gray else "c")
        ch = 2 if gray else 6
        base = {"fam": fam, "z": z, "w": w, "h": h, "gray": gray, "n": n,
                "key": key}
        try:
            e, d = E(z, w, h, gray), D(z, w, h, gray)
            e.eval()
            d.eval()
            x = torch.rand(n, ch, w, h)
            m, lv = e(x)
            parts = [e(x[i:i + 1]) for i in range(n)]
            ind = torch.allclose(m, torch.cat([p[0] for p in parts]),
                                 atol=1e-5) and torch.allclose(
                lv, torch.cat([p[1] for p in parts]), atol=1e-5)
            x2 = torch.rand(n, ch, w, h) * 20
            m2, lv2 = e(x2)
            ev.append(dict(base, op="encode", mean=list(m.shape),
                           logvar=list(lv.shape), indep=bool(ind),
                           allgrad=allgrad(e, m.sum() + lv.sum()),
                           sens=bool((m != m2).any(dim=1).all())))
            zz = torch.randn(n, z)
            y = d(zz)
            ind = torch.allclose(y, torch.cat([d(zz[i:i + 1])
                                               for i in range(n)]),
                                 atol=1e-5)
            big = d(zz * 1e4)
            ev.append(dict(base, op="decode", shape=list(y.shape),
                           unit=bool((y >= 0).all() and (y <= 1).all() and
                                     (big >= 0).all() and (big <= 1).all()),
                           indep=bool(ind), allgrad=allgrad(d, y.sum()),
                           sens=bool((y != d(zz + 1)).any())))
            # a network whose last layer is constant
            with torch.no_grad():
                for p in e.parameters():
                    p.zero_()
                # hidden units strictly negative before the rectifier
                mods = [q for q in e.modules()
                        if isinstance(q, (torch.nn.Linear, torch.nn.Conv2d))]
                for q in mods[:-1]:
                    q.bias.fill_(-1.)
                last = mods[-1]
                last.weight.fill_(1.)
                out = [rng.randint(-8, 8) / 4 for _ in range(2 * z)]
                last.bias.copy_(torch.tensor(out))
                m, lv = e(x)
            for i in range(n):
                ev.append(dict(base, op="split", mean=TV(m[i]),
                               logvar=TV(lv[i]), out=RV(out)))
            if fam == "Linear1" and w * h <= 30:
                with torch.no_grad():
                    mods = [q for q in d.modules()
                            if isinstance(q, torch.nn.Linear)]
                    for q in mods[:-1]:
                        q.weight.zero_()
                        q.bias.fill_(-1.)
                    mods[-1].weight.fill_(1.)
                    p = [rng.randint(1, 63) / 64 for _ in range(ch * w * h)]
                    pt = torch.tensor(p, dtype=torch.float64)
                    mods[-1].bias.copy_(torch.log(pt / (1 - pt)))
                    y = d(zz)
                for i in range(n):
                    ev.append(dict(base, op="layout", img=TV(y[i]),
                                   p=RV(p)))
        except Exception as ex:
            from lib.core import exc_in_repo
            if not exc_in_repo(ex):
                raise
            ev.append(dict(base, op="raised", what=repr(ex)[:300]))
    ck.trace("Enc", ev)
