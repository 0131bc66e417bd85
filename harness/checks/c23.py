"""C23: bound selection partitions data and range accumulation is a join."""
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import Raw, close, need

ST = {Raw("<<0,0>>"), Raw("<<1,1>>"), Raw("<<4,0>>"), Raw("<<2,8>>"), Raw("<<0,0>>")}
LI = {Raw("<<99,99>>"), Raw("<<-1,99>>"), Raw("<<99,2>>"), Raw("<<0,3>>")}
LAWS = ["LawSplit", "LawJoin", "LawLimit"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    none = Raw("{}")
    jobs = [dict(module="Bounds", constants=dict(Dim=dim, Coords={-2, -1, 0, 1, 2, 3} if dim < 3 else {-1, 0, 2},
                                                 MaxData=5, NBatch=4 if dim < 3 else 2, Stretches=ST, Limits=LI, NSelect=4, Long=none),
                 invariants=LAWS, simulate=chk.n(250, 5000) // min(dim, 3), depth=90 + 20 * dim, seed=dim) for dim in (1, 2, 3)]
    plain = dict(Stretches={Raw("<<0,0>>")}, Limits={Raw("<<99,99>>")})
    jobs.append(dict(module="Bounds", constants=dict(Dim=1, Coords={-1, 0, 1, 2}, MaxData=3, NBatch=6, NSelect=1, Long=none, **plain),
                     invariants=LAWS, simulate=chk.n(150, 3000), depth=90, seed=7))
    jobs.append(dict(module="Bounds", constants=dict(Dim=1, Coords={0, 1, 2}, MaxData=2, NBatch=1, NSelect=1, Long=none, **plain),
                     invariants=LAWS))
    # many points
    jobs += [dict(module="Bounds", constants=dict(Dim=dim, Coords={-1000, 0, 1500, 3000}, MaxData=2, NBatch=3, Stretches=ST, Limits=LI,
                                                  NSelect=2, Long={600, 1536} if dim == 1 else {320}), invariants=LAWS,
                  simulate=chk.n(20, 200), depth=60, seed=30 + dim) for dim in (1, 3)]
    # many dimensions
    jobs += [dict(module="Bounds", constants=dict(Dim=dim, Coords={-1002, -700, 2400, 2950}, MaxData=0, NBatch=2, Stretches=ST, Limits=LI,
                                                  NSelect=6, Long={1, 30}), invariants=LAWS,
                  simulate=chk.n(40, 400), depth=150, seed=40 + dim) for dim in (4, 5, 6)]
    for res in chk.tlc_many(jobs):
        recs = res.records
        if len(recs) > chk.n(500, 8000):
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(500, 8000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            ranges(chk, rec, rng)
            bounds(chk, rec, rng)
    chk.sample({"history": recs[0]["hist"], "selections": recs[0]["sel"]})


def ranges(chk, rec, rng):
    mode = rng.integers(0, 3)       # linear, logarithmic, integers
    # values which are to be ignored can be left out altogether
    clear = all(len(hh["data"]) for hh in rec["hist"]) and rng.random() < 0.6
    positive = (not clear and any(hh["junk"] for hh in rec["hist"])) or rng.random() < 0.2
    base, unit, off = 10.0 ** rng.uniform(0.1, 2), 10.0 ** rng.uniform(-3, 3), rng.uniform(-20, 20)
    if rng.random() < 0.5:
        off = float(rng.integers(-3, 3))       # so that some of the values are exactly zero
    if positive:
        off = rng.uniform(3, 9)

    norm = 1000 if any(abs(xx) > 13 for hh in rec["hist"] for xx in hh["data"]) else 1

    def place(x):
        if mode == 1:
            return base ** (x / norm)
        if mode == 2:
            return x + (5 * norm if positive else 0)
        return unit * (x / norm + off)

    with chk.case("ranges of successive data", history=rec["hist"], mode=int(mode)):
        acc = None
        for hh in rec["hist"]:
            data = np.array([place(x) for x in hh["data"]])
            if positive:
                data = np.append(data, -np.abs(rng.normal(0, 5, 0 if clear else hh["junk"])).round(2) * (0 if rng.random() < 0.3 else 1))
                data = rng.permutation(data)
            if mode == 2:
                data = data.astype(int)
            if data.size and rng.random() < 0.4:
                # any shape
                factors = [ff for ff in (2, 3, 4, 5) if data.size % ff == 0]
                if factors:
                    lead = int(rng.choice(factors))
                    data = data.reshape([(lead, -1), (-1, lead), (1, lead, -1)][rng.integers(0, 3)])
                    factors = [ff for ff in (2, 3, 4) if data.shape[-1] % ff == 0]
                    if factors:
                        data = data.reshape(data.shape[:-1] + (int(rng.choice(factors)), -1))
                data = gb.layout(rng, data)
            if rng.random() < 0.3 and not positive:
                data = data.tolist()
            kw = {}
            if positive:
                kw["positive"] = True
            elif rng.random() < 0.5:
                kw["positive"] = False
            ff = [f / 4 for f in hh["f"]]
            if any(ff) or rng.random() < 0.3:
                kw["log_stretch" if mode == 1 else "stretch"] = ff[0] if (ff[0] == ff[1] and rng.random() < 0.7) else ff
            if any(hh["lim"]) or rng.random() < 0.2:
                kw["limit"] = [place(ll[0][0] / ll[0][1]) if ll else None for ll in hh["lim"]]
            if any(hh["prev"]):
                kw["prev"] = acc if rng.random() < 0.6 else [list, tuple][rng.integers(0, 2)](acc)
                if rng.random() < 0.15 and hh["data"] and not any(hh["lim"]):
                    # an unknown previous end does not matter if the data reach beyond
                    prev = list(acc)
                    for ii in range(2):
                        if hh["res"][ii] != hh["prev"][ii]:
                            prev[ii] = None
                    kw["prev"] = prev
            elif rng.random() < 0.3:
                kw["prev"] = None
            if not hh["data"] and not positive:
                continue
            before = kb.snapshot({"data": data, "kw": kw})
            res = utils.minmax(data, **kw)
            need(chk, kb.unchanged(before, {"data": data, "kw": kw}), "minmax modifies its arguments (%r)" % (kw,))
            if hh["none"] or (not hh["data"] and kw.get("prev") is None):
                need(chk, res is None, "minmax without data is %r" % (res,))
                continue
            want = [place(rr[0][0] / rr[0][1]) for rr in hh["res"]]
            close(chk, res, want, "minmax(%r, %s)" % (data, kw), rtol=1e-9, atol=1e-9 * (unit * 20 if mode == 0 else 0))
            acc = res


def bounds(chk, rec, rng):
    dim = rec["d"]
    for ss in rec["sel"]:
        scale = np.ones(dim) if rng.random() < 0.3 else 10.0 ** rng.uniform(-3, 3, dim)
        shift = rng.choice([0.0, 1.0], dim) * rng.normal(0, 10, dim) * scale
        data = np.array(ss["pts"], dtype=float).T * scale[:, np.newaxis] + shift[:, np.newaxis]
        bnd = []
        for ii, row in enumerate(ss["b"]):
            row = [None if bb == 99 else bb * scale[ii] + shift[ii] for bb in row]
            if row == [None, None] and rng.random() < 0.6:
                row = None
            else:
                row = [list, tuple][rng.integers(0, 2)](row)
                if None not in row and rng.random() < 0.3:
                    row = np.array(row)
            bnd.append(row)
        if dim == 1:
            if rng.random() < 0.5:
                data = data[0]
            if rng.random() < 0.5:
                bnd = bnd[0]
        data = data.tolist() if rng.random() < 0.3 else gb.layout(rng, data)
        with chk.case("points within bounds %r" % (bnd,), selection=ss):
            before = kb.snapshot({"data": data, "bnd": bnd})
            for out, want in ((False, ss["ins"]), (True, ss["outs"])):
                kw = {} if (not out and rng.random() < 0.5) else {"outside": out}
                got = np.asarray(utils.bound_indices(data, bnd, **kw))
                need(chk, got.shape == (len(want),), "bound_indices has shape %r for %d points" % (got.shape, len(want)))
                need(chk, got.tolist() == want, "bound_indices(%r, %r, outside=%s) is %r, specification says %r" % (
                    data, bnd, out, got, want))
            need(chk, kb.unchanged(before, {"data": data, "bnd": bnd}), "bound_indices modifies its arguments")
