"""C25: histograms conserve weight under every normalisation."""
import numpy as np
from kalepy import utils
import kdebind as kb
from core import Raw, close, need
from gridbind import filling, whole

LAWS = ["LawOnce", "LawJoin"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    cc = dict(Coords={-3, -2, -1, 0, 1, 2, 3, 4, 6, 9}, Weights={0, 1, 2, 5}, MaxData=8, Gaps={1, 2, 3, 5}, First={-3, -1, 0}, MaxEdge=6, Long=Raw("{}"))
    jobs = [dict(module="Histogram", constants=cc, invariants=LAWS, simulate=chk.n(1200, 20000), depth=30, seed=1),
            dict(module="Histogram", constants=dict(cc, Coords={-1, 0, 1, 2}, Weights={0, 2}, MaxData=2, Gaps={1, 2}, First={-1, 0},
                                                    MaxEdge=3), invariants=LAWS)]
    # many data and bins
    for num, bins in ((1300, 1), (1150, 7), (300, 140)):
        for up in (0, 1):
            form = {Raw("<<%d, %d, %d, %d, %d, %d>>" % (num, bins, *rng.integers(1, 60, 2), mod, up))
                    for mod in rng.permutation([11, 400, 3001])[:chk.n(2, 3)]}
            jobs.append(dict(module="Histogram", constants=dict(cc, First={-120}, MaxEdge=2, Long=form), invariants=LAWS,
                             simulate=chk.n(2, 20), depth=30, seed=num + up))
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            for _ in range(4 if len(rec["data"]) > 100 else 1):
                one(chk, rec, rng)


def one(chk, rec, rng):
    plain = rng.random() < 0.3
    # (dyadic embeddings: data on edges stay exactly on them)
    amp = 1 if plain else 2.0 ** rng.integers(-12, 13)
    off = 0 if plain else int(rng.integers(-100, 100))
    base = off * amp
    if rng.random() < 0.15:
        amp, base = filling(rng, min(rec["data"] + rec["edges"]), max(rec["data"] + rec["edges"]))
    data = np.array(rec["data"]) * amp + base
    edges = np.array(rec["edges"]) * amp + base
    unit = 1 if plain and rng.random() < 0.5 else 10.0 ** rng.uniform(-5, 5)
    wts = np.array(rec["w"]) * unit
    order = rng.permutation(data.size)
    data, wts = data[order], wts[order]
    total = rec["total"] * unit if rec["weighted"] else len(rec["data"])
    want = np.array(rec["hist"]) * (unit if rec["weighted"] else 1)
    arg = [whole(rng, data), data.tolist(), tuple(data)][rng.integers(0, 3)]
    bins = [whole(rng, edges), edges.tolist()][rng.integers(0, 2)]
    kw = {}
    if rec["weighted"]:
        kw["weights"] = [whole(rng, wts), wts.tolist()][rng.integers(0, 2)]
    elif rng.random() < 0.3:
        kw["weights"] = None
    with chk.case("histogram", record=rec):
        before = kb.snapshot({"data": arg, "bins": bins, "kw": kw})
        wid = np.diff(edges)
        for dens in (False, True):
            for prob in (False, True):
                hist, ee = utils.histogram(arg, bins, density=dens, probability=prob, **kw)
                res = want / (wid if dens else 1.0) / (total if prob else 1.0)
                what = "histogram(%r, %r, density=%s, probability=%s, %s)" % (arg, bins, dens, prob, kw)
                close(chk, ee, edges, "edges of " + what)
                close(chk, hist, res, what, rtol=1e-10, atol=1e-12 * unit)
        hist, ee = utils.histogram(arg, bins, **kw)
        close(chk, hist, want, "histogram without options", rtol=1e-10, atol=1e-12 * unit)
        # automatic bins hold everything
        if data.min() < data.max():
            kk = [{}, {"bins": None}, {"bins": "auto"}, {"bins": "sturges"}, {"bins": int(rng.integers(1, 9))}][rng.integers(0, 5)]
            hist, ee = utils.histogram(arg, density=True, probability=True, **kk, **kw)
            close(chk, np.sum(hist * np.diff(ee)), 1.0, "total of histogram(%s)" % kk, rtol=1e-9)
            close(chk, [ee[0], ee[-1]], [data.min(), data.max()], "ends of automatic bins", rtol=1e-9, atol=1e-9 * amp)
            hist, ee = utils.histogram(arg, **kk, **kw)
            close(chk, np.sum(hist), total, "total of histogram(%s)" % kk, rtol=1e-9)
        need(chk, kb.unchanged(before, {"data": arg, "bins": bins, "kw": kw}), "histogram modifies its arguments")
        chk.sample({"data": arg, "bins": bins, "args": kw, "expected": want})
