"""C02: reflecting boundaries fold mirror images in and leave zero outside."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc

WIDE = [[kc.NIL, kc.NIL], [-1, kc.NIL], [kc.NIL, 4], [-1, 5], [kc.AUTO, kc.AUTO], [kc.AUTO, kc.NIL], [-2, kc.AUTO]]


def jobs(chk):
    num = chk.n(140, 1500)
    out = []
    modes = dict(StoredModes={"none", "auto", "pairs"}, QueryModes={"default", "off", "auto", "pairs"}, NQuery=2,
                 Grids={False, True}, NPoint=3)
    out.append(dict(module="Kde", constants=kc.config(1, **dict(modes, NPoint=5)), simulate=num, depth=60, seed=1))
    sels = {kc.seq(s) for s in ([], [1], [2], [2, 1])}
    out.append(dict(module="Kde", constants=kc.config(2, **modes), simulate=num, depth=60, seed=2))
    # projections, with boundaries of the selected dimensions
    out.append(dict(module="Kde", constants=kc.config(2, **dict(modes, ParamSels=sels)), simulate=num, depth=60, seed=4))
    out.append(dict(module="Kde", constants=kc.config(
        3, Reflects={kc.seq(r) for r in WIDE}, StoredModes={"none", "pairs"}, QueryModes={"default", "pairs", "auto"},
        PCoords={0, 1, 2, 3}, Grids={False}), simulate=num // 2, depth=60, seed=3))
    out.append(dict(module="Kde", constants=kc.config(4, **dict(
        StoredModes={"none", "pairs"}, QueryModes={"default", "pairs", "auto"}, ParamSels={kc.seq([]), kc.seq([2]), kc.seq([4, 1])})),
        simulate=num // 4, depth=60, seed=5))
    out.append(dict(module="Kde", constants=kc.config(5, StoredModes={"none", "pairs"}, QueryModes={"default", "pairs"}),
                    simulate=num // 6, depth=60, seed=6))
    lm = dict(modes, NPoint=2, NQuery=1)
    out.append(dict(module="Kde", constants=kc.config(1, **lm), invariants=kc.LAWS, simulate=chk.n(20, 300), depth=60, seed=11))
    out.append(dict(module="Kde", constants=kc.config(2, **lm), invariants=kc.LAWS, simulate=chk.n(8, 200), depth=60, seed=12))
    # exhaustive: two data, every kind of boundary, at construction or at the query
    out.append(dict(module="Kde", constants=kc.config(
        1, NPoint=1, NSet={2}, Coords={0, 2, 3}, PCoords={-1, 1, 4}, WSet={1, 2}, Bws={kc.bw("scalar", [2])},
        Covs={kc.seq([])}, Weighted={True}, Kernels={"box"}, StoredModes={"none", "auto", "pairs"},
        QueryModes={"default", "off", "auto", "pairs"},
        Reflects={kc.seq(r) for r in [[kc.NIL, kc.NIL], [0, kc.NIL], [-1, 3], [kc.AUTO, kc.AUTO]]}),
        invariants=kc.LAWS))
    return out


def run(chk):
    rng = np.random.default_rng(chk.seed)
    results = chk.tlc_many(jobs(chk))
    recs = [rec for res in results for rec in res.records]
    chk.notes["records"] = len(recs)
    cap = chk.n(900, 20000)
    if len(recs) > cap:
        keep = recs[:480]
        rest = recs[480:]
        recs = keep + [rest[i] for i in rng.permutation(len(rest))[:cap - 480]]
    nin = nout = 0
    for rec in recs:
        if chk.stop:
            return
        chk.replayed += 1
        emb = kb.Embedding(rng, rec["d"], rec["weighted"], plain=rng.random() < 0.4)
        with chk.case("reflected density of %d-d data" % rec["d"], record=rec, embedding=vars(emb)):
            dset, kw = kb.construct_args(rec, emb, rng)
            kde = kale.KDE(dset, **kw)
            for qq in rec["qs"]:
                kb.ask(chk, kde, rec, qq, emb, rng, "reflect=%s at construction, %s at the query" % (
                    rec["stored"]["mode"], qq["mode"]))
                nout += sum(qq["out"])
                nin += len(qq["out"]) - sum(qq["out"])
            chk.sample({"args": [dset, kw], "query": rec["qs"][0]["r"], "at": rec["qs"][0]["at"][:3]})
    chk.notes["points_inside"] = nin
    chk.notes["points_outside"] = nout
    inside(chk, recs, rng)
    many(chk, recs, rng)


def many(chk, recs, rng):
    """Long data and long lists of points: the weight of each datum split, in random order."""
    recs = [r for r in recs if r["cov"] and r["bw"]["sym"] == "" and not r["qs"][0]["grid"]]
    for rec in [recs[i] for i in rng.permutation(len(recs))[:chk.n(40, 300)]]:
        if chk.stop:
            return
        emb = kb.Embedding(rng, rec["d"], True)
        nrep, ntile = [(7, 350), (40, 101), (333, 20), (601, 9)][rng.integers(0, 4)]
        with chk.case("reflected density of split data", record=rec, repeat=nrep, embedding=vars(emb)):
            sub = dict(rec, weighted=True)
            _, kw = kb.construct_args(sub, emb, rng, permute=False)
            parts = rng.dirichlet(np.ones(nrep), size=len(rec["w"]))
            wts = (np.array(rec["w"], dtype=float)[:, None] * emb.wscale * parts).ravel()
            idx = rng.permutation(wts.size)
            kw["weights"] = wts[idx]
            kde = kale.KDE(np.repeat(emb.cols(rec["data"]), nrep, axis=1)[:, idx], **kw)
            qq = rec["qs"][0]
            pts, qkw, _, params, cols = kb.query_kwargs(sub, qq, emb, rng)
            num = cols.shape[1]
            size = num * ntile + int(rng.integers(0, num))
            every = np.atleast_1d(kde.density(cols[:, np.arange(size) % num], **qkw)[1])
            kb.need(chk, every.shape == (size,), "density of %d points has shape %r" % (size, every.shape))
            kb.compare(chk, every[:num], sub, qq, emb, params, False, "split data")
            kb.close(chk, every, np.resize(every[:num], size), "density of many points", rtol=1e-9, atol=1e-9 * np.max(every[:num]))
            chk.replayed += 1


def inside(chk, recs, rng):
    """With `True` boundaries all data lie inside: the density at the data is positive, whatever their sign and scale."""
    for rec in recs[:chk.n(150, 600)]:
        if chk.stop:
            return
        emb = kb.Embedding(rng, rec["d"], rec["weighted"])
        if any(len(set(col)) == 1 for col in zip(*rec["data"])):
            continue        # (no room between boundaries at the extremes)
        with chk.case("reflect=True contains the data", record=rec, embedding=vars(emb)):
            data = emb.cols(rec["data"])
            kw = kb.bw_arg(rec, rng)
            if rec["cov"]:
                kw["covariance"] = np.array(rec["cov"], dtype=float) * np.outer(emb.scale, emb.scale)
            kde = kale.KDE(data, kernel=rec["kernel"], reflect=True, **kw)
            got = np.atleast_1d(kde.density(data)[1])
            kb.need(chk, np.all(got > 0.0), "density at the data is %r" % (got,))
            kde = kale.KDE(data, kernel=rec["kernel"], **kw)
            got = np.atleast_1d(kde.density(data, reflect=True)[1])
            kb.need(chk, np.all(got > 0.0), "density at the data is %r (reflect=True at the query)" % (got,))
