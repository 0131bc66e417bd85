"""C03: projection onto parameters uses exactly the selected dimensions, in order."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc

WIDE = [[kc.NIL, kc.NIL], [-1, kc.NIL], [kc.NIL, 4], [-1, 5], [kc.AUTO, kc.AUTO]]
SELS = {2: [[1], [2], [1, 2], [2, 1]],
        3: [[1], [2], [3], [1, 2], [2, 1], [1, 3], [3, 1], [2, 3], [3, 2], [1, 2, 3], [3, 1, 2], [2, 3, 1], [3, 2, 1]],
        5: [[5], [2, 5], [5, 1, 3], [1, 2, 4, 5], [5, 3, 2, 1], [4, 5, 1, 2], [1, 2, 3, 4, 5], [2, 1, 5, 4, 3]],
        4: [[1], [4], [1, 4], [4, 2], [3, 4], [2, 3, 4], [4, 1, 3], [1, 2, 3, 4], [4, 3, 2, 1], [2, 4, 1, 3]]}


def jobs(chk):
    out = []
    base = dict(StoredModes={"none", "auto", "pairs"}, QueryModes={"default", "off", "auto", "pairs"}, NQuery=3,
                Grids={False, True}, NPoint=3, Reflects={kc.seq(r) for r in WIDE})
    for dim, num in ((2, chk.n(150, 1500)), (3, chk.n(70, 1500)), (4, chk.n(50, 600)), (5, chk.n(14, 400))):
        cc = kc.config(dim, **dict(base, ParamSels={kc.seq(s) for s in SELS[dim]}))
        if dim > 3:
            cc["Reflects"] = {kc.seq(r) for r in WIDE[:3]}
            cc["PCoords"] = {0, 1, 2}
            cc["StoredModes"], cc["QueryModes"] = {"none", "pairs"}, {"default", "pairs"}
        if dim == 3:
            cc["PCoords"] = {0, 1, 2, 3}
            cc["Reflects"] = {kc.seq(r) for r in WIDE[:4]}
        out.append(dict(module="Kde", constants=cc, simulate=num, depth=60, seed=dim))
    cc = kc.config(2, **dict(base, ParamSels={kc.seq(s) for s in SELS[2]}, NQuery=2, NPoint=2))
    out.append(dict(module="Kde", constants=cc, invariants=kc.LAWS, simulate=chk.n(10, 200), depth=60, seed=12))
    # a single parameter, named
    cc = kc.config(1, **dict(base, ParamSels={kc.seq([]), kc.seq([1])}))
    out.append(dict(module="Kde", constants=cc, simulate=chk.n(30, 200), depth=60, seed=4))
    return out


def run(chk):
    rng = np.random.default_rng(chk.seed)
    results = chk.tlc_many(jobs(chk))
    recs = [rec for res in results for rec in res.records]
    for rec in recs:
        if chk.stop:
            return
        chk.replayed += 1
        emb = kb.Embedding(rng, rec["d"], rec["weighted"], plain=rng.random() < 0.3)
        with chk.case("projected density of %d-d data" % rec["d"], record=rec, embedding=vars(emb)):
            dset, kw = kb.construct_args(rec, emb, rng)
            kde = kale.KDE(dset, **kw)
            for qq in rec["qs"]:
                kb.ask(chk, kde, rec, qq, emb, rng, "params=%s" % (qq["params"],))
            chk.sample({"args": [dset, kw], "params": rec["qs"][0]["params"], "at": rec["qs"][0]["at"][:3]})
    defaults(chk, recs, rng)
    marginal(chk, recs, rng)


def defaults(chk, recs, rng):
    """Without points, the matching default points of the selected dimensions are used, in their order."""
    for rec in [r for r in recs if r["d"] == 2][:chk.n(25, 150)] + [r for r in recs if r["d"] == 3][:chk.n(25, 150)]:
        if chk.stop:
            return
        dim = rec["d"]
        emb = kb.Embedding(rng, dim, rec["weighted"])
        with chk.case("default points of projections", record=rec, embedding=vars(emb)):
            dset, kw = kb.construct_args(rec, emb, rng)
            edges = [emb.val(dd, np.linspace(-1, 4, 4 + dd)) for dd in range(dim)]
            kde = kale.KDE(dset, points=edges, **kw)
            for qq in rec["qs"]:
                params = [p - 1 for p in qq["params"]]
                if not params:
                    continue
                want = [edges[pp] for pp in params]
                pts, vals = kde.density(params=params if len(params) > 1 else params[0])
                vals = np.asarray(vals)
                kb.check_points(chk, pts, want, "default points with params=%s" % params)
                kb.need(chk, vals.shape == tuple(len(ww) for ww in want), "shape %s of projected density on default points"
                        " of lengths %s" % (vals.shape, [len(ww) for ww in want]))
                ref = kde.density(np.array([gg.ravel() for gg in np.meshgrid(*want, indexing="ij")]), params=params)[1]
                kb.close(chk, vals.ravel(), np.ravel(ref), "density on the default points", rtol=1e-9,
                         atol=1e-12 * np.max(np.abs(ref)))
                chk.replayed += 1


def marginal(chk, recs, rng):
    """For the Gaussian kernel the projection is the marginal: integrate the full density over the other dimension."""
    sel = [r for r in recs if r["d"] == 2 and r["kernel"] == "gaussian" and r["stored"]["mode"] == "none"]
    for rec in sel[:chk.n(6, 40)]:
        if chk.stop:
            return
        with chk.case("Gaussian marginal", record=rec):
            emb = kb.Embedding(rng, 2, rec["weighted"])
            dset, kw = kb.construct_args(rec, emb, rng)
            kde = kale.KDE(dset, **kw)
            sig = np.sqrt(np.diag(kde.kernel.matrix))
            for keep, gone in ((0, 1), (1, 0)):
                xx = emb.val(keep, np.array([0.0, 1.5, 3.0]))
                lo, hi = np.min(kde.dataset[gone]) - 12 * sig[gone], np.max(kde.dataset[gone]) + 12 * sig[gone]
                # the conditional width may be narrower than the marginal one
                corr = kde.kernel.matrix[0, 1] / (sig[0] * sig[1])
                num = int((hi - lo) / (sig[gone] * np.sqrt(1 - corr ** 2)) * 8) + 10
                if num > 4000:
                    continue
                yy = np.linspace(lo, hi, num)
                gg = [None, None]
                gg[keep], gg[gone] = [aa.ravel() for aa in np.meshgrid(xx, yy, indexing="ij")]
                full = np.asarray(kde.density(np.array(gg))[1]).reshape(len(xx), num)
                want = np.sum(full, axis=1) * (yy[1] - yy[0])
                got = np.asarray(kde.density(xx, params=keep)[1])
                kb.close(chk, got, want, "projection compared with the marginal", rtol=1e-6, atol=1e-12 * np.max(want))
