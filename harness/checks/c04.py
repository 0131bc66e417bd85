"""C04: evaluation points, grids and returned shapes correspond one to one."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc
from core import close, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = []
    base = dict(StoredModes={"none", "pairs"}, NQuery=2, Grids={True, False}, NPoint=4,
                Reflects={kc.seq(r) for r in ([kc.NIL, kc.NIL], [-1, kc.NIL], [kc.NIL, 5], [-2, 6])})
    sels = {1: [[]], 2: [[], [2], [2, 1]], 3: [[], [3], [3, 1], [2, 3, 1]]}
    for dim, num in ((1, chk.n(60, 600)), (2, chk.n(120, 1500)), (3, chk.n(60, 800))):
        cc = kc.config(dim, **dict(base, ParamSels={kc.seq(s) for s in sels[dim]}))
        if dim == 3:
            cc["Grids"] = {True}
            cc["NPoint"] = 3
        jobs.append(dict(module="Kde", constants=cc, simulate=num, depth=60, seed=40 + dim))
    results = chk.tlc_many(jobs)
    for res in results:
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)
    default_points(chk, rng)


def one(chk, rec, rng):
    emb = kb.Embedding(rng, rec["d"], rec["weighted"], plain=rng.random() < 0.5)
    with chk.case("grids of %d-d data" % rec["d"], record=rec, embedding=vars(emb)):
        dset, kw = kb.construct_args(rec, emb, rng)
        kde = kale.KDE(dset, **kw)
        for qq in rec["qs"]:
            vals = kb.ask(chk, kde, rec, qq, emb, rng, "grid=%s" % qq["grid"])
            if qq["grid"]:
                # identical to evaluating the same points as a list
                params = [p - 1 for p in qq["params"]] if qq["params"] else list(range(rec["d"]))
                cols = emb.cols(qq["at"], params)
                lst = np.asarray(kde.density(cols, params=params)[1])
                grd = np.asarray(kde.density([np.array(emb.val(p, np.array(qq["at"], dtype=float)[
                    ::int(np.prod(qq["len"][a + 1:])), a][:qq["len"][a]])) for a, p in enumerate(params)],
                    params=params, grid=True)[1])
                close(chk, np.atleast_1d(grd).ravel(), np.atleast_1d(lst).ravel(), "grid and list of the same points",
                      rtol=1e-9, atol=1e-300)
        chk.sample({"args": [dset, kw], "query": rec["qs"][0]})


def ranks(tol, *groups):
    """Integer ranks (from 1) of numbers, equal if within `tol`."""
    vals = np.sort(np.concatenate([np.ravel(g) for g in groups]))
    starts = np.concatenate([[True], np.diff(vals) > tol])
    reps = vals[starts]
    return [[int(np.searchsorted(reps, v + tol, side="right")) for v in np.ravel(g)] for g in groups]


def default_points(chk, rng):
    events, infos = [], []
    for kk in range(chk.n(110, 1500)):
        if chk.stop:
            return
        dim = int(rng.choice([1, 1, 2, 2, 3]))
        num = int(rng.choice([2, 3, 5, 30, 200])) if dim == 1 else int(rng.choice([4, 7, 25]))
        scale = 10.0 ** rng.uniform(-5, 5, (dim, 1))
        data = (rng.normal(0, 1, (dim, num)) if rng.random() < 0.5 else rng.uniform(0, 1, (dim, num)) ** 3) * scale
        data = data + rng.uniform(-15, 15, (dim, 1)) * scale
        kw = {}
        if rng.random() < 0.5:
            kw["weights"] = rng.choice([0.1, 1.0, 5.0, 100.0], num)
        kw["kernel"] = str(rng.choice(["gaussian", "box", "parabola", "triweight"]))
        if rng.random() < 0.3:
            kw["bandwidth"] = float(rng.choice([0.02, 0.2, 1.5]))
        lohi = np.zeros((dim, 2)) * np.nan
        span = np.ptp(data, axis=1)
        how = rng.choice(["none", "reflect", "extrema", "both", "true"])
        if how == "true":
            kw["reflect"] = True
            lohi = np.array([[np.min(dd), np.max(dd)] for dd in data])
        elif how in ("reflect", "both"):
            refl = []
            for dd in range(dim):
                pair = [np.min(data[dd]) - span[dd] * rng.uniform(0.001, 0.5), np.max(data[dd]) + span[dd] * rng.uniform(0.001, 0.5)]
                pick = rng.integers(0, 4)
                pair = [pair[0] if pick & 1 else None, pair[1] if pick & 2 else None]
                for ii in range(2):
                    if pair[ii] is not None:
                        lohi[dd, ii] = pair[ii]
                refl.append(pair if pick or rng.random() < 0.5 else None)
            kw["reflect"] = refl
        if how in ("extrema", "both"):
            lohi[:] = np.nan
            extr = []
            for dd in range(dim):
                pair = [np.min(data[dd]) - span[dd] * rng.uniform(-0.2, 0.8), np.max(data[dd]) + span[dd] * rng.uniform(-0.2, 0.8)]
                pick = rng.integers(0, 4) if how == "extrema" else 3
                pair = [pair[0] if pick & 1 else None, pair[1] if pick & 2 else None]
                for ii in range(2):
                    if pair[ii] is not None:
                        lohi[dd, ii] = pair[ii]
                extr.append((tuple(pair) if rng.random() < 0.5 else pair) if pick or rng.random() < 0.5 else None)
            kw["extrema"] = extr
        fixed = [None] * dim
        nbins = [0] * dim
        if dim == 3:
            nbins = [int(v) for v in rng.permutation([3, 4, 6])]
            kw["points"] = nbins
        elif rng.random() < 0.25:
            # one number of points for all dimensions
            nbins = [int(rng.integers(2, 12))] * dim
            kw["points"] = nbins[0] if rng.random() < 0.7 else np.int64(nbins[0])
        elif rng.random() < 0.3:
            pp = []
            for dd in range(dim):
                if rng.random() < 0.5:
                    fixed[dd] = np.sort(rng.uniform(data[dd].min() - span[dd], data[dd].max() + span[dd], int(rng.integers(3, 9))))
                    pp.append(fixed[dd])
                else:
                    nbins[dd] = int(rng.integers(2, 12))
                    pp.append(nbins[dd])
            kw["points"] = pp
        dset = data[0] if (dim == 1 and rng.random() < 0.6) else data
        with chk.case("default points", dataset=dset, args=kw):
            kde = kale.KDE(dset, **kw)
            pts, vals = kde.density(probability=bool(rng.integers(0, 2)))
            vals = np.asarray(vals)
            pts = [np.asarray(pts, dtype=float).ravel()] if dim == 1 else [np.asarray(pp, dtype=float) for pp in pts]
            need(chk, len(pts) == dim, "default points of %d dimensions for %d-d data" % (len(pts), dim))
            need(chk, np.all(np.isfinite(vals)), "density on default points is not finite")
            dims = []
            for dd in range(dim):
                tol = 1e-6 * span[dd] + (3e-8 * np.max(np.abs(data[dd])) if how == "true" else 0.0)
                bnd = [v for v in lohi[dd] if np.isfinite(v)]
                fx = [] if fixed[dd] is None else fixed[dd]
                if fixed[dd] is not None:
                    tol = 0.0
                re, rd, rb, rf = ranks(tol, pts[dd], [np.min(data[dd]), np.max(data[dd])], np.array(bnd), np.array(fx))
                rb = list(rb)
                lo = rb.pop(0) if np.isfinite(lohi[dd, 0]) else 0
                hi = rb.pop(0) if np.isfinite(lohi[dd, 1]) else 0
                dims.append({"e": re, "dmin": rd[0], "dmax": rd[1], "lo": lo, "hi": hi, "fixed": rf, "num": nbins[dd]})
            # the values belong to those points; a sample of them, as a list
            flat = np.array([gg.ravel() for gg in np.meshgrid(*pts, indexing="ij")])
            pick = rng.integers(0, flat.shape[1], 20)
            ref = np.asarray(kde.pdf(flat[:, pick], reflect=kw.get("reflect"))[1])
            raw = vals.ravel()[pick] if vals.size == flat.shape[1] else vals.ravel()
            tot = 1.0 if kw.get("weights") is None else float(np.sum(kw["weights"]))
            tot = float(num) if kw.get("weights") is None else tot
            if not np.allclose(raw, ref, rtol=1e-8, atol=1e-300):
                close(chk, raw, ref * tot, "default density compared with the same points as a list", rtol=1e-8, atol=1e-300)
            other = list(vals.shape)
            if dim == 2:
                other = list(np.asarray(kde.density(params=[1, 0])[1]).shape)[::-1]
            events.append({"dims": dims, "shape": list(vals.shape), "other": other})
            infos.append((dset, kw, [pp[:3].tolist() + pp[-3:].tolist() for pp in pts]))
    if events:
        chk.sample({"event": events[0]})
        for idx, clause in chk.judge("KdePointsTrace", events):
            chk.violate("default points: %s" % clause, event=events[idx - 1], dataset=infos[idx - 1][0], args=infos[idx - 1][1],
                        points=infos[idx - 1][2])
