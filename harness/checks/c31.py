"""C31: drawn 1D and 2D summaries match the weighted data they represent."""
import numpy as np
import kalepy as kale
import plotbind as pb
import kdebind as kb
import gridbind as gb
from core import Raw, close, need, same
from fractions import Fraction

plot = pb.plot
FRAC = lambda qq: qq[0] / qq[1]     # noqa


def run(chk):
    rng = np.random.default_rng(chk.seed)
    steps = dict(Gaps={1, 2, 5}, First={-3, 0}, Values={-2, -1, 0, 0, 1, 3, 4}, MaxBins=6, Scales={0, 1, 2, 5})
    hist = dict(Coords={-3, -2, -1, 0, 1, 2, 3, 4, 6, 9}, Weights={1, 2, 5}, MaxData=9, Gaps={1, 2, 3, 5}, First={-3, -1, 0}, MaxEdge=6, Long=Raw("{}"))
    mesh = dict(Coords={-3, -1, 0, 1, 2, 4, 5}, Weights={1, 2, 6}, NData={6, 12, 25}, Gaps={1, 2, 4}, First={-4, -3, 0}, NBins={2, 3, 4})
    jobs = [dict(module="Steps", constants=steps, invariants=["LawBars", "LawScaled", "LawWhole"], simulate=chk.n(400, 8000), depth=12, seed=1),
            dict(module="Steps", constants=dict(Gaps={1}, First={0}, Values={-1, 0, 2}, MaxBins=3, Scales={0, 3}),
                 invariants=["LawBars", "LawScaled", "LawWhole"]),
            # heights which differ by orders of magnitude, and many bins
            dict(module="Steps", constants=dict(steps, Values={-1, 0, 1, 30, 5000}, MaxBins=25), invariants=["LawBars", "LawScaled", "LawWhole"],
                 simulate=chk.n(100, 2000), depth=40, seed=4),
            dict(module="Histogram", constants=hist, invariants=["LawOnce", "LawJoin"], simulate=chk.n(400, 8000), depth=30, seed=2),
            dict(module="Mesh", constants=mesh, invariants=["LawOnce", "LawEmpty", "LawCount"], simulate=chk.n(200, 3000), depth=100, seed=3)]
    counts = {"steps": 0, "histograms": 0, "meshes": 0, "bands": 0}
    results = chk.tlc_many(jobs)
    trace, where = [], []
    for kind, func, recs, most in (("steps", one_steps, results[0].records + results[1].records + results[2].records, chk.n(600, 10000)),
                                   ("histograms", one_hist, results[3].records, chk.n(150, 3000)),
                                   ("meshes", one_mesh, results[4].records, chk.n(110, 2000))):
        if len(recs) > most:
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:most]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            counts[kind] += 1
            try:
                func(chk, rec, rng, trace, where)
            finally:
                pb.close_all()
    for _ in range(chk.n(60, 1000)):
        bands(chk, rng, trace, where)
        pb.close_all()
    counts["bands"] = len(trace)
    for idx, clause in chk.judge("BandsTrace", trace):
        chk.violate("%s: %s" % (where[idx - 1][0], clause), event=trace[idx - 1], case=where[idx - 1][1])
    trace, where, btrace = [], [], ([], [])
    for _ in range(chk.n(100, 1500)):
        if chk.stop:
            return
        carpets(chk, rng, trace, where, *btrace)
        pb.close_all()
    for idx, clause in chk.judge("CarpetTrace", trace):
        chk.violate("%s: %s" % (where[idx - 1][0], clause), event=trace[idx - 1], case=where[idx - 1][1])
    counts["carpets"] = len(trace)
    for idx, clause in chk.judge("BandsTrace", btrace[0]):
        chk.violate("%s: %s" % (btrace[1][idx - 1][0], clause), event=btrace[0][idx - 1], case=btrace[1][idx - 1][1])
    counts["medians"] = len(btrace[0])
    chk.notes["drawn"] = counts


def runs(xx, yy):
    """Parts of a line without gaps."""
    bad = np.ma.getmaskarray(np.ma.masked_invalid(np.ma.asarray(xx, dtype=float)))
    bad = bad | np.ma.getmaskarray(np.ma.masked_invalid(np.ma.asarray(yy, dtype=float)))
    out, new = [], True
    for x, y, b in zip(np.ma.getdata(xx), np.ma.getdata(yy), bad):
        if b:
            new = True
            continue
        if new:
            out.append([])
        new = False
        out[-1].append((x, y))
    return out


def check_lines(chk, line, want, rotate, what):
    got = runs(line.get_xdata(orig=True), line.get_ydata(orig=True))
    same(chk, [len(gg) for gg in got], [len(ww) for ww in want], what + ": points of the lines")
    for gg, ww in zip(got, want):
        ww = [(yy, xx) if rotate else (xx, yy) for xx, yy in ww]
        tol = 1e-12 * max(np.abs(ww).max(), 1e-300)
        close(chk, np.array(gg), np.array(ww), what, rtol=1e-9, atol=tol * 0)


def one_steps(chk, rec, rng, trace, where):
    emb = gb.Emb(rng, 1)
    edges = emb.edges([rec["edges"]])[0]
    hist = np.array(rec["hist"]) * emb.amp
    rotate = bool(rng.random() < 0.4)
    kw = dict(joints=rec["joints"], nonzero=rec["nonzero"], positive=rec["positive"], rotate=rotate)
    top = 1.0
    if rec["scale"]:
        kw["renormalize"] = True if rec["scale"] == 1 and rng.random() < 0.7 else rec["scale"]
    else:
        top = emb.amp
        if rng.random() < 0.4:
            kw["renormalize"] = [False, None][rng.integers(0, 2)]
    want = [[(emb.edges([[xx]])[0][0], FRAC(yy) * top) for xx, yy in line] for line in rec["lines"]]
    hh = hist if rng.random() < 0.7 else hist.tolist()
    ee = edges if rng.random() < 0.7 else edges.tolist()
    before = kb.snapshot({"h": hh, "e": ee})
    with chk.case("draw_hist1d(%r)" % (kw,), record=rec):
        with pb.axes() as ax:
            line = plot.draw_hist1d(ax, ee, hh, **kw)
            need(chk, line in ax.lines and len(ax.lines) == 1, "draw_hist1d draws %d lines" % len(ax.lines))
            check_lines(chk, line, want, rotate, "steps")
            need(chk, kb.unchanged(before, {"h": hh, "e": ee}), "draw_hist1d modifies its arguments")
            chk.sample({"edges": ee, "hist": hh, "options": kw, "lines": want})


def place1(rng, rec):
    amp = 2.0 ** rng.integers(-9, 10)
    off = int(rng.integers(-50, 50))
    if rng.random() < 0.3:
        amp, off = 1.0, 0
    data = (np.array(rec["data"]) + off) * amp
    edges = (np.array(rec["edges"]) + off) * amp
    unit = 10.0 ** rng.uniform(-4, 4) if rng.random() < 0.6 else 1.0
    return data, edges, np.array(rec["w"]) * unit


def one_hist(chk, rec, rng, trace, where):
    data, edges, wts = place1(rng, rec)
    kw = {"weights": wts} if rec["weighted"] else ({"weights": None} if rng.random() < 0.3 else {})
    total = wts.sum() if rec["weighted"] else data.size
    mass = np.array(rec["hist"]) * (wts.sum() / sum(rec["w"]) if rec["weighted"] else 1)
    rotate = bool(rng.random() < 0.4)
    with chk.case("hist1d of %d data" % data.size, record=rec):
        dens, prob = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
        want = mass / (np.diff(edges) if dens else 1) / (total if prob else 1)
        lines = [[(edges[kk + end], want[kk]) for kk in range(want.size) for end in (0, 1)]]
        with pb.axes() as ax:
            arg = data if rng.random() < 0.7 else data.tolist()
            if rng.random() < 0.5:
                kw["ax"] = ax
            hist, ee, line = plot.hist1d(arg, edges=edges, density=dens, probability=prob, rotate=rotate, **kw)
            close(chk, hist, want, "values of hist1d", rtol=1e-9)
            close(chk, ee, edges, "edges of hist1d", rtol=1e-12)
            check_lines(chk, line, lines, rotate, "steps of hist1d")
    # distribution: histogram, density, confidence bands and carpet together
    if len(set(rec["data"])) < 3 or mass.sum() == 0:
        return
    kw.pop("ax", None)
    with chk.case("dist1d of %d data" % data.size, record=rec):
        prob = bool(rng.random() < 0.6)
        opts = dict(hist=bool(rng.random() < 0.6), density=bool(rng.random() < 0.6), confidence=bool(rng.random() < 0.5),
                    carpet=bool(rng.random() < 0.5))
        if not opts["hist"] and not opts["density"]:
            opts["density"] = True
        kde = kale.KDE(data, weights=kw.get("weights"))
        args = dict(probability=prob) if not prob or rng.random() < 0.5 else {}
        arg = data
        if rng.random() < 0.5:
            arg = kde
        else:
            args.update(kw)
        fracs = [0.2, 0.68]
        if opts["confidence"]:
            args["quantiles"] = fracs
        factor = opts["density"]
        if factor and rng.random() < 0.4:
            factor = float(rng.choice([2.5, 0.3, 0.01]))
        shown = dict(opts, density=factor)
        # without being told, the density of an estimate, and the histogram of data, are drawn
        if arg is kde and factor is True and not opts["hist"] and rng.random() < 0.5:
            shown.pop("density"), shown.pop("hist")
        if arg is not kde and opts["hist"] and not opts["density"] and rng.random() < 0.5:
            shown.pop("density"), shown.pop("hist")
        with pb.axes() as ax:
            plot.dist1d(arg, ax=ax, edges=edges, rotate=rotate, **shown, **args)
            got = pb.Drawn(ax)
            same(chk, len(got.curves), int(opts["hist"]) + int(opts["density"]), "number of curves of dist1d")
            same(chk, len(got.points), int(opts["carpet"]), "number of carpets of dist1d")
            idx = (1, 0) if rotate else (0, 1)
            if opts["density"]:
                curve = got.curves[0]
                want = kde.density(edges, probability=prob)[1] * float(factor)
                close(chk, np.ma.getdata(curve[idx[0]]), edges, "points of the density", rtol=1e-12)
                close(chk, np.ma.getdata(curve[idx[1]]), want, "density", rtol=1e-9)
            if opts["hist"]:
                curve = got.curves[-1]
                want = np.repeat(mass / np.diff(edges) / (total if prob else 1), 2)
                close(chk, np.ma.getdata(curve[idx[0]]), np.repeat(edges, 2)[1:-1], "edges of the histogram", rtol=1e-12)
                close(chk, np.ma.getdata(curve[idx[1]]), want, "histogram", rtol=1e-9)
            if opts["carpet"]:
                close(chk, np.sort(pb.offsets(got.points[0])[:, idx[0]]), np.sort(data), "carpet", rtol=1e-12)
            band, line = (got.hbands, got.hlines) if rotate else (got.vbands, got.vlines)
            other = (got.vbands + got.vlines) if rotate else (got.hbands + got.hlines)
            same(chk, (len(band), len(line), len(other)), (2, 1, 0) if opts["confidence"] else (0, 0, 0), "numbers of bands and medians")
            if opts["confidence"]:
                record(trace, where, data, kw.get("weights"), sorted(band, key=lambda bb: bb[1] - bb[0]), fracs, line[0], "dist1d")


def record(trace, where, data, wts, band, fracs, median, what):
    """Intervals for BandsTrace."""
    data = np.asarray(data, dtype=float)
    wts = np.ones(data.size) if wts is None else np.asarray(wts, dtype=float)
    vals, inv = np.unique(data, return_inverse=True)
    ww = np.bincount(inv, weights=wts)
    # weights as integers
    ww = np.round(ww / wts.min()).astype(int)
    most = int(ww.max())

    def at(x):
        near = np.abs(vals - x) <= 1e-9 * max(np.ptp(vals), np.abs(vals).max())
        if near.any():
            return 2 * (int(np.argmax(near)) + 1)
        return 2 * int(np.sum(vals < x)) + 1
    qden = 100000 if ww.sum() < 5000 else 1000
    for (lo, hi), qq in zip(list(band) + [(median, median)], list(fracs) + [0.0]):
        trace.append({"w": ww.tolist(), "most": most, "lo": at(lo), "hi": at(hi), "q": int(round(qq * qden)), "qden": qden})
        where.append(("%s: %s of %d data" % (what, "interval holding %g" % qq if qq else "median", data.size),
                      {"data": data, "weights": wts, "interval": (lo, hi)}))


def bands(chk, rng, trace, where):
    num = int(rng.integers(8, 60))
    if rng.random() < 0.1:
        num = int(rng.integers(600, 1600))
    rank = np.sort(rng.permutation(max(150, 2 * num))[:num]) ** rng.choice([1, 2])
    wts = None
    if rng.random() < 0.7:
        # (weights that change along the data)
        wts = rng.integers(1, 4, num) * np.where(np.arange(num) < num * rng.uniform(0.2, 0.8), 1, rng.choice([1, 5]))
    order = rng.permutation(num)
    data = rank[order] * 10.0 ** rng.uniform(-3, 3) + rng.uniform(-5, 5)
    kw = {}
    unit = 10.0 ** rng.uniform(-3, 3)
    if wts is not None:
        wts = wts[order]
        kw["weights"] = [wts * unit, (wts * unit).tolist(), wts][rng.integers(0, 3)]
    rotate = bool(rng.random() < 0.5)
    fracs = [0.5, 0.9]
    form = rng.integers(0, 3)
    if form == 0:
        fracs = sorted(rng.uniform(0.05, 0.99, int(rng.integers(1, 5))).round(3).tolist())
        kw["quantiles"] = fracs
    elif form == 1:
        kw["quantiles"] = None
        fracs = (1 - np.exp(-np.array([0.5, 1.0, 1.5, 2.0])**2 / 2)).tolist()
    median = bool(rng.random() < 0.7)
    if not median:
        kw["median"] = False
    arg = data if rng.random() < 0.6 else data.tolist()
    with chk.case("confidence bands of %d data" % num, data=arg, args=kw):
        with pb.axes() as ax:
            before = kb.snapshot({"data": arg, "kw": kw})
            plot.confidence(arg, ax=ax, rotate=rotate, **kw)
            need(chk, kb.unchanged(before, {"data": arg, "kw": kw}), "confidence modifies its arguments")
            got = pb.Drawn(ax)
            band, line = (got.hbands, got.hlines) if rotate else (got.vbands, got.vlines)
            other = (got.vbands + got.vlines) if rotate else (got.hbands + got.hlines)
            same(chk, (len(band), len(line), len(other)), (len(fracs), int(median), 0), "numbers of bands and medians")
            band = sorted(band, key=lambda bb: bb[1] - bb[0])
            # each band lies within the next
            for one, two in zip(band[:-1], band[1:]):
                need(chk, two[0] <= one[0] and one[1] <= two[1], "bands %r and %r overlap" % (one, two))
            record(trace, where, data, kw.get("weights"), band, fracs, line[0] if median else band[0][0], "confidence")
            if not median:
                trace.pop()
                where.pop()


def carpets(chk, rng, trace, where, btrace, bwhere):
    num = int(rng.integers(3, 40))
    many = rng.random() < 0.12
    if many:
        num = int(rng.integers(600, 1600))
    data = rng.normal(0, 1, num) * 10.0 ** rng.uniform(-3, 3)
    rotate = bool(rng.random() < 0.5)
    kw = dict(rotate=rotate)
    wts = None
    form = rng.integers(0, 5)
    if form == 1:
        wts = rng.uniform(0.3, 4, num)
    elif form == 2:
        wts = rng.integers(0, 4, num) * 10.0 ** rng.uniform(-3, 3)
    elif form == 3:
        wts = 10.0 ** rng.uniform(-5, 3, num) * 10.0 ** rng.uniform(-3, 3)
    elif form == 4:
        wts = rng.integers(1, 9, num)
    if wts is not None:
        if not np.any(wts > 0):
            return
        kw["weights"] = wts if rng.random() < 0.6 else wts.tolist()
    if rng.random() < 0.4:
        kw["random"] = ["normal", "uniform", "Uniform"][rng.integers(0, 3)]
    if rng.random() < 0.3:
        kw.update(yave=-2.0, ystd=0.1)
    if rng.random() < 0.3:
        kw["shift"] = float(rng.uniform(-3, 3))
    if rng.random() < 0.3:
        kw["fancy"] = True
        if many:
            kw.pop("fancy")
    limit = int(rng.integers(1, num + 5)) if rng.random() < (0.8 if many else 0.4) else None
    if limit:
        kw["limit"] = limit
    arg = data if rng.random() < 0.7 else data.tolist()
    before = kb.snapshot({"data": arg, "kw": kw})
    with chk.case("carpet of %d data given %r" % (num, kw), data=data):
        with pb.axes() as ax:
            if rng.random() < 0.3:
                ax.set_ylim(-9, -3)
                ax.set_xlim(-9, -3)
            plot.carpet(arg, ax=ax, **kw)
            need(chk, kb.unchanged(before, {"data": arg, "kw": kw}), "carpet modifies its arguments")
            shown(chk, ax, data[np.newaxis], wts, limit, [1 if rotate else 0], trace, where, "carpet",
                  sized=True, fancy=kw.get("fancy"))
            pos = pb.offsets(pb.Drawn(ax).points[0])
            oth = pos[:, 0 if rotate else 1]
            need(chk, np.all(np.isfinite(pos)), "points lie at %r" % pos)
            if "yave" in kw:
                far = 0.1 * (1.0 + 1e-9) if kw.get("random", "")[1:] == "niform" else 2.0
                need(chk, np.all(np.abs(oth - kw["yave"] - kw.get("shift", 0.0)) < far), "points lie at %r" % oth)
    both = np.array([data, rng.normal(0, 1, num)])
    with chk.case("scatter of %d data given limit %r" % (num, limit), data=both):
        args = both if rng.random() < 0.5 else both.tolist()
        if num < 6 or rng.random() < 0.2:
            with pb.axes() as ax:
                plot.draw_scatter(ax, args[0], args[1], limit=limit)
                shown(chk, ax, both, None, limit, [0, 1], trace, where, "scatter", sized=False)
            return
        # (weights that change along the data)
        wts = None
        if rng.random() < 0.7:
            wts = np.where(data < np.quantile(data, rng.uniform(0.2, 0.8)), 1, 6) * rng.integers(1, 3, num)
        with pb.axes() as ax:
            kw = dict(scatter=True if limit is None else limit, hist=False, contour=False, mask_dense=False)
            median = bool(rng.random() < 0.8)
            if not median or rng.random() < 0.5:
                kw["median"] = median
            before = kb.snapshot({"data": args})
            if rng.random() < 0.5:
                plot.dist2d(args, ax=ax, weights=wts if wts is None or rng.random() < 0.5 else wts.tolist(), **kw)
            else:
                plot.dist2d(kale.KDE(args, weights=wts), ax=ax, **kw)
            need(chk, kb.unchanged(before, {"data": args}), "dist2d modifies its arguments")
            shown(chk, ax, both, None, limit, [0, 1], trace, where, "scatter", sized=False)
            got = pb.Drawn(ax)
            median = kw.get("median", True)
            same(chk, (len(got.vlines), len(got.hlines)), (int(median),) * 2, "numbers of medians")
            if median:
                for row, line in zip(both, (got.vlines, got.hlines)):
                    record(btrace, bwhere, row, wts, [], [], line[0], "dist2d")


def shown(chk, ax, data, wts, limit, axes, trace, where, what, sized=True, fancy=False):
    """Points drawn for data, for CarpetTrace."""
    got = pb.Drawn(ax).points
    same(chk, len(got), 1, "number of collections of points")
    pos = pb.offsets(got[0])[:, axes]
    sizes = np.asarray(got[0].get_sizes(), dtype=float)
    sizes = np.broadcast_to(sizes, len(pos)) if sizes.size in (1, len(pos)) else np.full(len(pos), np.nan)
    need(chk, np.all(sizes > 0), "sizes of points are %r" % sizes)
    size = np.unique(sizes.round(9), return_inverse=True)[1] + 1
    wts = np.ones(data.shape[1]) if wts is None else np.asarray(wts, dtype=float)
    rank = np.unique(np.append(0.0, wts), return_inverse=True)[1][1:]
    points = []
    out = np.zeros(len(pos), dtype=int)
    if fancy:
        dev = np.abs(pos[:, 0] - np.median(pos[:, 0]))
        out = np.floor(dev / (1e-9 * (np.max(dev) + 1e-300)))
        out = np.unique(out, return_inverse=True)[1]
    for pp, ss, oo in zip(pos, size, out):
        at = np.flatnonzero(np.all(np.abs(data.T - pp) <= 1e-12 * np.abs(data.T), axis=1))
        points.append([int(at[0]) + 1 if at.size else 0, int(ss), int(oo)])
    trace.append({"n": data.shape[1], "w": rank.tolist(), "limit": int(limit or 0), "sized": bool(sized), "shown": points})
    where.append((what, {"data": data, "weights": wts, "limit": limit, "sizes": sizes}))


def level(vals, fracs):
    order = np.sort(np.ravel(vals))[::-1]
    cum = np.cumsum(order) / order.sum()
    near = any(np.any(np.abs(cum - ff) < 1e-9) for ff in fracs)
    return np.sort([order[max(np.sum(cum <= ff) - 1, 0)] for ff in fracs]), near


def one_mesh(chk, rec, rng, trace, where):
    amp, off = 2.0 ** rng.integers(-7, 8, 2), rng.integers(-50, 50, 2)
    if rng.random() < 0.3:
        amp, off = np.ones(2), np.zeros(2, dtype=int)
    data = ((np.array(rec["data"]) + off) * amp).T
    edges = [(np.array(ee) + off[dd]) * amp[dd] for dd, ee in enumerate(rec["edges"])]
    unit = 10.0 ** rng.uniform(-4, 4) if rng.random() < 0.6 else 1.0
    wts = np.array(rec["w"]) * unit if rec["weighted"] else None
    want = np.array(rec["bins"]) / rec["inside"] / (np.array(rec["areas"]) * np.prod(amp))
    kw = {"weights": wts} if wts is not None else {}
    with chk.case("hist2d of %d data" % data.shape[1], record=rec):
        form = rng.integers(0, 3)
        ok = np.ones(want.shape, dtype=bool)
        hidden = np.zeros(want.shape, dtype=bool)
        if form == 0:
            kw["mask_below"] = True
            less = np.array(rec["less"])
            hidden, ok = (less == "yes"), (less != "near")
        elif form == 1:
            vals = np.unique(want)
            vals = vals[np.append(True, np.diff(vals) > 1e-6 * vals[-1])] if vals.size > 1 else vals
            if vals.size > 1:
                kk = int(rng.integers(1, vals.size))
                cut = 0.5 * (vals[kk] + vals[kk - 1])
                kw["mask_below"] = float(cut)
                hidden = want < cut
        with pb.axes() as ax:
            arg = data if rng.random() < 0.6 else data.tolist()
            plot.hist2d(arg, edges=edges if rng.random() < 0.7 else [ee.tolist() for ee in edges], ax=ax, **kw)
            got = pb.Drawn(ax)
            same(chk, got.kinds(), {"meshes"}, "what is drawn")
            check_mesh(chk, got.meshes[0], edges, want, hidden, ok, "hist2d")
            chk.sample({"data": data, "edges": edges, "args": kw, "values": want, "hidden": hidden.tolist()})
    kw.pop("mask_below", None)
    if min(want.shape) > 1 and want.max() > want.min() and rng.random() < 0.6:
        fracs = [0.2, 0.6, 0.9]
        pad = int(rng.integers(0, 3))
        ends, vals = pb.padded(edges, want, pad) if pad else (edges, want)
        cents = [0.5 * (xx[1:] + xx[:-1]) for xx in ends]
        lev, near = level(vals, fracs)
        near = near or np.any(np.diff(lev) < 1e-6 * lev[-1])
        with chk.case("contours of %d data" % data.shape[1], record=rec), pb.axes() as ax:
            # (equal levels, of few bins, cannot be drawn)
            if not near:
                arg = data if rng.random() < 0.6 else data.tolist()
                ee, hh, cont = plot.contour(arg, edges=edges, ax=ax, quantiles=fracs, smooth=None, upsample=None,
                                            pad=pad if pad or rng.random() < 0.5 else None, **kw)
                close(chk, np.asarray(cont.levels), lev, "levels of contour", rtol=1e-9)
                pb.on_lines(chk, cont, cents, vals, "contours")
    if np.linalg.matrix_rank(np.cov(data / amp[:, np.newaxis], aweights=wts)) < 2:
        return
    with chk.case("dist2d of %d data" % data.shape[1], record=rec):
        kde = kale.KDE(data, **kw)
        flip = bool(rng.random() < 0.3)
        form = rng.integers(0, 3)
        args = dict(hist=bool(rng.random() < 0.7), scatter=bool(rng.random() < 0.6), median=bool(rng.random() < 0.7),
                    contour=bool(rng.random() < 0.35))
        if not args["hist"] and not args["contour"]:
            args["hist"] = True
        order = [0, 1]
        if form == 0:
            arg = data
            args.update(kw)
        elif form == 1:
            arg = kde
            if flip:
                order = [1, 0]
            if flip or rng.random() < 0.4:
                args["params"] = list(order)
        else:
            # two of three parameters
            third = rng.normal(0, 1, data.shape[1])
            order = [0, 1] if not flip else [1, 0]
            kde = kale.KDE(np.array([data[0], third, data[1]]), **kw)
            arg = kde
            args["params"] = [2 * oo for oo in order]
        asked = args.get("params", [0, 1])
        fracs = 1 - np.exp(-np.array([0.5, 1.0, 1.5, 2.0])**2 / 2)
        qform = rng.integers(0, 3)
        if qform == 0:
            fracs = np.array([0.35, 0.75, 0.93])
            args["quantiles"] = fracs if rng.random() < 0.5 else fracs.tolist()
        elif qform == 1:
            args["sigmas"] = [0.8, 2.2]
            fracs = 1 - np.exp(-np.array(args["sigmas"])**2 / 2)
        cut = None
        args["mask_below"] = False
        if rng.random() < 0.3:
            vals = np.unique(want.round(15))
            if vals.size > 1:
                cut = float(0.5 * (vals[-1] + vals[-2]))
                args["mask_below"] = cut
        args["mask_dense"] = bool(rng.random() < 0.3)
        limit = None
        if args["scatter"] and rng.random() < 0.3:
            limit = int(rng.integers(2, data.shape[1] + 4))
            args["scatter"] = limit
        ee = [edges[oo] for oo in order]
        hist = want if order == [0, 1] else want.T
        xx = data[order]
        if args["mask_dense"] and not args["contour"] and min(hist.shape) < 2:
            args["mask_dense"] = False
        with pb.axes() as ax:
            plot.dist2d(arg, ax=ax, edges=ee, **args)
            got = pb.Drawn(ax)
            same(chk, len(got.meshes), int(args["hist"]), "number of histograms of dist2d")
            same(chk, len(got.contours), int(args["contour"]), "number of sets of contours of dist2d")
            same(chk, len(got.points), int(bool(args["scatter"])), "number of scatters of dist2d")
            if args["hist"]:
                hidden = hist < cut if cut is not None else np.zeros(hist.shape, dtype=bool)
                check_mesh(chk, got.meshes[0], ee, hist, hidden, np.ones(hist.shape, dtype=bool), "dist2d")
            if args["scatter"]:
                pos = pb.offsets(got.points[0])
                if limit is None or limit >= xx.shape[1]:
                    close(chk, pos[np.lexsort(pos.T)], xx.T[np.lexsort(xx)], "scatter of dist2d", rtol=1e-12)
                else:
                    same(chk, len(pos), limit, "number of points of dist2d")
                    need(chk, set(map(tuple, pos)) <= set(map(tuple, xx.T)), "points of dist2d are not of the data")
            same(chk, (len(got.vlines), len(got.hlines)), (int(args["median"]),) * 2, "number of medians of dist2d")
            if args["median"]:
                for dd, lines in enumerate((got.vlines, got.hlines)):
                    record(trace, where, xx[dd], wts, [], [], lines[0], "dist2d, direction %d" % dd)
            if args["contour"]:
                points, pdf = kde.density(params=asked)
                cents, vals = pb.padded(points, pdf, 1)
                lev, near = level(vals, fracs)
                if not near:
                    close(chk, np.asarray(got.contours[0].levels), lev, "levels of the contours of dist2d", rtol=1e-9)
                pb.on_lines(chk, got.contours[0], cents, vals, "contours of dist2d")
            elif args["mask_dense"]:
                lev, near = level(hist, fracs)
                if not near and lev[0] < hist.max() * (1 - 1e-9):
                    same(chk, len(got.filled), 1, "number of masks of dist2d")
                    close(chk, np.asarray(got.filled[0].levels), [lev[0], hist.max()], "levels of the mask of dist2d", rtol=1e-9)


def check_mesh(chk, mesh, edges, want, hidden, ok, what):
    ex, ey, vals, coord = pb.mesh_parts(mesh)
    close(chk, ex, edges[0], what + ": horizontal edges", rtol=1e-12)
    close(chk, ey, edges[1], what + ": vertical edges", rtol=1e-12)
    same(chk, vals.shape, want.shape, what + ": number of bins")
    mask = np.ma.getmaskarray(vals)
    bad = (mask != hidden) & ok
    need(chk, not bad.any(), "%s: bins %r are %s" % (what, np.argwhere(bad).tolist()[:5], "hidden or not, contrary to what was asked for"))
    shown = ~mask
    close(chk, np.ma.getdata(vals)[shown], want[shown], what + ": values", rtol=1e-9)
