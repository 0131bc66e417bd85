"""C29: corner plots put each parameter pair in its own panel and limits."""
import numpy as np
import kalepy as kale
import plotbind as pb
import kdebind as kb
from core import close, need, same

LAWS = ["LawPairs", "LawSingle", "LawPlaces", "LawNamed", "LawOrigin"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    coords = {-6, -2, 0, 1, 4, 9}
    jobs = [dict(module="CornerPanels", constants=dict(Dims=dims, Coords=coords, Ways={"int", "data", "kde", "axes"}, MaxMarks=2),
                 invariants=LAWS, simulate=chk.n(num, 10 * num), depth=40, seed=max(dims)) for dims, num in (
                     ({1}, 60), ({2}, 90), ({3}, 80), ({4}, 40), ({5}, 20))]
    # every figure without limits
    jobs.append(dict(module="CornerPanels", constants=dict(Dims={1, 2, 3}, Coords={0}, Ways={"int", "data", "kde", "axes"}, MaxMarks=0),
                     invariants=LAWS))
    counts = {}
    for res, most in zip(chk.tlc_many(jobs), [chk.n(nn, 20 * nn) for nn in (26, 32, 20, 8, 3, 40)]):
        recs = res.records
        if len(recs) > most:
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:most]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            counts[rec["dim"]] = counts.get(rec["dim"], 0) + 1
            try:
                one(chk, rec, rng)
            finally:
                pb.close_all()
    chk.notes["figures of each dimension"] = counts


def one(chk, rec, rng):
    dim = rec["dim"]
    scale, shift = 10.0 ** rng.uniform(-3, 3, dim), rng.uniform(-20, 20, dim).round(2)
    if rng.random() < 0.3:
        scale, shift = np.ones(dim), np.zeros(dim)

    def place(x, pp):
        return float((x + shift[pp]) * scale[pp])

    data = np.array([(rng.normal(pp, 1 + pp, 40) + shift[pp]) * scale[pp] for pp in range(dim)])
    wts = rng.uniform(0.2, 3, 40) if rng.random() < 0.5 else None
    kw = {"rotate": bool(rec["rotate"])} if not rec["rotate"] or rng.random() < 0.7 else {}
    origin = ("t" if rec["top"] else "b") + ("r" if rec["right"] else "l")
    if origin != "tl" or rng.random() < 0.6:
        kw["origin"] = origin if rng.random() < 0.7 else (origin.upper() if rng.random() < 0.5 else list(origin))
    names = ["par %s" % "abcdef"[pp] for pp in range(dim)]
    if rec["labels"]:
        kw["labels"] = names if rng.random() < 0.7 else np.array(names)
    limits = None
    if rec["limits"]:
        limits = [[place(xx, pp) for xx in rec["limits"][pp]] for pp in range(dim)]
        kw["limits"] = [list(ll) for ll in limits] if rng.random() < 0.6 else [np.array, lambda xx: [tuple(x) for x in xx]][
            rng.integers(0, 2)](limits)
    ticks = None
    if rec["ticks"]:
        ticks = [[place(xx, pp) for xx in rec["ticks"][pp][0]] if rec["ticks"][pp] else None for pp in range(dim)]
        kw["ticks"] = list(ticks)
    first = {"int": dim, "axes": dim, "data": data, "kde": None}[rec["way"]]
    if rec["way"] == "kde":
        first = kale.KDE(data, weights=wts)
    elif rec["way"] == "data" and wts is not None:
        kw["weights"] = wts
    if rec["way"] == "axes":
        kw["axes"] = pb.plt.figure(figsize=(4, 4)).subplots(dim, dim, squeeze=False)
    else:
        kw["figsize"] = 4
    before = kb.snapshot({"kw": {kk: vv for kk, vv in kw.items() if kk != "axes"}})
    with chk.case("corner plot of %d parameters given %r" % (dim, {kk: vv for kk, vv in kw.items() if kk != "axes"}), record=rec):
        corner = kale.Corner(first, **kw)
        places(chk, rec, corner)
        labels(chk, rec, corner, names, ticks)
        check_limits(chk, rec, corner, limits, "limits given")
        marks(chk, rec, corner, limits, place, rng)
        contents(chk, rec, corner, data, wts, rng)
        check_limits(chk, rec, corner, limits, "limits given, after plotting")
        same_limits(chk, rec, corner)
        if ticks:
            labels(chk, rec, corner, names, ticks)
        need(chk, kb.unchanged(before, {"kw": {kk: vv for kk, vv in kw.items() if kk != "axes"}}), "the arguments are modified")
        chk.sample({"dim": dim, "origin": origin, "rotate": rec["rotate"], "limits": limits, "way": rec["way"]})


def panels(rec, corner):
    for pp in rec["panels"]:
        yield pp, corner.axes[pp["i"] - 1, pp["j"] - 1]


def places(chk, rec, corner):
    same(chk, np.shape(corner.axes), (rec["dim"], rec["dim"]), "shape of the axes")
    pos = {(pp["i"], pp["j"]): ax.get_position() for pp, ax in panels(rec, corner)}
    tops = sorted(set(round(bb.y0, 6) for bb in pos.values()), reverse=True)
    lefts = sorted(set(round(bb.x0, 6) for bb in pos.values()))
    for pp, ax in panels(rec, corner):
        bb = pos[pp["i"], pp["j"]]
        got = (tops.index(round(bb.y0, 6)) + 1, lefts.index(round(bb.x0, 6)) + 1)
        same(chk, got, (pp["row"], pp["col"]), "place of panel (%d, %d) in the figure" % (pp["i"], pp["j"]))
        same(chk, bool(ax.get_visible()), pp["shown"], "visibility of panel (%d, %d)" % (pp["i"], pp["j"]))


def labels(chk, rec, corner, names, ticks):
    for pp, ax in panels(rec, corner):
        if not pp["shown"]:
            continue
        what = " of panel (%d, %d)" % (pp["i"], pp["j"])
        same(chk, ax.get_xlabel(), names[pp["xlabel"] - 1] if pp["xlabel"] else "", "horizontal label" + what)
        same(chk, ax.get_ylabel(), names[pp["ylabel"] - 1] if pp["ylabel"] else "", "vertical label" + what)
        if pp["i"] == rec["dim"]:
            same(chk, ax.xaxis.get_label_position(), "top" if pp["xtop"] else "bottom", "position of the horizontal label" + what)
        if pp["j"] == 1 and pp["i"] != 1:
            same(chk, ax.yaxis.get_label_position(), "right" if pp["yright"] else "left", "position of the vertical label" + what)
        if ticks:
            for par, func, name in ((pp["x"], ax.get_xticks, "horizontal"), (pp["y"], ax.get_yticks, "vertical")):
                if par and ticks[par - 1] is not None:
                    close(chk, func(), ticks[par - 1], name + " ticks" + what, rtol=1e-12)


def check_limits(chk, rec, corner, limits, what):
    if limits is None:
        return
    for pp, ax in panels(rec, corner):
        if not pp["shown"]:
            continue
        for par, func, name in ((pp["x"], ax.get_xlim, "horizontal"), (pp["y"], ax.get_ylim, "vertical")):
            if par:
                close(chk, func(), limits[par - 1], "%s: %s range of panel (%d, %d)" % (what, name, pp["i"], pp["j"]), rtol=1e-12)


def same_limits(chk, rec, corner):
    """All axes that show a parameter agree on its limits."""
    seen = {}
    for pp, ax in panels(rec, corner):
        if not pp["shown"]:
            continue
        for par, func in ((pp["x"], ax.get_xlim), (pp["y"], ax.get_ylim)):
            if par:
                if par in seen:
                    close(chk, func(), seen[par], "range of parameter %d in panel (%d, %d)" % (par, pp["i"], pp["j"]), rtol=1e-12)
                seen[par] = func()


def marks(chk, rec, corner, limits, place, rng):
    for mark in rec["marks"]:
        before = {id(ax): pb.state(ax) for _, ax in panels(rec, corner)}
        if not mark:
            continue
        args = {}
        for key in ("target", "upper", "lower"):
            args[key] = [place(mm[key][0], pp) if mm[key] else None for pp, mm in enumerate(mark)]
        kw = {}
        for key in ("upper", "lower"):
            if any(xx is not None for xx in args[key]) or rng.random() < 0.3:
                kw[key + "_limits"] = args[key]
        corner.target(args["target"], **kw)
        for pp, ax in panels(rec, corner):
            got = pb.Drawn(ax, before[id(ax)])
            what = " marked in panel (%d, %d)" % (pp["i"], pp["j"])
            for par, lines, bands, name in ((pp["x"], got.vlines, got.vbands, "vertical"), (pp["y"], got.hlines, got.hbands, "horizontal")):
                want_lines, want_bands = [], []
                if par:
                    lims = limits[par - 1]
                    if args["target"][par - 1] is not None:
                        want_lines = [args["target"][par - 1]]
                    if args["upper"][par - 1] is not None:
                        want_bands.append(sorted([lims[0], args["upper"][par - 1]]))
                    if args["lower"][par - 1] is not None:
                        want_bands.append(sorted([args["lower"][par - 1], lims[1]]))
                close(chk, sorted(lines), want_lines, name + " lines" + what, rtol=1e-12)
                close(chk, np.array(sorted(map(list, bands))).ravel(), np.array(sorted(want_bands)).ravel(), name + " bands" + what, rtol=1e-12)


def contents(chk, rec, corner, data, wts, rng):
    """Data and density are drawn in the panels that show their parameters."""
    dim = rec["dim"]
    before = {id(ax): pb.state(ax) for _, ax in panels(rec, corner)}
    edges = [np.linspace(dd.min(), dd.max() + 0.1 * np.ptp(dd), 4 + ii) for ii, dd in enumerate(data)]
    use = rng.integers(0, 2)
    stored = rec["way"] in ("data", "kde")
    kde = kale.KDE(data, weights=wts)
    arg = None if stored and rng.random() < 0.5 else data
    kw = {} if arg is None or wts is None else {"weights": wts}
    if rec["way"] == "kde" and arg is None:
        kw = {}
    if use == 0:
        corner.plot_data(arg, edges=edges, dist2d={"mask_below": False}, **kw)
    else:
        if arg is not None and rng.random() < 0.4:
            arg, kw = kde, {}
        corner.plot_kde(arg, edges=edges, **kw)
    for pp, ax in panels(rec, corner):
        what = " of panel (%d, %d)" % (pp["i"], pp["j"])
        got = pb.Drawn(ax, before[id(ax)])
        if not pp["shown"]:
            need(chk, not got.kinds(), "something is drawn in the hidden panel (%d, %d)" % (pp["i"], pp["j"]))
            continue
        ii, jj = pp["i"] - 1, pp["j"] - 1
        if ii == jj:
            need(chk, len(got.curves) >= 1, "no curve in panel (%d, %d)" % (pp["i"], pp["j"]))
            axis = 0 if pp["x"] else 1
            xx = np.ma.getdata(got.curves[0][axis])
            yy = np.ma.getdata(got.curves[0][1 - axis])
            if use == 0:
                close(chk, xx, np.repeat(edges[jj], 2)[1:-1], "edges" + what, rtol=1e-12)
                hist = np.histogram(data[jj], bins=edges[jj], weights=wts)[0]
                hist = hist / np.diff(edges[jj]) / (data.shape[1] if wts is None else wts.sum())
                close(chk, yy, np.repeat(hist, 2), "histogram" + what, rtol=1e-9, atol=1e-12 * hist.max())
                close(chk, np.sort(pb.offsets(got.points[0])[:, axis]), np.sort(data[jj]), "carpet" + what, rtol=1e-12)
            else:
                close(chk, xx, edges[jj], "points of the curve" + what, rtol=1e-12)
                close(chk, yy, kde.density(edges[jj], params=jj, probability=True)[1], "curve" + what, rtol=1e-9)
            continue
        if use == 0:
            close(chk, pb.offsets(got.points[0]), data[[jj, ii]].T, "scatter" + what, rtol=1e-12)
            ex, ey, vals, _ = pb.mesh_parts(got.meshes[0])
            close(chk, ex, edges[jj], "horizontal edges" + what, rtol=1e-12)
            close(chk, ey, edges[ii], "vertical edges" + what, rtol=1e-12)
            hist = np.histogram2d(data[jj], data[ii], bins=[edges[jj], edges[ii]], weights=wts, density=True)[0]
            close(chk, np.ma.getdata(vals), hist, "histogram" + what, rtol=1e-9, atol=1e-12 * hist.max())
        else:
            need(chk, len(got.contours) == 1, "%d sets of contours%s" % (len(got.contours), what))
            points, pdf = kde.density(params=[jj, ii])
            cents, vals = pb.padded(points, pdf, 1)
            need(chk, pb.on_lines(chk, got.contours[0], cents, vals, "contours" + what) > 0, "no contour lines" + what)
        # medians
        if wts is None:
            close(chk, got.vlines, [np.median(data[jj])], "vertical median" + what, rtol=1e-9)
            close(chk, got.hlines, [np.median(data[ii])], "horizontal median" + what, rtol=1e-9)
