"""C28: credible-region levels enclose the requested fraction of mass."""
import numpy as np
import kdebind as kb
import gridbind as gb
from core import Raw, close, need, same
import plotbind as pb

LAWS = ["LawMass", "LawOrder", "LawScale", "LawShuffle", "LawPad"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = []
    for rows, cols, vals, gaps, num in (({2, 3, 4}, {2, 3, 5}, {0, 1, 2, 4, 7, 12, 30}, {1, 2, 5}, 300),
                                        ({4, 6}, {3, 7}, {0, 0, 1, 3, 8, 20, 50, 90}, {1, 3}, 200),
                                        ({3, 5}, {4}, {1, 2, 3, 6, 11}, {2, 3}, 150),
                                        ({5}, {5}, {0, 1, 2, 3, 5, 8, 13, 21}, {1}, 200)):
        jobs.append(dict(module="Levels", constants=dict(NRow=rows, NCol=cols, Values=vals, Gaps=gaps, First={-4, 0, 3}, QDen=101,
                                                         NQ=5, Asked={1, 2, 3, 5}, Pads={0, 1, 2}, Forms=Raw("{}")),
                         invariants=LAWS, simulate=chk.n(num, 20 * num), depth=90, seed=len(jobs)))
    jobs.append(dict(module="Levels", constants=dict(NRow={2}, NCol={2}, Values={0, 1, 3}, Gaps={1}, First={0}, QDen=7, NQ=2, Asked={1, 2},
                                                     Pads={0, 1}, Forms=Raw("{}")), invariants=LAWS))
    # many values
    forms = {Raw("<<%d, %d, %d, %d>>" % (*rng.integers(1, 40, 2), mod, low)) for mod in (7, 97, 211) for low in (0, 50)}
    jobs.append(dict(module="Levels", constants=dict(NRow={21, 25}, NCol={20, 24}, Values={0}, Gaps={1}, First={-4, 3}, QDen=101, NQ=5,
                                                     Asked={1, 3, 5}, Pads={0, 1, 2}, Forms=forms),
                     invariants=LAWS, simulate=chk.n(15, 300), depth=90, seed=77))
    drawn = {"contours": 0, "levels only": 0}
    for res in chk.tlc_many(jobs):
        recs = res.records
        if len(recs) > chk.n(260, 6000):
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(260, 6000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng, drawn)
    chk.notes["grids"] = drawn
    sigmas(chk, rng)
    prepared(chk, rng)


def one(chk, rec, rng, drawn):
    emb = gb.Emb(rng, 2)
    hist = np.array(rec["vals"]).reshape(rec["shape"])
    hist = hist * emb.amp if not emb.plain or rng.random() < 0.5 else hist
    padded = np.array(rec["padded"]) * emb.amp
    want = np.array(rec["levels"]) * emb.amp
    qs = np.array(rec["qs"]) / rec["qden"]
    distinct = len(set(rec["levels"])) == len(rec["levels"])
    with chk.case("levels of fractions %r of a grid padded by %d" % (qs.tolist(), rec["pad"]), record=rec):
        func = getattr(pb.plot, "_dfm_levels", None)
        if func is not None and rec["pad"] == 0:
            arg = gb.vals_arg(rng, hist)
            before = kb.snapshot({"hist": arg})
            got = func(arg, quantiles=qs if rng.random() < 0.5 else qs.tolist())[1]
            close(chk, got, want, "levels", rtol=1e-9)
            if np.all(qs < 0.999):
                got = func(arg, sigmas=np.sqrt(-2 * np.log(1 - qs)))[1]
                close(chk, got, want, "levels of the corresponding sigmas", rtol=1e-9)
            need(chk, kb.unchanged(before, {"hist": arg}), "the grid is modified")
            drawn["levels only"] += 1
        # lines are drawn at distinct levels
        if not distinct:
            return
        edges = emb.edges(rec["edges"])
        arg = edges if rng.random() < 0.6 else [ee.tolist() for ee in edges]
        pedges = emb.edges(rec["pedges"])
        if rng.random() < 0.3:
            # values at points, instead of in bins
            arg = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
            pedges = None if rec["pad"] else pedges
        cents = [0.5 * (ee[1:] + ee[:-1]) for ee in pedges] if pedges else None
        given = quantiles_arg(rng, qs)
        before = kb.snapshot({"edges": arg, "hist": hist, "q": given})
        pad = rec["pad"]
        if pad == 0:
            pad = [0, False, None][rng.integers(0, 3)] if rng.random() < 0.5 else 0
        elif pad == 1 and rng.random() < 0.5:
            pad = True
        if pad == 0 and pad is not False and pad is not None:
            pad = False
        with pb.axes() as ax:
            _, _, cont = pb.plot.draw_contour2d(ax, arg, hist, quantiles=given, smooth=None, upsample=None, pad=pad,
                                                outline=bool(rng.random() < 0.5))
            need(chk, kb.unchanged(before, {"edges": arg, "hist": hist, "q": given}), "draw_contour2d modifies its arguments")
            check_contours(chk, cont, want, cents, padded, "draw_contour2d")
            drawn["contours"] += 1
            chk.sample({"edges": arg, "hist": hist, "quantiles": given, "levels": want})
        # the same from data, in equal bins
        if all(len(set(np.diff(ee))) == 1 for ee in rec["edges"]) and hist.sum() > 0:
            from_data(chk, rec, rng, edges, emb, given, pad, want, cents if pedges else None, padded)


def quantiles_arg(rng, qs):
    return [np.asarray, list, tuple][rng.integers(0, 3)](qs)


def check_contours(chk, cont, want, cents, padded, what):
    close(chk, np.asarray(cont.levels), want, what + ": levels drawn", rtol=1e-9)
    if cents is None:
        return
    pb.on_lines(chk, cont, cents, padded, what)


def from_data(chk, rec, rng, edges, emb, given, pad, want, cents, padded):
    """Contours of data, whose weights in each bin are the values."""
    vals = np.array(rec["vals"]).reshape(rec["shape"])
    data, wts = [], []
    for idx, val in np.ndenumerate(vals):
        num = int(rng.integers(1, 4)) if val else 0
        parts = rng.dirichlet(np.ones(num)) * val if num else []
        for ww in parts:
            frac = rng.uniform(0.05, 0.95, 2)
            data.append([edges[dd][idx[dd]] + frac[dd] * (edges[dd][idx[dd] + 1] - edges[dd][idx[dd]]) for dd in range(2)])
            wts.append(ww)
    data, wts = np.array(data).T, np.array(wts) * 10.0 ** rng.uniform(-3, 3)
    order = rng.permutation(wts.size)
    data, wts = data[:, order], wts[order]
    area = np.prod([ee[1] - ee[0] for ee in edges])
    scale = 1.0 / (vals.sum() * area)
    data = data if rng.random() < 0.5 else data.tolist()
    with pb.axes() as ax:
        _, _, cont = pb.plot.contour(data, edges=edges, ax=ax, weights=wts, quantiles=given, smooth=None, upsample=None, pad=pad)
        check_contours(chk, cont, want / emb.amp * scale, cents, padded / emb.amp * scale, "contour of data")


def sigmas(chk, rng):
    """Without quantiles, fractions are those within a number of standard deviations of a two-dimensional normal distribution."""
    for _ in range(chk.n(20, 200)):
        vals = rng.uniform(0, 1, (9, 11)) ** 3
        order = np.sort(vals.ravel())[::-1]
        cum = np.cumsum(order) / order.sum()
        sigs = np.array([0.5, 1.0, 1.5, 2.0])
        with chk.case("default contours"):
            with pb.axes() as ax:
                fracs = 1 - np.exp(-sigs**2 / 2)
                want = np.sort([order[max(np.sum(cum <= ff) - 1, 0)] for ff in fracs])
                _, _, cont = pb.plot.draw_contour2d(ax, [np.arange(9), np.arange(11)], vals, pad=False)
                close(chk, np.asarray(cont.levels), want, "default levels", rtol=1e-9)

OPTION = {"none": None, "false": False, "true": True}


def option(text):
    if text in OPTION:
        return OPTION[text]
    return int(text) if "." not in text else float(text)


def prepared(chk, rng):
    """Grids prepared for contours in different ways of asking for the same, or not."""
    base = dict(Pads={"none", "false", "0", "true", "1", "2"}, Ups={"none", "false", "true", "1", "2", "3"},
                Smooths={"none", "false", "0", "0.5", "1", "1.5", "2"})
    laws = ["LawSame", "LawWidth", "LawOff"]
    res = chk.tlc_many([dict(module="ContourPrep", constants=dict(base, NReq=1), invariants=laws),
                        dict(module="ContourPrep", constants=dict(base, NReq=3), invariants=laws, simulate=chk.n(12, 100), depth=30, seed=1)])
    reqs = [rr for job in res for rec in job.records for rr in rec["group"]]
    for _ in range(chk.n(3, 20)):
        if chk.stop:
            return
        emb = gb.Emb(rng, 2)
        shape = rng.integers(5, 9, 2)
        edges = emb.edges([np.concatenate([[0], np.cumsum(rng.choice([1, 1, 2], nn))]) for nn in shape])
        hist = rng.uniform(0, 1, shape)**2 * emb.amp
        cents = [0.5 * (ee[1:] + ee[:-1]) for ee in edges]
        seen = {}

        def draw(edges, hist, req):
            kw = dict(pad=option(req["pad"]), upsample=option(req["up"]), smooth=option(req["smooth"]))
            with pb.axes() as ax:
                ee, hh, cont = pb.plot.draw_contour2d(ax, edges, hist, quantiles=[0.3], **kw)
                return [np.asarray(ee[0]), np.asarray(ee[1]), np.asarray(hh), np.asarray(cont.levels)]
        for rr in reqs:
            if chk.stop:
                return
            req = rr["req"]
            with chk.case("contours prepared by %r" % req, stages=rr["stages"], edges=edges, hist=hist):
                chk.replayed += 1
                before = kb.snapshot({"e": edges, "h": hist})
                got = draw(edges, hist, req)
                need(chk, kb.unchanged(before, {"e": edges, "h": hist}), "draw_contour2d modifies its arguments")
                key = repr(rr["stages"])
                grid = rr["grid"]
                want = tuple(int(round((nn + 2 * grid["pad"]) * grid["fine"])) for nn in shape)
                same(chk, [got[2].shape, got[0].shape, got[1].shape], [want] * 3, "shapes of the grid")
                if key in seen:
                    for aa, bb, what in zip(got, seen[key], ("horizontal positions", "vertical positions", "values", "levels")):
                        close(chk, aa, bb, "%s of the same stages %s" % (what, key), rtol=1e-9, atol=1e-12 * np.max(np.abs(bb)))
                    continue
                for other, old in seen.items():
                    need(chk, old[2].shape != got[2].shape or not np.allclose(old[2], got[2], rtol=1e-6, atol=1e-6 * emb.amp),
                         "stages %s and %s give the same grid" % (key, other))
                seen[key] = got
                # the same in two calls: first the grid, then its smoothing (in bins of the finer grid)
                one = draw(edges, hist, dict(req, smooth="none"))
                if grid["fine"] == 1 and grid["width"] == 0:
                    inner = tuple(slice(grid["pad"], grid["pad"] + nn) for nn in shape)
                    close(chk, one[2][inner], hist, "values of the grid", rtol=1e-9)
                    close(chk, one[0][inner], np.meshgrid(*cents, indexing="ij")[0], "horizontal positions", rtol=1e-9)
                    close(chk, one[1][inner], np.meshgrid(*cents, indexing="ij")[1], "vertical positions", rtol=1e-9)
                # (a grid of one dimension's positions, repeated along the other)
                tol = 1e-9 * max(np.ptp(ee) for ee in edges)
                need(chk, np.ptp(one[0], axis=1).max() <= tol and np.ptp(one[1], axis=0).max() <= tol, "positions are not those of a grid")
                if grid["width"]:
                    two = draw([one[0][:, 0], one[1][0]], one[2], dict(pad="none", up="false", smooth=str(grid["width"] / 4)))
                    for aa, bb, what in zip(got, two, ("horizontal positions", "vertical positions", "values", "levels")):
                        close(chk, aa, bb, "%s in one call and in two" % what, rtol=1e-9, atol=1e-9 * np.max(np.abs(bb)))
                    close(chk, got[2].sum(), one[2].sum(), "total after smoothing", rtol=1e-6)
    chk.notes["ways of preparing contours"] = len(reqs)
    spread(chk, rng)


def spread(chk, rng):
    """Smoothing widens a grid by its own variance, in original bins."""
    for up in (None, 1, 2, 3):
        for width in (1.0, 1.5, 2):
            with chk.case("width of smoothing %r with upsampling %r" % (width, up)):
                hist = np.zeros((37, 41))
                hist[18, 20] = 5.0

                def var(smooth):
                    with pb.axes() as ax:
                        ee, hh, _ = pb.plot.draw_contour2d(ax, [np.arange(38.0), np.arange(42.0)], hist, quantiles=[0.5],
                                                           smooth=smooth, upsample=up, pad=False)
                    # in bins, as positions are interpolated
                    out = []
                    for dd in range(2):
                        ww = hh.sum(axis=1 - dd) / hh.sum()
                        xx = np.arange(ww.size) / (up or 1)
                        mean = np.sum(xx * ww)
                        out.append(np.sum(ww * (xx - mean)**2))
                    return np.array(out)
                close(chk, var(width) - var(None), np.full(2, width**2), "variance added by smoothing", rtol=0.02)
