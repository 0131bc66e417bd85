"""C24: automatic edges span the data or the requested extrema."""
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import Raw, close, need

LAWS = ["LawOrdered", "LawCovers", "LawGiven", "LawSeparate", "LawShuffle"]
ARRAYS = {Raw("<<0,1>>"), Raw("<<-3,0,4>>"), Raw("<<-20,-1,0,6>>"), Raw("<<1,2,3,5,9>>")}


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = []
    for dims, num, count in (({1}, 6, 300), ({2}, 7, 350), ({3}, 9, 250), ({1, 2, 4}, 25, 100), ({1, 2}, 130, 25)):
        jobs.append(dict(module="ParseEdges", constants=dict(
            Dims=dims, NData=num, Coords={-9, -4, -2, 0, 1, 3, 4, 7}, Bins={1, 2, 4, 7, 20}, Arrays=ARRAYS,
            Pads={Raw("<<>>"), Raw("<<0>>"), Raw("<<1>>"), Raw("<<3>>")},
            BinLimits={Raw("<<5,1000>>"), Raw("<<1,8>>"), Raw("<<10,10>>"), Raw("<<2,4>>")}, Extra={0, 1, 2}, Forms=Raw("{}")),
            invariants=LAWS, simulate=chk.n(count, 20 * count), depth=30 + 4 * num + 10, seed=num))
        jobs[-1]["depth"] = 40 + max(dims) * (num + 4)
    jobs.append(dict(module="ParseEdges", constants=dict(
        Dims={1}, NData=2, Coords={0, 1, 3}, Bins={2}, Arrays={Raw("<<0,1>>")}, Pads={Raw("<<>>"), Raw("<<0>>"), Raw("<<1>>")},
        BinLimits={Raw("<<5,1000>>")}, Extra={0}, Forms=Raw("{}")), invariants=LAWS))
    # many data
    forms = {Raw("<<%d, %d, %d, %d, %d>>" % (*rng.integers(1, 30, 3), mod, up)) for mod in (17, 811, 30011) for up in (0, 1, 1)}
    for dims, num, count in (({1}, 640, 60), ({2, 3}, 1531, 30)):
        jobs.append(dict(module="ParseEdges", constants=dict(
            Dims=dims, NData=num, Coords={-9, 7}, Bins={4, 20}, Arrays=ARRAYS, Pads={Raw("<<>>"), Raw("<<0>>"), Raw("<<1>>")},
            BinLimits={Raw("<<5,1000>>"), Raw("<<2,50>>")}, Extra={0, 1}, Forms=forms),
            invariants=LAWS, simulate=chk.n(count, 10 * count), depth=60, seed=num))
    for res in chk.tlc_many(jobs):
        recs = res.records
        if len(recs) > chk.n(400, 8000):
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(400, 8000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)


def one(chk, rec, rng):
    dim = rec["dim"]
    emb = gb.Emb(rng, dim)
    shared = (rec["emode"] == "one" and rec["eds"][0]["kind"] == "array") or rec["xmode"] == "pair"
    if shared:
        emb.scale[:] = emb.scale[0]
        emb.shift[:] = emb.shift[0]

    def place(xx, dd):
        return np.asarray(xx) * emb.scale[dd] + emb.shift[dd]

    data = np.array([place(rec["data"][dd], dd) for dd in range(dim)])
    if emb.plain and rng.random() < 0.4:
        data = data.astype(int)
    data = gb.whole(rng, data)

    def bound(bb, dd):
        return None if not bb else float(place(bb[0], dd))

    def spec(gg, dd):
        if gg["kind"] == "none":
            return None
        if gg["kind"] == "int":
            return int(gg["n"]) if rng.random() < 0.7 else np.int64(gg["n"])
        arr = place(gg["arr"], dd)
        return arr if rng.random() < 0.6 else arr.tolist()

    def pair(ee, dd):
        if not ee[0] and not ee[1] and rec["xmode"] == "each" and dim > 1 and rng.random() < 0.6:
            return None
        out = [bound(ee[0], dd), bound(ee[1], dd)]
        if None in out:
            return [list, tuple][rng.integers(0, 2)](out)
        return [list, tuple, np.array, lambda xx: gb.whole(rng, xx)][rng.integers(0, 4)](out)

    def arguments(data):
        kw = {}
        edges = [spec(gg, dd) for dd, gg in enumerate(rec["eds"])]
        if rec["emode"] == "one":
            edges = edges[0]
        if edges is not None or rng.random() < 0.3:
            kw["edges"] = edges
        if rec["xmode"] == "pair":
            kw["extrema"] = pair(rec["exts"][0], 0)
        elif rec["xmode"] == "each":
            exts = [pair(ee, dd) for dd, ee in enumerate(rec["exts"])]
            if rec["extra"]:
                # parameters chosen among more
                full = dim + rec["extra"]
                params = rng.permutation(full)[:dim]
                every = [[-1e3, 1e3 * rng.uniform()] for _ in range(full)]
                for pp, ee in zip(params, exts):
                    every[pp] = ee
                exts = every
                kw["params"] = params.tolist() if rng.random() < 0.5 else params
            kw["extrema"] = exts if rng.random() < 0.7 else tuple(exts)
        if rec["pad"] or rng.random() < 0.2:
            kw["pad"] = rec["pad"][0] if rec["pad"] else None
        if (rec["nmin"], rec["nmax"]) != (5, 1000) or rng.random() < 0.3:
            kw.update(nmin=rec["nmin"], nmax=rec["nmax"])
        return kw

    kw = arguments(data)
    if dim > 1 or not rec["flat"]:
        arg = data.tolist() if rng.random() < 0.2 else data
    else:
        arg = data[0].tolist() if rng.random() < 0.3 else data[0]
    if rng.random() < 0.4:
        wts = rng.integers(1, [4, 90][rng.integers(0, 2)], data.shape[1]) * (1 if emb.plain else rng.uniform(0.1, 5))
        kw["weights"] = [gb.whole(rng, wts), wts.tolist(), tuple(wts)][rng.integers(0, 3)]
    if rng.random() < 0.2:
        kw["refine"] = float(rng.choice([0.5, 1.0, 2.0, 4.0]))
    before = kb.snapshot({"data": arg, "kw": kw})
    with chk.case("edges of %d-dimensional data given %r" % (dim, kw), record=rec, data=arg):
        got = utils.parse_edges(arg, **kw)
        need(chk, kb.unchanged(before, {"data": arg, "kw": kw}), "parse_edges modifies its arguments")
        if rec["flat"]:
            need(chk, np.ndim(got) == 1, "edges of flat data have %d dimensions" % np.ndim(got))
            got = [got]
        need(chk, len(got) == dim, "edges for %d dimensions instead of %d" % (len(got), dim))
        for dd in range(dim):
            judge(chk, rec, dd, np.asarray(got[dd]), place, emb)
        separate(chk, rec, rng, data, kw, got)
        padding(chk, rec, data, kw, got)
        shuffled(chk, rec, rng, data, kw, got)
        chk.sample({"data": arg, "args": kw, "edges": [np.asarray(gg) for gg in got]})


def judge(chk, rec, dd, got, place, emb):
    res = rec["res"][dd]
    what = "edges of dimension %d" % dd
    need(chk, got.ndim == 1 and np.all(np.diff(got) > 0), what + " do not increase: %r" % (got,))
    if res["fixed"]:
        need(chk, np.array_equal(got, place(res["edges"], dd)), what + " are not those given: %r" % (got,))
        return
    size = got.size - 1
    if res["bins"]:
        need(chk, size == res["bins"], what + ": %d bins instead of %d" % (size, res["bins"]))
    else:
        need(chk, rec["nmin"] <= size <= rec["nmax"], what + ": %d bins, not between %d and %d" % (size, rec["nmin"], rec["nmax"]))
    lo, hi = place(res["lo"], dd), place(res["hi"], dd)
    tol = 1e-9 * (abs(lo) + abs(hi) + emb.scale[dd])
    width = (got[-1] - got[0]) / size
    close(chk, np.diff(got), np.full(size, width), what + ": widths", rtol=1e-6, atol=2 * tol)
    if res["pad"] == 0:
        close(chk, [got[0], got[-1]], [lo, hi], what + ": ends", rtol=0, atol=tol)
    else:
        need(chk, got[0] < lo and got[-1] > hi, what + ": padded ends %r within the range %r" % (got[[0, -1]], (lo, hi)))
        close(chk, lo - got[0], got[-1] - hi, what + ": padding below and above", rtol=1e-6, atol=2 * tol)


def separate(chk, rec, rng, data, kw, got):
    """The edges of a dimension do not depend on what is given for the others."""
    dim = rec["dim"]
    if dim < 2:
        return
    keep = int(rng.integers(0, dim))
    other = data.astype(float)
    kk = dict(kw)
    for dd in range(dim):
        if dd != keep:
            other[dd] = np.abs(rng.permutation(other[dd]) - other[dd].min()) * 3 + 1.5
    if "weights" not in kw and rng.random() < 0.5:
        order = rng.permutation(data.shape[1])
        other = other[:, order]
    exts = []
    for dd in range(dim):
        res = rec["res"][dd]
        if rec["xmode"] == "pair":
            exts.append(list(kw["extrema"]) if dd == keep else [other[dd].min(), other[dd].max() + 1])
        elif rec["xmode"] == "each":
            own = kw["extrema"][kw["params"][dd]] if "params" in kw else kw["extrema"][dd]
            exts.append(own if dd == keep else [None, other[dd].max() * 2])
    kk.pop("params", None)
    if exts:
        kk["extrema"] = exts
    edges = []
    for dd in range(dim):
        own = kw.get("edges") if rec["emode"] == "one" else kw["edges"][dd]
        edges.append(own if dd == keep else [None, 3, [0.0, 1.0, 5.0]][rng.integers(0, 3)])
    kk["edges"] = edges
    if data.dtype != float:
        # (equal data of different weights may be sorted differently in another type)
        got = utils.parse_edges(data.astype(float), **kw)
    again = utils.parse_edges(other, **kk)
    close(chk, again[keep], got[keep], "edges of dimension %d when other dimensions differ" % keep, rtol=1e-9,
          atol=1e-9 * np.ptp(got[keep]))


def padding(chk, rec, data, kw, got):
    """Twice the padding is twice as wide; none leaves the range."""
    ends = []
    for pad in (0, 1, 2):
        out = utils.parse_edges(data, **dict(kw, pad=pad))
        ends.append([[ee[0], ee[-1], len(ee)] for ee in out])
    ends = np.array(ends, dtype=float)
    for dd in range(rec["dim"]):
        one = ends[1, dd] - ends[0, dd]
        size = abs(ends[0, dd, :2]).sum() * 1e-9
        close(chk, ends[2, dd] - ends[0, dd], 2 * one, "padding of two widths in dimension %d" % dd, rtol=1e-6, atol=size)
        need(chk, rec["res"][dd]["fixed"] or one[1] > 0, "no padding in dimension %d" % dd)
        if rec["res"][dd]["bins"] == 0 and rec["nmin"] < ends[0, dd, 2] - 1 < rec["nmax"]:
            # as wide as the automatic bins
            span, num = ends[0, dd, 1] - ends[0, dd, 0], ends[0, dd, 2] - 1
            need(chk, span / num * (1 - 1e-6) <= one[1] <= span / max(num - 1, 0.5) * (1 + 1e-6),
                 "padding %g, but %d bins span %g" % (one[1], num, span))


def shuffled(chk, rec, rng, data, kw, got):
    """The order of the data does not matter."""
    # (equal data of different weights may be sorted differently)
    if "weights" in kw and any(np.unique(row).size < row.size for row in data):
        return
    order = rng.permutation(data.shape[1])
    kk = dict(kw)
    if "weights" in kw:
        kk["weights"] = np.asarray(kw["weights"])[order]
    again = utils.parse_edges(data[:, order], **kk)
    for dd in range(rec["dim"]):
        close(chk, again[dd], got[dd], "edges of dimension %d of reordered data" % dd, rtol=1e-9, atol=1e-9 * np.ptp(got[dd]))
