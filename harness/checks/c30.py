"""C30: successive corner plots only widen limits and never leak options."""
import copy
import numpy as np
import kalepy as kale
from kalepy import utils
import plotbind as pb
from core import Raw, close, need, same

LAWS = ["LawSame", "LawCover", "LawOrdered"]
PROPS = ["LawWiden", "LawFixed", "LawOther"]
# least and greatest value of each parameter of four data sets, and ends of explicit edges
DATA = [[(0, 4), (-3, 3), (10, 12), (-7, -5), (100, 109)], [(2, 9), (-1, 2), (8, 11), (-6, 2), (90, 101)],
        [(-5, 1), (0, 8), (11, 20), (-9, -8), (103, 104)], [(1, 3), (-2, 1), (10, 11), (0, 1), (99, 130)]]
EDGES = [[(-1, 5), (-4, 4), (8, 14), (-9, 3), (80, 120)], [(-20, 30), (-10, 10), (5, 25), (-30, 3), (50, 140)]]
GIVEN = [(-2, 2), (0, 1), (9, 30), (-8, -2), (95, 125)]
FRACS = {1: [0.9], 3: [0.3, 0.6, 0.95]}


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = []
    for dim, calls, num in ((2, 5, 60), (3, 4, 24), (1, 6, 30), (5, 2, 8)):
        cc = dict(Dim=dim, Data=[dd[:dim] for dd in DATA], Edges=[dd[:dim] for dd in EDGES], Given=GIVEN[:dim], MaxCalls=calls,
                  Settings={1, 2, 3, 4, 5}, Asks={0, 1, 3})
        jobs.append(dict(module="CornerHistory", constants=cc, invariants=LAWS, properties=PROPS, simulate=chk.n(num, 12 * num),
                         depth=8 * calls + 5, seed=dim))
    # all histories of calls with default options
    jobs.append(dict(module="CornerHistory", constants=dict(Dim=1, Data=[dd[:1] for dd in DATA[:2]], Edges=[EDGES[0][:1]], Given=GIVEN[:1],
                                                            MaxCalls=2 if not chk.thorough else 3, Settings={3}, Asks={0}),
                     init="Init", nxt="Next", invariants=LAWS, properties=PROPS))
    counts = {"histories": 0, "calls": 0}
    for res, most in zip(chk.tlc_many(jobs), [chk.n(nn, 12 * nn) for nn in (32, 11, 20, 3, 24)]):
        recs = res.records
        if len(recs) > most:
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:most]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            counts["histories"] += 1
            counts["calls"] += len(rec["log"])
            try:
                one(chk, rec, rng)
            finally:
                pb.close_all()
    chk.notes["replayed"] = counts


def one(chk, rec, rng):
    dim = len(rec["log"][0]["lims"]["known"])
    scale, shift = (10.0 ** rng.uniform(-3, 3, dim), rng.uniform(-20, 20, dim).round(2)) if rng.random() < 0.7 else (
        np.ones(dim), np.zeros(dim))

    def place(x, pp):
        return (np.asarray(x) + shift[pp]) * scale[pp]

    data, kdes, wts = [], [], []
    for ranges in DATA:
        num = 30
        xx = [rng.beta(2, 2, num) for _ in range(dim)]
        xx = [(bb - bb.min()) / np.ptp(bb) * (hi - lo) + lo for bb, (lo, hi) in zip(xx, ranges)]
        data.append(np.array([place(xx[pp], pp) for pp in range(dim)]))
        wts.append(rng.uniform(0.5, 2, num) if rng.random() < 0.4 else None)
        kdes.append(kale.KDE(data[-1], weights=wts[-1]))
    edges = [[place(np.linspace(lo, hi, 6 + pp), pp) for pp, (lo, hi) in enumerate(ee[:dim])] for ee in EDGES]
    given = [[float(xx) for xx in place(GIVEN[pp], pp)] for pp in range(dim)]
    dim_args = [given if gg else None for gg in rec["given"]]
    stored = int(rng.integers(0, 3))
    shared = {}
    with chk.case("sequence of %d plotting calls" % len(rec["log"]), record=rec):
        plots = []
        for gg in dim_args:
            first = dim if stored == 0 else (kdes[0] if stored == 1 else data[0])
            kw = {"weights": wts[0]} if stored == 2 and wts[0] is not None else {}
            kw.update({"limits": copy.deepcopy(gg)} if gg or rng.random() < 0.3 else {})
            plots.append(kale.Corner(first, figsize=3, **kw))
        for nn, call in enumerate(rec["log"]):
            step(chk, rec, rng, plots, call, nn, data, kdes, wts, edges, stored, shared, place)
        chk.sample({"calls": [(cc["corner"], cc["method"], cc["opt1"], cc["opt2"], cc["limit"]) for cc in rec["log"]]})


def options(shared, opts, rng):
    """The caller may use the same dictionary again and again."""
    key = repr(opts)
    if key not in shared or rng.random() < 0.3:
        shared[key] = {}
        for name, val in opts:
            shared[key][{"mask": "mask_dense", "below": "mask_below"}.get(name, name)] = bool(val)
    return shared[key]


def step(chk, rec, rng, plots, call, nn, data, kdes, wts, edges, stored, shared, place):
    corner = plots[call["corner"] - 1]
    other = plots[2 - call["corner"]]
    dim = len(corner.axes)
    what = "call %d (%s on corner %d)" % (nn + 1, call["method"], call["corner"])
    ds = call["data"] - 1
    kw = {}
    opt1, opt2 = options(shared, call["opt1"], rng), options(shared, call["opt2"], rng)
    if call["opt1"] or rng.random() < 0.3:
        kw["dist1d"] = opt1
    if call["opt2"] or rng.random() < 0.3:
        kw["dist2d"] = opt2
    if call["edges"]:
        kw["edges"] = edges[call["edges"] - 1]
    if call["limit"] != "none":
        kw["limit"] = (call["limit"] == "yes")
    elif rng.random() < 0.2:
        kw["limit"] = None
    if call["asked"]:
        kw["quantiles"] = FRACS[call["asked"]]
    if rng.random() < 0.3:
        kw["color"] = "C%d" % rng.integers(0, 8)
    if rng.random() < 0.15:
        kw["cmap"] = "Blues"
    # the data: already stored, or given as a KDE or an array
    args = []
    form = rng.integers(0, 3)
    if ds == 0 and stored and form == 0:
        pass
    elif form == 1:
        args = [kdes[ds]]
    else:
        args = [data[ds] if rng.random() < 0.7 else data[ds].tolist()]
        if wts[ds] is not None:
            kw["weights"] = wts[ds]
    before = [{id(ax): pb.state(ax) for ax in cc.axes.flat} for cc in (corner, other)]
    views = view(other)
    saved = copy.deepcopy({kk: vv for kk, vv in kw.items() if kk != "cmap"})
    saved_opts = copy.deepcopy(shared)
    getattr(corner, call["method"])(*args, **kw)
    for key in saved:
        need(chk, repr(saved[key]) == repr(kw[key]), "%s modifies its argument `%s`: %r, given %r" % (what, key, kw[key], saved[key]))
    same(chk, shared, saved_opts, "%s: dictionaries of options of the caller" % what)
    # what is drawn
    for (ii, jj), ax in np.ndenumerate(corner.axes):
        got = pb.Drawn(ax, before[0][id(ax)])
        where = "%s: panel (%d, %d)" % (what, ii, jj)
        if jj > ii:
            need(chk, not got.kinds(), "%s: something is drawn in a hidden panel" % where)
            continue
        need(chk, not got.other, "%s: unknown %r" % (where, got.other))
        if ii == jj:
            one_d(chk, call, got, where, dim, ii, corner)
        else:
            two_d(chk, call, got, where, data[ds][[jj, ii]], wts[ds], pick(data[ds], kw, (jj, ii)))
    # nothing changes in the other plot
    same(chk, view(other), views, "%s: limits and number of artists of the other plot" % what)
    check_limits(chk, rec, call, corner, what, data, place)


def one_d(chk, call, got, where, dim, ii, corner):
    want = call["one"]
    same(chk, len(got.curves), int(want["density"]) + int(want["hist"]), where + ": number of curves")
    same(chk, len(got.points), int(want["carpet"]), where + ": number of carpets")
    turned = ii == dim - 1
    bands, others = (got.hbands, got.vbands) if turned else (got.vbands, got.hbands)
    lines, others2 = (got.hlines, got.vlines) if turned else (got.vlines, got.hlines)
    same(chk, len(bands), call["bands"] if want["confidence"] else 0, where + ": number of confidence bands")
    same(chk, len(lines), int(want["confidence"]), where + ": number of medians")
    same(chk, len(others) + len(others2), 0, where + ": number of bands and lines in the other direction")
    same(chk, len(got.meshes) + len(got.contours) + len(got.filled), 0, where + ": two-dimensional artists")


def pick(data, kw, pars):
    edges = utils.parse_edges(data, edges=kw.get("edges"))
    return [edges[pp] for pp in pars]


def two_d(chk, call, got, where, data, wts, edges):
    want = call["two"]
    same(chk, len(got.meshes), int(want["hist"]), where + ": number of histograms")
    same(chk, len(got.points), int(want["scatter"]), where + ": number of scatters")
    same(chk, len(got.contours), int(want["contour"]), where + ": number of sets of contours")
    if want["contour"]:
        same(chk, len(got.contours[0].levels), call["bands"], where + ": number of contours")
    if not np.histogram2d(*data, bins=edges)[0].any():
        return      # (nothing within the edges: there is no density)
    hist = np.histogram2d(*data, bins=edges, weights=wts, density=True)[0]
    if want["hist"]:
        hidden = np.ma.getmaskarray(pb.mesh_parts(got.meshes[0])[2])
        same(chk, hidden.shape, hist.shape, where + ": number of bins")
        bad = (hidden != (hist == 0)) & ((hist == 0) | (hist == hist.max())) if want["below"] else hidden
        need(chk, not bad.any(), "%s: bins %r are hidden or not, contrary to what was asked for" % (where, np.argwhere(bad).tolist()[:4]))
    # nothing can be masked if most of the data are in bins of the same, highest, density
    if want["contour"] or not want["mask"] or hist[hist > 0.999 * hist.max()].sum() < 0.5 * hist.sum():
        same(chk, len(got.filled), int(want["mask"]), where + ": number of masks")
    same(chk, (len(got.vlines), len(got.hlines)), (int(want["median"]), int(want["median"])), where + ": number of medians")
    same(chk, len(got.curves) + len(got.vbands) + len(got.hbands), 0, where + ": one-dimensional artists")


def view(corner):
    return [(ax.get_xlim(), ax.get_ylim(), len(pb.state(ax))) for ax in corner.axes.flat]


def check_limits(chk, rec, call, corner, what, data, place):
    """Axes show the ranges of all calls that set limits."""
    dim = len(corner.axes)
    lims = call["lims"]
    if not lims["auto"] and not lims["known"][0]:
        return
    # while limits are not set by calls, those given at first hold; otherwise axes follow what is drawn last
    for pp in range(dim):
        lo, hi = np.inf, -np.inf
        if lims["known"][pp]:
            lo, hi = [place(xx / 20, pp) for xx in lims["known"][pp]]
        for ds in lims["auto"]:
            ee = utils.parse_edges(data[ds - 1])[pp]
            ext = 0.05 * (ee[-1] - ee[0])
            lo, hi = min(lo, ee[0] - ext), max(hi, ee[-1] + ext)
        for (ii, jj), ax in np.ndenumerate(corner.axes):
            if jj > ii:
                continue
            tests = []
            if ii == jj == pp:
                tests.append(ax.get_ylim if pp == dim - 1 else ax.get_xlim)
            elif ii != jj and jj == pp:
                tests.append(ax.get_xlim)
            elif ii != jj and ii == pp:
                tests.append(ax.get_ylim)
            for func in tests:
                close(chk, func(), [lo, hi], "%s: range of parameter %d in panel (%d, %d)" % (what, pp, ii, jj), rtol=1e-9,
                      atol=1e-9 * (hi - lo))
