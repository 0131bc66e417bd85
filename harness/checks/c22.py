"""C22: weighted quantiles invert the weighted cumulative distribution."""
import math
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import Raw, close, need

LAWS = ["LawRange", "LawMonotone", "LawOrder"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    none = Raw("{}")
    coords = {-7, -3, -2, -1, 0, 1, 2, 3, 5, 8, 13}
    jobs = [dict(module="Quantile", constants=dict(Rows=rows, Coords=coords, Weights={1, 2, 3, 7}, Sizes={1, 2, 3, 5, 8}, PDen=pden,
                                                   NAsk=6, Long=none, Forms=none),
                 invariants=LAWS, simulate=chk.n(num, 20 * num), depth=60, seed=rows + pden)
            for rows, pden, num in ((1, 12, 250), (1, 40, 250), (2, 12, 120), (4, 20, 100), (6, 12, 50))]
    # light values next to heavy ones: quantiles far out
    jobs.append(dict(module="Quantile", constants=dict(Rows=1, Coords={-3, 0, 1, 5}, Weights={1, 1500}, Sizes={2, 3}, PDen=4, NAsk=3, Long=none,
                                                  Forms=none),
                     invariants=LAWS, simulate=chk.n(150, 2000), depth=60, seed=77))
    jobs.append(dict(module="Quantile", constants=dict(Rows=1, Coords={0, 1, 3}, Weights={1, 2}, Sizes={1, 2, 3}, PDen=6, NAsk=1, Long=none,
                                                  Forms=none), invariants=LAWS))
    # many values
    forms = {Raw("<<%d, %d, %d, %d, %d>>" % (*rng.integers(1, 90, 3), mod, up)) for mod in (7, 1009, 20011) for up in (0, 1)}
    jobs += [dict(module="Quantile", constants=dict(Rows=rows, Coords={0}, Weights={1}, Sizes={1}, PDen=40, NAsk=4, Forms=forms,
                                                    Long={257, 1203} if rows == 1 else {311, 1017}),
                  invariants=LAWS, simulate=chk.n(12, 100) // rows, depth=20, seed=50 + rows) for rows in (1, 2)]
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)


def value(qq):
    return qq[0] / qq[1]


def one(chk, rec, rng):
    rows, num = rec["rows"], rec["n"]
    plain = rng.random() < 0.25
    amp, off = (1, 0) if plain else (10.0 ** rng.uniform(-6, 6), rng.choice([0.0, 5.0, -30.0]))

    def place(x):
        return amp * (np.asarray(x) + off)

    tol = dict(rtol=1e-9, atol=1e-9 * amp)
    data = place(np.array(rec["data"]).reshape(rows, num))
    wts = np.array(rec["w"]).reshape(rows, num)
    if not plain or rng.random() < 0.4:
        wts = wts * 10.0 ** rng.uniform(-5, 5)
    elif rng.random() < 0.5:
        wts = wts.astype(int)
    fracs = np.array(rec["ask"]) / rec["pden"]
    ans = np.array([[value(aa) for aa in row] for row in rec["ans"]])
    with chk.case("quantiles of %d rows of %d values" % (rows, num), record=rec):
        kw = {}
        if rec["weighted"] or rng.random() < 0.2:
            kw["weights"] = wts
        if rows == 1:
            one_row(chk, rec, rng, data[0], kw, fracs, place(ans[0]), tol, place)
            return
        # rows along any axis of an array of two or three dimensions
        dims = (rows, num)
        if rows in (4, 6) and rng.random() < 0.6:
            dims = (2, rows // 2, num)
        perm = list(rng.permutation(len(dims)))
        axis = perm.index(len(dims) - 1)
        arr = gb.vals_arg(rng, np.transpose(data.reshape(dims), perm))
        if "weights" in kw:
            kw["weights"] = gb.vals_arg(rng, np.transpose(wts.reshape(dims), perm))
        # the order of the slices, as they are found in the transposed array
        left = [pp for pp in perm if pp != len(dims) - 1]
        order = np.transpose(np.arange(rows).reshape(dims[:-1]), left).ravel()
        if rng.random() < 0.4:
            axis -= len(dims)
        before = kb.snapshot({"arr": arr, "kw": kw})
        got = np.asarray(utils.quantiles(arr, fracs, axis=axis, **kw))
        need(chk, kb.unchanged(before, {"arr": arr, "kw": kw}), "quantiles modifies its arguments")
        close(chk, got.reshape(-1, fracs.size), place(ans)[order], "quantiles along axis %d of an array of shape %s" % (
            axis, np.shape(arr)), **tol)
        need(chk, got.size == rows * fracs.size, "quantiles have shape %r" % (got.shape,))
        chk.sample({"values": arr, "args": kw, "axis": axis, "fractions": fracs})


def one_row(chk, rec, rng, data, kw, fracs, ans, tol, place):
    num = data.size
    form = rng.integers(0, 4)
    arr = data
    if form == 0:
        arr = data.tolist()
        if "weights" in kw:
            kw["weights"] = kw["weights"][0].tolist()
    elif form == 1 and num % 2 == 0:
        # without an axis, all values count
        arr = data.reshape(2, -1)
        if "weights" in kw:
            kw["weights"] = kw["weights"][0].reshape(2, -1)
    elif "weights" in kw:
        kw["weights"] = kw["weights"][0]
    ask = fracs if rng.random() < 0.5 else fracs.tolist()
    before = kb.snapshot({"arr": arr, "kw": kw, "ask": ask})
    close(chk, utils.quantiles(arr, ask, **kw), ans, "quantiles(%r, %r, %s)" % (arr, ask, kw), **tol)
    close(chk, utils.quantiles(arr, percs=float(fracs[0]), **kw), ans[0], "quantile", **tol)
    xx = np.array([value(cc[0]) for cc in rec["curve"][0]])
    yy = place(np.array([cc[1] for cc in rec["curve"][0]]))
    sig = rng.uniform(-3, 3, 3).round(1) if rng.random() < 0.5 else rng.uniform(-5, 5, 3).round(1)
    phi = np.array([0.5 * math.erfc(-ss / math.sqrt(2)) for ss in sig])
    close(chk, utils.quantiles(arr, sigmas=sig if rng.random() < 0.5 else sig.tolist(), **kw), np.interp(phi, xx, yy),
          "quantiles at sigmas %r" % (sig,), **tol)
    if np.ndim(arr) == 1:
        order = np.argsort(data, kind="stable")
        kk = {"weights": np.asarray(kw["weights"])[order]} if "weights" in kw else {}
        close(chk, utils.quantiles(np.sort(data), fracs, values_sorted=True, **kk), ans, "quantiles of sorted data", **tol)
        q1, q3 = [value(qq) for qq in rec["q13"][0]]
        close(chk, utils.iqrange(arr, **kw), place(q3) - place(q1), "iqrange", **tol)
        base = 10.0 ** rng.uniform(0.1, 1)
        spread = np.ptp(rec["data"][0])
        if spread > 100:
            base = 10.0 ** (rng.uniform(1, 20) / spread)
        elif rng.random() < 0.3:
            base = 2.0
        pows = gb.whole(rng, base ** (np.array(rec["data"][0], dtype=float) - min(rec["data"][0])))
        close(chk, utils.iqrange(pows, log=True, **kw), np.log10(base) * (q3 - q1), "iqrange(log=True)", rtol=1e-8, atol=1e-9)
    need(chk, kb.unchanged(before, {"arr": arr, "kw": kw, "ask": ask}), "quantiles modifies its arguments")
    chk.sample({"values": arr, "args": kw, "fractions": ask})
