"""C09: malformed inputs are rejected, well-formed ones accepted."""
import numpy as np
import kalepy as kale
from kalepy import kernels
from core import Mismatch, need


def run(chk):
    rng = np.random.default_rng(chk.seed)
    acts = {"construct", "density", "pdf", "function", "resample", "resample function", "cdf", "grid", "outliers", "proportional"}
    laws = ["LawOneBad", "LawAllGood"]
    jobs = [dict(module="Accept", constants=dict(Actions=acts, Dims={1, 2, 3}, MaxSet=2), invariants=laws),
            dict(module="Accept", constants=dict(Actions=acts, Dims={1, 2, 3}, MaxSet=5), invariants=laws,
                 simulate=chk.n(500, 8000), depth=20, seed=1)]
    seen = {}
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            form = rec["form"] or {}
            seen.setdefault((rec["action"], rec["d"], tuple(sorted(form.items()))), rec)
    keys = sorted(seen)
    # every single form by itself; a random selection of the combinations
    few = [kk for kk in keys if len(kk[2]) <= 1]
    rest = [kk for kk in keys if len(kk[2]) > 1]
    if not chk.thorough:
        rest = [rest[ii] for ii in sorted(rng.permutation(len(rest))[:3600])]
    for key in few + rest:
        if chk.stop:
            return
        chk.replayed += 1
        one(chk, seen[key], dict(key[2]), rng)
    chk.notes["combinations"] = len(seen)


def data_of(dim, rng, num=12):
    return np.random.default_rng(5 + dim).normal(2, 1, (dim, num)) * (10.0 ** np.arange(dim))[:, None]


def reflects(form, dim, data):
    lo, hi = data.min(axis=1) - 0.5, data.max(axis=1) + 0.5
    rows = [[lo[k], hi[k]] if k == 0 else None for k in range(dim)]
    if form == "plain":
        return rows
    if form == "tuple":
        return tuple(tuple(r) if r else r for r in rows)
    if form == "false":
        return False
    if form == "true":
        return True
    if form == "none rows":
        return [None] * dim
    if form == "one side":
        return [[lo[0], None]] + [None] * (dim - 1)
    if form == "data extremes":
        return [[True, None]] + [None] * (dim - 1)
    if form == "too many":
        return rows + [[0.0, 1.0]]
    if form == "too few":
        return rows[:-1]
    if form == "reversed":
        return [[hi[0], lo[0]]] + rows[1:]
    if form == "reversed last":
        return [None] * (dim - 1) + [[hi[-1], lo[-1]]]
    if form == "equal":
        return [[lo[0], lo[0]]] + rows[1:]
    if form == "triple":
        return [[lo[0], 0.5 * (lo[0] + hi[0]), hi[0]]] + rows[1:]
    if form == "scalar row":
        return [lo[0]] + rows[1:]
    if form == "single":
        return [[lo[0]]] + rows[1:]
    raise KeyError(form)


def one(chk, rec, form, rng):
    act, dim, valid = rec["action"], rec["d"], rec["valid"]
    if act in ("grid", "outliers", "proportional"):
        call = grid_call(act, dim, form)
    else:
        call = kde_call(act, dim, form, rng)
    what = "%s of %d-d data with %s" % (act, dim, form)
    with chk.case(what, record=rec):
        np.random.seed(3)
        try:
            out = call()
        except Exception as err:
            chk.calls += 1
            if valid:
                raise Mismatch("well-formed arguments are rejected: %s: %s" % (type(err).__name__, err))
        else:
            need(chk, valid, "malformed arguments are accepted, giving %r" % (out,))
            if out is not None:
                for vv in out:
                    need(chk, np.all(np.isfinite(np.asarray(vv, dtype=float))), "the result is not finite: %r" % (vv,))
        chk.sample({"action": act, "dim": dim, "form": form, "valid": valid})


def kde_call(act, dim, form, rng):
    data = data_of(dim, rng)
    num = data.shape[1]
    kw = {}
    arg = data if dim > 1 else data[0]
    ff = form.get("data")
    if ff == "list":
        arg = data.tolist()
    elif ff == "int":
        arg = np.round(data * 10).astype(int)
        data = arg.astype(float)
    elif ff == "one datum":
        arg = data[:, :1]
        kw["covariance"] = np.eye(dim)
        kw["bandwidth"] = 0.5
        num = 1
    elif ff == "empty":
        arg = []
    elif ff == "empty rows":
        arg = np.zeros((dim, 0))
    ff = form.get("weights")
    ww = np.linspace(0.5, 2, num)
    if ff == "list":
        ww = ww.tolist()
    elif ff == "int":
        ww = np.arange(1, num + 1)
    elif ff == "some zero":
        ww[:3] = 0.0
    elif ff == "only one":
        ww = np.zeros(num)
        ww[2] = 1.0
        kw.update(covariance=np.eye(dim), bandwidth=0.5)
    elif ff == "short":
        ww = ww[:-1]
    elif ff == "long":
        ww = np.append(ww, 1.0)
    elif ff == "matrix":
        ww = np.array([ww])
    elif ff == "scalar":
        ww = 2.0
    elif ff == "negative":
        ww[1] = -1e-3
    elif ff == "nan":
        ww[4] = np.nan
    elif ff == "inf":
        ww[4] = np.inf
    elif ff == "all zero":
        ww = np.zeros(num)
    if ff:
        kw["weights"] = ww
    ff = form.get("kernel")
    if ff:
        kw["kernel"] = {"plain": "gaussian", "upper case": "BOX", "class": kernels.Triweight, "other name": "epanechnikov",
                        "unknown name": "gauss", "number": 3, "other class": dict, "instance of nothing": object()}[ff]
    ff = form.get("bandwidth")
    if ff:
        if ff in ("unknown name", "long vector", "large matrix", "vector with unknown name", "cube") or "bandwidth" not in kw:
            kw["bandwidth"] = {
                "plain": 0.4, "name": "silverman", "single": [0.4], "vector": [0.4] * dim, "matrix": (0.4 * np.eye(dim)).tolist(),
                "vector of names": ["scott"] * dim, "zero-dim": np.array(0.7), "unknown name": "scot",
                "long vector": [0.4] * (dim + 1), "large matrix": 0.4 * np.eye(dim + 1),
                "vector with unknown name": ["scot"] * dim if dim > 1 else ["scot", "scott"], "cube": 0.4 * np.ones((2, 2, 2))}[ff]
    if "reflect" in form:
        kw["reflect"] = reflects(form["reflect"], dim, data)
    lo, hi = data.min(axis=1), data.max(axis=1)
    ff = form.get("extrema")
    if ff:
        kw["extrema"] = {"plain": [[a, b] for a, b in zip(lo - 1, hi + 1)], "half": [[a, None] for a in lo - 1],
                         "none rows": [None] * dim}[ff]
    # --- the query
    pts = np.array([np.linspace(a, b, 4) for a, b in zip(lo, hi)])
    qk = {}
    ff = form.get("points", "plain")
    if act == "cdf":
        pass
    elif ff == "default":
        pts = None
    elif ff == "grid":
        pts = [np.linspace(a, b, 3 + k) for k, (a, b) in enumerate(zip(lo, hi))]
        qk["grid"] = True
    elif ff == "list":
        pts = pts.tolist()
    elif ff == "ragged":
        pts = [[1.0, 2.0]] + [[1.0, 2.0, 3.0]] * (dim - 1)
    elif ff == "words":
        pts = [["a", "b"]] * dim
    if ff == "one point":
        pts = pts[:, :1]
    elif ff == "missing row":
        pts = pts[:-1]
    elif ff == "extra row":
        pts = np.concatenate([pts, pts[:1]])
    ff = form.get("params")
    if ff:
        qk["params"] = {"first": 0, "last in list": [dim - 1], "all reversed": list(range(dim))[::-1], "beyond": dim,
                        "beyond in list": [0, dim]}[ff]
        sel = [min(p, dim - 1) for p in np.atleast_1d(qk["params"])]
        if pts is not None:
            pts = [list(pts[p]) for p in sel]
    if "qreflect" in form:
        qk["reflect"] = reflects(form["qreflect"], dim, data)
    if "keep" in form:
        qk["keep"] = {"last": dim - 1, "list of last": [dim - 1], "false": False, "nothing": [], "beyond": dim, "reflected": 0}[form["keep"]]

    def call():
        if act == "construct":
            kde = kale.KDE(arg, **kw)
            return [kde.bandwidth, kde.covariance if num > 1 else 0.0]
        if act == "function":
            return [kale.density(arg, points=pts, **qk, **kw)[1]]
        if act == "resample function":
            out = kale.resample(arg, **qk, **kw)
            return [out]
        kde = kale.KDE(arg, **kw)
        if act == "density":
            return [kde.density(pts, **qk)[1]]
        if act == "pdf":
            return [kde.pdf(pts, **qk)[1]]
        if act == "cdf":
            return [kde.cdf(pts)]
        return [kde.resample(7, **qk)]
    return call


def grid_call(act, dim, form):
    shape = (4, 3, 5)[:dim]
    edges = [np.linspace(0, 1 + k, nn) for k, nn in enumerate(shape)]
    dens = np.random.default_rng(8).uniform(0.5, 2, shape)
    ff = form.get("edges")
    if ff == "list":
        edges = [ee.tolist() for ee in edges]
    elif ff == "tuple":
        edges = tuple(edges)
    elif ff == "uneven":
        edges = [ee**2 for ee in edges]
    elif ff == "one less":
        edges[-1] = edges[-1][:-1]
    elif ff == "one more":
        edges[0] = np.append(edges[0], 9.0)
    elif ff == "too many":
        edges = edges + [np.linspace(0, 1, 3)]
    elif ff == "too few":
        edges = edges[:-1]
    elif ff == "centers":
        edges = [np.linspace(0, 1 + k, nn + 1) for k, nn in enumerate(shape)]
    kw = {}
    ff = form.get("mass")
    bins = tuple(nn - 1 for nn in shape)
    if ff:
        kw["mass"] = {"plain": np.ones(bins) * 1.5, "int": np.ones(bins, dtype=int), "list": np.ones(bins).tolist(),
                      "like edges": np.ones(shape), "flat wrong": np.ones(int(np.prod(bins)) + 1),
                      "one less": np.ones((bins[0] - 1,) + bins[1:])}[ff]
    if dim == 1 and form.get("edges") not in ("too many", "too few"):
        edges = edges[0]

    def call():
        if act == "grid":
            return [kale.sample_grid(edges, dens, 10, **kw)]
        if act == "outliers":
            return list(kale.sample_outliers(edges, dens * 5, 0.8, **kw))
        return list(kale.sample_grid_proportional(edges, dens, dens + 1.0, 10, **kw))
    return call
