"""Binding of specification Kde.tla to kalepy: embeds lattice behaviours into real inputs and replays their queries.

The specification's answers are bags of (weight, q); the harness only evaluates the radial profile of each kernel at
y2 = den*q/(det*f^2) and adds up.
"""
import copy
import math
import numpy as np

from core import Mismatch, close, need, same
from gridbind import whole

NIL, AUTO = -999, 999


def nball(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


# Textbook integrals of the radial profiles over all of space, in 1, 2, 3 dimensions
NORMS = {
    "gaussian": {d: (2 * math.pi) ** (d / 2) for d in range(1, 9)},
    "box": {1: 2.0, 2: math.pi, 3: 4 * math.pi / 3, 4: math.pi ** 2 / 2,
            5: 8 * math.pi ** 2 / 15, 6: math.pi ** 3 / 6},
    "parabola": {1: 4 / 3, 2: math.pi / 2, 3: 8 * math.pi / 15, 4: math.pi ** 2 / 6,
                 5: 16 * math.pi ** 2 / 105, 6: math.pi ** 3 / 24},
    "triweight": {1: 32 / 35, 2: math.pi / 4, 3: 64 * math.pi / 315, 4: math.pi ** 2 / 20,
                  5: 128 * math.pi ** 2 / 3465, 6: math.pi ** 3 / 120},
}
NORMS["epanechnikov"] = NORMS["parabola"]


def profile(kernel, y2):
    y2 = np.asarray(y2, dtype=float)
    if kernel == "gaussian":
        return np.exp(-0.5 * y2)
    if kernel == "box":
        return (y2 <= 1.0).astype(float)
    if kernel in ("parabola", "epanechnikov"):
        return np.where(y2 < 1.0, 1.0 - y2, 0.0)
    if kernel == "triweight":
        return np.where(y2 < 1.0, (1.0 - y2) ** 3, 0.0)
    raise ValueError(kernel)


def symfactor(sym, neff, dim):
    if sym == "":
        return 1.0
    if sym == "scott":
        return neff ** (-1.0 / (dim + 4))
    if sym == "silverman":
        return (neff * (dim + 2) / 4.0) ** (-1.0 / (dim + 4))
    raise ValueError(sym)


class Embedding:
    """Affine map of the lattice into real numbers, with a choice of containers, weight scale, and so on."""

    def __init__(self, rng, dim, weighted, plain=False, mirror=False):
        self.rng = rng
        self.dim = dim
        kind = "plain" if plain else rng.choice(["plain", "int", "dyadic", "real", "tiny", "huge", "mixed", "ratio", "negative", "far"])
        self.kind = kind
        if kind in ("plain", "int"):
            self.scale = np.ones(dim)
            self.shift = np.zeros(dim)
            if kind == "int":
                # near the ends of the smaller integer types
                self.shift = rng.choice([0.0, 0.0, 115.0, -110.0, 240.0], dim)
        elif kind == "dyadic":
            self.scale = 2.0 ** rng.integers(-3, 4, dim)
            self.shift = rng.integers(-8, 9, dim) / 4.0
        elif kind == "real":
            self.scale = rng.uniform(0.1, 10.0, dim)
            self.shift = rng.uniform(-20.0, 20.0, dim)
        elif kind == "far":
            # values that are large compared to their spread, like times in seconds (all of them exact)
            self.scale = 2.0 ** rng.integers(-3, 4, dim)
            self.shift = self.scale * rng.choice([-1.0, 1.0], dim) * 2.0 ** rng.integers(16, 19, dim)
        elif kind == "tiny":
            self.scale = np.full(dim, 10.0 ** rng.uniform(-7, -4))
            self.shift = self.scale * rng.integers(-5, 5, dim)
        elif kind == "huge":
            self.scale = np.full(dim, 10.0 ** rng.uniform(4, 8))
            self.shift = self.scale * rng.integers(-5, 5, dim)
        elif kind == "ratio":
            # dimensions in very different units
            self.scale = 10.0 ** (rng.choice([-2.0, 0.0, 2.0], dim) + rng.uniform(-0.5, 0.5, dim))
            self.shift = self.scale * rng.uniform(-3, 3, dim)
        elif kind == "mixed":
            self.scale = 10.0 ** rng.uniform(-2, 2, dim)
            self.shift = self.scale * rng.uniform(-3, 3, dim)
        else:
            self.scale = rng.uniform(0.5, 2.0, dim)
            self.shift = -self.scale * rng.uniform(6, 20, dim)
        self.wscale = 1.0
        if weighted and not plain:
            self.wscale = float(rng.choice([1.0, 0.25, 3.0, 1e-3, 1e4, 0.1, 1e-14, 1e13]))
        if mirror:
            self.scale = self.scale * rng.choice([-1.0, 1.0], dim)

    def val(self, dim, coord):
        return self.shift[dim] + self.scale[dim] * coord

    def cols(self, points, params=None):
        """(N, d) lattice points to (d, N) floats."""
        points = np.asarray(points, dtype=float)
        params = range(self.dim) if params is None else params
        return np.array([self.shift[p] + self.scale[p] * points[:, a] for a, p in enumerate(params)])

    def bound(self, dim, coord):
        if coord == NIL:
            return None
        if coord == AUTO:
            return True
        return float(self.val(dim, coord))

    def container(self, arr, sure_float=False):
        """The same values in one of several containers."""
        rng = self.rng
        if self.kind == "int" and not sure_float and np.all(arr == np.round(arr)):
            how = rng.choice(["int", "intlist", "int32", "small"])
            if how == "small":
                return whole(rng, arr, 1.0)
            if how == "int":
                return arr.astype(int)
            if how == "int32":
                return arr.astype(np.int32)
            return arr.astype(int).tolist()
        how = rng.choice(["array", "list", "tuple", "fortran", "strided", "arrays", "view"])
        if how == "array":
            return np.array(arr)
        if how == "list":
            return arr.tolist()
        if how == "tuple":
            return tuple(map(tuple, arr.tolist())) if arr.ndim == 2 else tuple(arr.tolist())
        if how == "fortran":
            return np.asfortranarray(arr)
        if how == "strided":
            big = np.full(arr.shape[:-1] + (2 * arr.shape[-1],), 77.0)
            big[..., ::2] = arr
            return big[..., ::2]
        if how == "view":
            return np.array(arr[..., ::-1])[..., ::-1]
        return [np.array(rr) for rr in arr] if arr.ndim == 2 else np.array(arr)


def reflect_arg(emb, mode, rr, params, rng, dim):
    """The library's `reflect` argument for the given mode of the specification."""
    if mode == "none" or mode == "default":
        return None
    if mode == "off":
        return False
    if mode == "auto":
        return True
    out = []
    for a, p in enumerate(params):
        lo, hi = emb.bound(p, rr[a][0]), emb.bound(p, rr[a][1])
        if lo is None and hi is None and rng.random() < 0.7:
            out.append(None)
        elif lo is True and hi is True and rng.random() < 0.5:
            out.append(True)
        else:
            out.append([lo, hi] if rng.random() < 0.6 else (lo, hi))
    # one-dimensional data may have the bare pair
    if len(out) == 1 and isinstance(out[0], (list, tuple)) and dim == 1 and rng.random() < 0.5:
        return list(out[0]) if rng.random() < 0.5 else tuple(out[0])
    if rng.random() < 0.3:
        out = tuple(out)
    return out


def bw_arg(rec, rng):
    """The library's `bandwidth`, `diagonal` arguments"""
    bw = rec["bw"]
    den = rec["bden"]
    vv = bw["v"]
    kw = {}
    if bw["kind"] in ("scalar", "diag"):
        kw["diagonal"] = (bw["kind"] == "diag")
        if bw["sym"]:
            kw["bandwidth"] = bw["sym"]
            if vv[0] != den:
                kw["bw_rescale"] = vv[0] / den
            if bw["sym"] == "scott" and rng.random() < 0.3:
                kw.pop("bandwidth")      # Scott's rule is the default
        else:
            kw["bandwidth"] = vv[0] / den
    elif bw["kind"] == "vec":
        if len(vv) == 1:
            kw["bandwidth"] = [vv[0] / den]
        else:
            kw["bandwidth"] = [v / den for v in vv]
            if rng.random() < 0.5:
                kw["bandwidth"] = np.array(kw["bandwidth"])
    else:
        kw["bandwidth"] = [[v / den for v in row] for row in vv]
        if rng.random() < 0.5:
            kw["bandwidth"] = np.array(kw["bandwidth"])
    return kw


def construct_args(rec, emb, rng, permute=True):
    """Positional dataset and keyword arguments of the KDE of this record, in the given embedding."""
    data = emb.cols(rec["data"])
    ww = np.array(rec["w"], dtype=float) * emb.wscale
    if permute:
        idx = rng.permutation(data.shape[1])
        data, ww = data[:, idx], ww[idx]
    dim = rec["d"]
    if dim == 1 and rng.random() < 0.5:
        dset = emb.container(data[0])
    else:
        dset = emb.container(data)
    kw = {}
    if rec["weighted"]:
        if emb.kind == "int" and emb.wscale == 1.0 and rng.random() < 0.5:
            kw["weights"] = ww.astype(int)
        else:
            kw["weights"] = ww if rng.random() < 0.5 else ww.tolist()
    kw.update(bw_arg(rec, rng))
    if rec["cov"]:
        kw["covariance"] = np.array(rec["cov"], dtype=float) * np.outer(emb.scale, emb.scale)
        if rng.random() < 0.3:
            kw["covariance"] = kw["covariance"].tolist()
    kern = rec["kernel"]
    if kern != "gaussian" or rng.random() < 0.5:
        kw["kernel"] = kernel_arg(kern, rng)
    refl = reflect_arg(emb, rec["stored"]["mode"], rec["stored"]["r"], range(dim), rng, dim)
    if refl is not None:
        kw["reflect"] = refl
    return dset, kw


def kernel_arg(kern, rng):
    import kalepy.kernels as kk
    how = rng.integers(0, 4)
    cls = {"gaussian": "Gaussian", "box": "Box", "parabola": "Parabola", "epanechnikov": "Parabola",
           "triweight": "Triweight"}[kern]
    if how == 0 and hasattr(kk, cls):
        return getattr(kk, cls)
    if how == 1:
        return kern.upper()
    if how == 2:
        return " " + kern.capitalize() + " "
    return kern


def expected(rec, qq, emb, params):
    """(values, slack) the specification's answers to query `qq`; slack is due to data exactly at the edge of a kernel."""
    dim = rec["d"]
    neff = rec["wsum"] ** 2 / rec["w2"]
    ff = symfactor(rec["bw"]["sym"], neff, dim)
    nd = len(params)
    kern = rec["kernel"]
    deth = ff ** (2 * nd) * qq["det"] / float(rec["den"]) ** nd
    norm = math.sqrt(deth) * NORMS[kern][nd] * float(np.prod(np.abs(emb.scale[list(params)])))
    tol_edge = 1e-6
    vals, slack = [], []
    for bag, out in zip(qq["bags"], qq["out"]):
        if out:
            vals.append(0.0)
            slack.append(0.0)
            continue
        if not bag:
            vals.append(0.0)
            slack.append(0.0)
            continue
        ww = np.array([bb[0] for bb in bag], dtype=float) * emb.wscale
        y2 = np.array([bb[1] for bb in bag], dtype=float) * rec["den"] / qq["det"] / ff ** 2
        kv = profile(kern, y2)
        near = np.abs(y2 - 1.0) < tol_edge
        if kern == "box":
            slack.append(np.sum(ww[near]) / norm)
        else:
            slack.append(0.0)
        vals.append(np.sum(ww * kv) / norm)
    peak = np.sum(np.array(rec["w"], dtype=float)) * emb.wscale / norm
    return np.array(vals), np.array(slack), peak


def has_auto(rec, qq):
    if qq["mode"] == "auto" or (qq["mode"] == "pairs" and AUTO in np.ravel(qq["r"])):
        return True
    if qq["mode"] == "default":
        st = rec["stored"]
        return st["mode"] == "auto" or (st["mode"] == "pairs" and AUTO in np.ravel(st["r"]))
    return False


def compare(chk, got, rec, qq, emb, params, prob, what, shape=None, factor=1.0):
    want, slack, peak = expected(rec, qq, emb, params)
    total = rec["wsum"] * emb.wscale if rec["weighted"] else len(rec["data"])
    div = (total if prob else 1.0) / factor
    want, slack, peak = want / div, slack / div, peak / div
    got = np.asarray(got)
    if shape is not None:
        need(chk, got.shape == tuple(shape), "%s: shape %s, expected %s" % (what, got.shape, tuple(shape)))
    got = np.ravel(got).astype(float)
    need(chk, got.size == want.size, "%s: %d values, expected %d" % (what, got.size, want.size))
    chk.calls += got.size
    auto = has_auto(rec, qq)
    out = np.array(qq["out"], dtype=bool)
    if np.any(got[out] != 0.0):
        kk = np.argmax(out & (got != 0.0))
        raise Mismatch("%s: density %r outside of the boundaries %s at lattice point %s" % (
            what, got[kk], qq["bounds"], qq["at"][kk]))
    rtol = 3e-6 if auto else 1e-7
    if auto:
        # mirror images about data extremes padded by 1e-8 of their value
        off = np.abs(emb.shift) + 10 * np.abs(emb.scale)
        rtol += 1e-6 * np.max(off / np.abs(emb.scale))
    tol = rtol * np.abs(want) + 1e-11 * peak + slack * (1 + 1e-9) + (rtol * peak if auto else 0.0)
    bad = ~(np.abs(got - want) <= tol)
    if np.any(bad):
        kk = int(np.argmax(bad))
        raise Mismatch("%s: density %r at lattice point %s, specification says %r (bag %s; den %s det %s)" % (
            what, got[kk], qq["at"][kk], want[kk], qq["bags"][kk][:6], rec["den"], qq["det"]))
    return


def points_arg(rec, qq, emb, rng):
    """(points argument, grid, expected shape, params or None, list of params)"""
    dim = rec["d"]
    params = [p - 1 for p in qq["params"]] if qq["params"] else list(range(dim))
    at = np.array(qq["at"], dtype=float)
    if qq["grid"]:
        # the specification enumerates the product with the last one fastest
        edges = []
        shape = tuple(qq["len"])
        for a, p in enumerate(params):
            stride = int(np.prod(shape[a + 1:]))
            edges.append(emb.val(p, at[::stride, a][:shape[a]]))
        how = rng.integers(0, 3)
        if how == 0 and len(set(shape)) == 1:
            pts = np.array(edges)
        elif how == 1:
            pts = [ee.tolist() for ee in edges]
        else:
            pts = tuple(np.array(ee) for ee in edges)
        return pts, True, shape, params, edges
    cols = emb.cols(at, params)
    if len(params) == 1 and rng.random() < 0.5:
        pts = emb.container(cols[0])
    else:
        pts = emb.container(cols)
    return pts, False, (at.shape[0],), params, cols


def snapshot(obj):
    return copy.deepcopy(obj)


def unchanged(before, after):
    if isinstance(before, np.ndarray):
        return isinstance(after, np.ndarray) and before.shape == after.shape and np.array_equal(before, after)
    if isinstance(before, (list, tuple)):
        return type(before) is type(after) and len(before) == len(after) and all(
            unchanged(b, a) for b, a in zip(before, after))
    if isinstance(before, dict):
        return before.keys() == after.keys() and all(unchanged(before[k], after[k]) for k in before)
    return (before is after) or (before == after and type(before) is type(after))


def query_kwargs(rec, qq, emb, rng):
    pts, grid, shape, params, edges = points_arg(rec, qq, emb, rng)
    kw = {}
    if qq["params"]:
        kw["params"] = params if (len(params) > 1 or rng.random() < 0.5) else params[0]
        if len(params) > 1 and rng.random() < 0.4:
            kw["params"] = rng.choice([0, 1]) and tuple(params) or np.array(params)
    refl = reflect_arg(emb, qq["mode"], qq["r"], params, rng, rec["d"])
    if qq["mode"] != "default" or rng.random() < 0.3:
        kw["reflect"] = refl
    if grid:
        kw["grid"] = True
    return pts, kw, shape, params, edges


def ask(chk, kde, rec, qq, emb, rng, what, check_inputs=False):
    """Replay one query of the behaviour on the real object, and compare the answer."""
    pts, kw, shape, params, edges = query_kwargs(rec, qq, emb, rng)
    before = snapshot((pts, kw))
    prob = bool(rng.integers(0, 2))
    if prob:
        if rng.random() < 0.5:
            rpts, vals = kde.pdf(pts, **kw)
        else:
            rpts, vals = kde.density(pts, probability=True, **kw)
    else:
        rpts, vals = kde.density(pts, **kw)
    if check_inputs:
        need(chk, unchanged(before, (pts, kw)), "%s: the query modified its arguments: %r -> %r" % (
            what, before, (pts, kw)))
    vals = np.atleast_1d(vals)
    compare(chk, vals, rec, qq, emb, params, prob, what, shape=shape if vals.size > 1 else None)
    check_points(chk, rpts, edges, what)
    return vals


def check_points(chk, got, edges, what):
    """The returned points are those that were given."""
    try:
        gg = np.ravel(np.concatenate([np.ravel(np.asarray(g, dtype=float)) for g in np.atleast_1d(
            np.asarray(got, dtype=object))])) if not isinstance(got, np.ndarray) or got.dtype == object else np.ravel(got)
    except Exception:
        gg = np.array([float(v) for g in got for v in np.ravel(g)])
    ww = np.concatenate([np.ravel(e) for e in edges])
    if gg.shape != ww.shape or not np.array_equal(gg.astype(float), ww.astype(float)):
        raise Mismatch("%s: the returned points %r are not those given %r" % (what, gg[:8], ww[:8]))
