"""C06: queries never change a KDE, its answers, or the caller's inputs."""
import numpy as np
import kalepy as kale
import kdebind as kb
from core import Mismatch, need

OPS = ["density", "pdf", "one_point", "grid", "default", "default_pdf", "project", "project_default", "project_two", "reflected",
       "reflect_true", "reflect_false", "reflect_off_dim", "cdf", "points", "attributes", "resample", "resample_keep", "resample_reflect",
       "mod_density", "mod_pdf", "mod_resample", "failed",
       # nearly the same as others: other points of the same shape, the same ones as a grid, selections in the other order, ...
       "density_other", "as_grid", "project_first", "project_two_swapped", "default_swapped", "project_reflected", "reflected_other",
       "probability", "cdf_other", "grid_project", "resample_other"]
USES_POINTS = {"default", "default_pdf", "project_default", "points", "default_swapped"}
USES_CDF = {"cdf", "cdf_other"}
RANDOM = {"resample", "resample_keep", "resample_reflect", "mod_resample", "resample_other"}


SCRIBBLE = set(OPS) - {"points", "attributes", "failed"} - RANDOM


def pool():
    """Construction arguments: lists and arrays that belong to the caller."""
    rng = np.random.default_rng(20240607)
    d1 = rng.normal(3, 1, 12)
    d1b = rng.uniform(0, 1, (1, 9))
    d2 = rng.normal(0, 1, (2, 15)) * [[1.0], [30.0]] + [[0.0], [100.0]]
    d3 = rng.normal(-4, 1, (3, 11))
    w12, w15, w11 = rng.uniform(0.1, 3, 12), rng.uniform(0.1, 3, 15), rng.uniform(0.1, 3, 11)
    out = [
        ((d1,), dict()),
        ((d1.tolist(),), dict(weights=w12.tolist(), reflect=[True, None], kernel="box")),
        ((d1,), dict(weights=w12, reflect=[[0.0, None]], points=[7], bandwidth=[0.4])),
        ((d1,), dict(reflect=True, extrema=[None, 9.0])),
        ((d1b,), dict(kernel="parabola", points=[np.linspace(-0.5, 1.5, 9)], reflect=[(None, 1.2)])),
        ((d2,), dict(weights=w15)),
        ((d2.tolist(),), dict(reflect=[[True, None], None], weights=w15.tolist(), points=[5, [80.0, 100.0, 130.0]])),
        ((d2,), dict(reflect=[True, [None, 1000.0]], bandwidth=np.array([0.3, 0.5]), kernel="triweight")),
        ((d2,), dict(bandwidth=[[0.5, 0.2], [0.2, 0.4]], extrema=[[-5.0, None], None], points=[6, 4])),
        ((d2,), dict(covariance=np.array([[1.0, 5.0], [5.0, 900.0]]), reflect=[None, [0.0, 300.0]], kernel="box", points=7)),
        ((d3,), dict(weights=w11, points=[4, 3, 5], reflect=[[-8.0, 0.0], None, [None, True]])),
        ((d3,), dict(points=[3, 3, 4], diagonal=True, kernel="parabola", bw_rescale=np.array([1.5]))),
    ]
    return out


class Obj:
    """An estimate with the caller's arguments, and arguments of queries prepared once and shared between them."""

    def __init__(self, pargs, kwargs):
        self.pargs, self.kwargs = pargs, kwargs
        self.kde = kale.KDE(*pargs, **kwargs)
        self.prepare()

    def prepare(self):
        data = np.atleast_2d(np.array(self.pargs[0], dtype=float))
        self.dim = dim = data.shape[0]
        lo, hi = data.min(axis=1), data.max(axis=1)
        self.q = {
            "points": [np.linspace(a - 0.1 * (b - a), b + 0.05 * (b - a), 6) for a, b in zip(lo, hi)],
            "grid": [np.linspace(a, b, 3 + k).tolist() for k, (a, b) in enumerate(zip(lo, hi))],
            "one": [[a + 0.3 * (b - a)] for a, b in zip(lo, hi)],
            "reflect": [[a - 0.01 * (b - a), b + 0.1 * (b - a)] if k != 1 else None for k, (a, b) in enumerate(zip(lo, hi))],
            "true": [[True, None] if k == 0 else True for k in range(dim)],
            "offdim": [None] * (dim - 1) + [[lo[-1] - 0.1, None]],
            "params": [dim - 1],
            "two": np.array([dim - 1, 0]) if dim > 1 else [0],
            "keep": [0],
            "other": [np.linspace(a - 0.07 * (b - a), b - 0.2 * (b - a), 6) for a, b in zip(lo, hi)],
            "swapped": np.array([0, dim - 1]) if dim > 1 else [0],
            "cdf": np.array([np.linspace(a - 0.1 * (b - a), b + 0.05 * (b - a), 6) for a, b in zip(lo, hi)]),
            "cdf2": np.array([np.linspace(a - 9 * (b - a), b + 7 * (b - a), 6) for a, b in zip(lo, hi)]),
            "reflect2": [[a - 0.3 * (b - a), None] if k != 1 else [None, b + 0.2 * (b - a)] for k, (a, b) in enumerate(zip(lo, hi))],
        }

    def run(self, op):
        kde, qq, dim = self.kde, self.q, self.dim
        sub = [qq["points"][-1]]
        if op == "density":
            return kde.density(qq["points"])
        if op == "pdf":
            return kde.pdf(qq["points"])
        if op == "one_point":
            return kde.density(qq["one"])
        if op == "grid":
            return kde.density(qq["grid"], grid=True)
        if op == "default":
            return kde.density() if dim < 3 else kde.density(reflect=False)
        if op == "default_pdf":
            return kde.pdf()
        if op == "project":
            return kde.density(sub, params=qq["params"])
        if op == "project_default":
            return kde.density(params=qq["params"][0])
        if op == "project_two":
            return kde.density([qq["points"][pp] for pp in qq["two"]], params=qq["two"]) if dim > 1 else kde.density(sub)
        if op == "reflected":
            return kde.density(qq["points"], reflect=qq["reflect"])
        if op == "reflect_true":
            return kde.density(qq["points"], reflect=qq["true"])
        if op == "reflect_false":
            return kde.pdf(qq["points"], reflect=False)
        if op == "reflect_off_dim":
            return kde.density(qq["points"], reflect=qq["offdim"])
        if op == "cdf":
            return (kde.cdf(qq["cdf"]),)
        if op == "points":
            return (kde.points,)
        if op == "attributes":
            return (kde.dataset, kde.weights, kde.neff, kde.bandwidth, kde.covariance, kde.kernel.matrix, kde.extrema,
                    kde.ndata, kde.ndim, kde.reflect)
        if op == "resample":
            return (np.shape(kde.resample(13, squeeze=False)),)
        if op == "resample_keep":
            return (np.shape(kde.resample(13, keep=qq["keep"], reflect=False, squeeze=False)),)
        if op == "resample_reflect":
            return (np.shape(kde.resample(13, reflect=qq["reflect"], squeeze=False)),)
        if op == "mod_density":
            return kale.density(*self.pargs, points=qq["points"], **mod(self.kwargs))
        if op == "mod_pdf":
            return kale.pdf(*self.pargs, points=qq["grid"], grid=True, **mod(self.kwargs))
        if op == "mod_resample":
            return (np.size(kale.resample(*self.pargs, size=13, **mod(self.kwargs))),)
        if op == "density_other":
            return kde.density(qq["other"])
        if op == "as_grid":
            return kde.density([pp[:4] for pp in qq["points"]], grid=True)
        if op == "grid_project":
            return kde.density([qq["grid"][-1]], grid=True, params=qq["params"])
        if op == "project_first":
            return kde.density([qq["points"][0]], params=[0])
        if op == "project_two_swapped":
            return kde.density([qq["points"][pp] for pp in qq["swapped"]], params=qq["swapped"]) if dim > 1 else kde.density(sub)
        if op == "default_swapped":
            return kde.density(params=qq["swapped"])
        if op == "project_reflected":
            return kde.density(sub, params=qq["params"], reflect=[qq["reflect2"][-1]])
        if op == "reflected_other":
            return kde.density(qq["points"], reflect=qq["reflect2"])
        if op == "probability":
            return kde.density(qq["points"], probability=True, reflect=qq["reflect"])
        if op == "cdf_other":
            return (kde.cdf(qq["cdf2"]),)
        if op == "resample_other":
            return (np.shape(kde.resample(7, keep=False, reflect=qq["reflect2"], squeeze=False)),)
        if op == "failed":
            # a rejected query must leave no trace either
            try:
                kde.density([np.zeros(3)] * (dim + 1))
            except Exception:
                pass
            try:
                kde.density(qq["points"], params=[dim + 3])
            except Exception:
                pass
            return (None,)
        raise ValueError(op)


def mod(kwargs):
    return {kk: vv for kk, vv in kwargs.items() if kk != "points"}


def equal(aa, bb):
    if isinstance(aa, (tuple, list)) and isinstance(bb, (tuple, list)):
        return len(aa) == len(bb) and all(equal(x, y) for x, y in zip(aa, bb))
    if aa is None or bb is None or isinstance(aa, bool):
        return aa is bb or aa == bb
    try:
        xx, yy = np.asarray(aa, dtype=float), np.asarray(bb, dtype=float)
        return xx.shape == yy.shape and np.allclose(xx, yy, rtol=1e-12, atol=0.0, equal_nan=True)
    except (TypeError, ValueError):
        return repr(aa) == repr(bb)


def copied(ans):
    return kb.snapshot(ans)


def run(chk):
    rng = np.random.default_rng(chk.seed)
    consts = dict(Objs={1, 2}, Ops=set(OPS), UsesPoints=USES_POINTS, UsesCdf=USES_CDF, Random=RANDOM)
    inv = dict(invariants=["Pure", "ArgsKept", "CdfNeedsPoints"], properties=["Frame"])
    jobs = [dict(module="KdeHistory", constants=dict(consts, Objs={1, 2} if chk.thorough else {1}, Depth=2), **inv),
            dict(module="KdeHistory", constants=dict(consts, Depth=9), simulate=chk.n(70, 2000), depth=30, seed=1, **inv)]
    if chk.thorough:
        jobs.append(dict(module="KdeHistory", constants=dict(consts, Objs={1}, Depth=3), **inv))
    logs = [rec["log"] for res in chk.tlc_many(jobs) for rec in res.records]
    logs = [ll[:-1] if ll[-1][0] == 0 else ll for ll in logs]
    confs = pool()
    # each history is run on a pair of estimates; the pairs of all configurations are cycled through
    pairs = [(i, j) for i in range(len(confs)) for j in range(len(confs))]
    order = rng.permutation(len(pairs))
    fresh = {}
    seen = set()
    for kk, log in enumerate(logs):
        if chk.stop:
            return
        ii, jj = pairs[order[kk % len(pairs)]]
        with chk.case("history", log=log, configs=[confs[ii], confs[jj]]):
            history(chk, log, (ii, jj), confs, fresh)
        seen.update((ii if o == 1 else jj, op) for o, op in log)
        chk.replayed += 1
    chk.notes["distinct_configuration_and_query"] = len(seen)
    chk.sample({"log": logs[-1]})


def history(chk, log, which, confs, fresh):
    import copy
    args = [copy.deepcopy(confs[i]) for i in which]
    if which[0] == which[1]:
        args[1] = args[0]      # both estimates share the caller's very objects
    before = copy.deepcopy(args)
    objs = [Obj(*aa) for aa in args]
    need(chk, kb.unchanged(before, args), "the constructor modified its arguments: %r -> %r" % (before, args))
    for step, (oo, op) in enumerate(log):
        obj = objs[oo - 1]
        qb = copy.deepcopy(obj.q)
        ans = obj.run(op)
        got = copied(ans)
        if op in SCRIBBLE and isinstance(ans[-1], np.ndarray) and ans[-1].flags.writeable:
            ans[-1][...] = -3.25       # answers belong to the caller
        need(chk, kb.unchanged(qb, obj.q), "query '%s' modified its arguments: %r -> %r" % (op, qb, obj.q))
        need(chk, kb.unchanged(before, args), "query '%s' modified the constructor's arguments" % op)
        key = (which[oo - 1], op)
        if key not in fresh:
            fresh[key] = copied(Obj(*copy.deepcopy(confs[which[oo - 1]])).run(op))
        chk.calls += 1
        if not equal(got, fresh[key]):
            raise Mismatch("step %d: '%s' on estimate %d answers %s, but %s on a fresh one; after %s" % (
                step + 1, op, oo, str(got)[:300], str(fresh[key])[:300], log[:step]))
