"""C14: the module-level functions answer exactly like the KDE object."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc
from core import Raw, close, need

BUILD = {"weights", "reflect", "bandwidth", "kernel", "covariance", "neff", "diagonal", "bw_rescale", "extrema", "chunk", "helper"}
QUERY = {"density": {"points", "params", "grid", "probability"}, "pdf": {"points", "params", "grid"}, "resample": {"size", "keep"}}


def run(chk):
    rng = np.random.default_rng(chk.seed)
    qq = Raw("[" + ", ".join("%s |-> {%s}" % (f, ", ".join('"%s"' % o for o in sorted(oo))) for f, oo in QUERY.items()) + "]")
    excl = Raw('{{"reflect", "keep"}}')
    consts = dict(Funcs=set(QUERY), Build=BUILD, Query=qq, Excluded=excl)
    modes = dict(StoredModes={"none", "auto", "pairs"}, QueryModes={"default"}, NQuery=2, NPoint=3, Grids={False, True})
    num = chk.n(40, 500)
    jobs = [dict(module="Api", constants=dict(consts, MaxOpts=2), invariants=["Routed"]),
            dict(module="Api", constants=dict(consts, MaxOpts=9), invariants=["Routed"], simulate=chk.n(150, 2000), depth=30, seed=1),
            dict(module="Kde", constants=kc.config(1, **modes), simulate=num, depth=60, seed=2),
            dict(module="Kde", constants=kc.config(2, **dict(modes, ParamSels={kc.seq(s) for s in ([], [1], [2], [2, 1])})),
                 simulate=num, depth=60, seed=3)]
    res = chk.tlc_many(jobs)
    calls = set()
    for rr in res[:2]:
        for rec in rr.records:
            calls.add((rec["func"], tuple(sorted(rec["build"])), tuple(sorted(rec["query"]))))
    chk.notes["combinations_of_options"] = len(calls)
    sets = datasets()
    for kk, (func, build, query) in enumerate(sorted(calls)):
        if chk.stop:
            return
        both(chk, func, build, query, sets[(kk + chk.seed) % len(sets)], rng)
        chk.replayed += 1
    for rr in res[2:]:
        for rec in rr.records:
            if chk.stop:
                return
            chk.replayed += 1
            through(chk, rec, rng)
    positional(chk, sets)


def datasets():
    """Data with a value of every option"""
    rng = np.random.default_rng(11)
    out = []
    x1 = rng.normal(3, 1, 25)
    w1 = rng.uniform(0.1, 3, 25)
    for kern, refl in (("box", [1.0, None]), ("parabola", True), ("gaussian", [[None, 4.0]])):
        out.append((x1, dict(weights=w1, reflect=refl, bandwidth=0.6, kernel=kern, covariance=[[2.0]], neff=60.0, diagonal=True,
                             bw_rescale=1.7, extrema=[0.0, 7.0], chunk=4, helper=False, points=np.linspace(0, 6, 7), params=0,
                             grid=True, probability=True, size=9, keep=True if kern == "box" else 0)))
    x2 = rng.normal(0, 1, (2, 30)) * [[1.0], [20.0]]
    w2 = rng.uniform(0.1, 3, 30)
    for kern, bw, keep in (("triweight", "silverman", 1), ("gaussian", [0.5, 0.9], [0])):
        out.append((x2, dict(weights=w2.tolist(), reflect=[[-1.0, None], None], bandwidth=bw, kernel=kern,
                             covariance=[[1.0, 5.0], [5.0, 300.0]], neff=9.0, diagonal=True, bw_rescale=0.4,
                             extrema=[[-4.0, 4.0], [-70.0, 70.0]], chunk=7.0, helper=False,
                             points=[[-0.5, 0.0, 2.0], [-30.0, 0.0, 11.0]], params=[1, 0], grid=True, probability=True, size=12.0,
                             keep=keep)))
    x2b = (x2 * [[2.0], [0.1]])
    out.append((x2b.tolist(), dict(weights=w2, reflect=[None, True], bandwidth=0.8, kernel="box", covariance=[[4.0, 1.0], [1.0, 3.0]],
                                   neff=500, diagonal=True, bw_rescale=2.0, extrema=[[-9.0, None], None], chunk=3, helper=False,
                                   points=[[1.0, 2.0, 0.5, -1.0]], params=1, grid=True, probability=True, size=1, keep=[1, 0])))
    x3 = rng.normal(2, 1, (3, 20))
    w3 = rng.uniform(0.1, 3, 20)
    out.append((x3, dict(weights=w3, reflect=[None, None, [None, 5.0]], bandwidth=0.9, kernel="parabola", covariance=np.eye(3) + 0.2,
                         neff=4, diagonal=True, bw_rescale=1.2, extrema=[[-1.0, 5.0]] * 3, chunk=100, helper=False,
                         points=[[1.0, 2.0], [2.0, 3.0]], params=[2, 0], grid=True, probability=True, size=17, keep=[0, 1])))
    # many data; many dimensions
    x4 = rng.normal(0, 3, 1600)
    w4 = rng.uniform(0.1, 3, 1600)
    out.append((x4, dict(weights=w4, reflect=[-12.0, None], bandwidth="scott", kernel="gaussian", covariance=[[2.0]], neff=60.0,
                         diagonal=True, bw_rescale=0.6, extrema=[-15.0, 20.0], chunk=1e3, helper=False, points=np.linspace(-9, 9, 1300),
                         params=[0], grid=True, probability=True, size=2100, keep=[0])))
    x5 = rng.normal(0, 1, (4, 90)) * np.array([[1.0], [3.0], [0.1], [20.0]])
    w5 = rng.integers(1, 4, 90)
    out.append((x5, dict(weights=w5, reflect=[None, [None, 9.0], None, True], bandwidth=0.7, kernel="parabola",
                         covariance=np.diag([1.0, 9.0, 0.01, 400.0]), neff=33, diagonal=True, bw_rescale=1.3,
                         extrema=[[-4.0, 4.0], [-15.0, None], None, [-90.0, 90.0]], chunk=100, helper=False,
                         points=[[0.1, 1.0], [0.5, 3.0]], params=[3, 1], grid=True, probability=True, size=11, keep=[3, 0])))
    return out


def both(chk, func, build, query, dset, rng):
    data, vals = dset
    dim = np.atleast_2d(data).shape[0]
    kw = {oo: vals[oo] for oo in build}
    qk = {oo: vals[oo] for oo in query}
    nsel = np.size(vals["params"]) if "params" in qk else dim
    if "points" in qk:
        # as many dimensions as are selected
        pts = [list(p) for p in np.atleast_2d(np.array(vals["points"], dtype=float))]
        while len(pts) < nsel:
            pts.append([v + 0.25 for v in pts[-1]])
        qk["points"] = pts[:nsel]
        if nsel == 1 and "grid" not in qk and rng.random() < 0.5:
            qk["points"] = np.array(pts[0])
        if "grid" in qk and nsel > 1:
            qk["points"][0] = qk["points"][0] + [9.0]
    elif func != "resample" and dim >= 3 and nsel == dim:
        qk["params"] = vals["params"]       # the default grid is too large
    if "bandwidth" in kw and isinstance(vals["bandwidth"], list) and "diagonal" in kw and rng.random() < 0.5:
        kw["bandwidth"] = vals["bandwidth"][0]
    with chk.case("kalepy.%s with %s" % (func, sorted(kw) + sorted(qk)), args=[data, kw, qk]):
        before = kb.snapshot((data, kw, qk))
        np.random.seed(271828)
        got = getattr(kale, func)(data, **kw, **qk)
        need(chk, kb.unchanged(before, (data, kw, qk)), "arguments were modified")
        kde = kale.KDE(data, **kw)
        if func == "resample":
            np.random.seed(271828)
            want = kde.resample(**qk)
            need(chk, np.shape(got) == np.shape(want), "shape %s, but %s of the KDE object" % (np.shape(got), np.shape(want)))
            if not np.allclose(got, want, rtol=1e-12, atol=0):
                distribution(chk, data, kw, qk, kde)
            chk.calls += 1
        else:
            method = kde.density if func == "density" else kde.pdf
            want = method(**qk)
            close(chk, got[1], want[1], "values", rtol=1e-12)
            gp, wp = list(got[0]), list(want[0])
            need(chk, len(gp) == len(wp) and all(np.array_equal(a, b) for a, b in zip(gp, wp)), "points differ: %r and %r" % (
                got[0], want[0]))
        chk.sample({"func": func, "build": sorted(kw), "query": sorted(qk)})


def distribution(chk, data, kw, qk, kde):
    """The random numbers need not be used alike: then compare the distributions"""
    num = 20000
    qk = dict(qk, size=num)
    aa = np.atleast_2d(kale.resample(data, **kw, **qk))
    bb = np.atleast_2d(kde.resample(**qk))
    for x, y in zip(aa, bb):
        at = np.quantile(np.concatenate([x, y]), np.linspace(0.02, 0.98, 49))
        fx, fy = [np.searchsorted(np.sort(v), at, side="right") / num for v in (x, y)]
        # two-sample Kolmogorov-Smirnov: 2 exp(-2 d^2 n/2) = 4e-13 at d = 0.0375
        need(chk, np.max(np.abs(fx - fy)) < 0.0375, "samples are distributed differently from those of the KDE object")


class Through:
    """`kalepy.density` and `kalepy.pdf` in the place of the methods of an estimate"""
    def __init__(self, dset, kw, rng):
        self.dset, self.kw, self.rng = dset, kw, rng

    def density(self, pts, **qk):
        qk.pop("reflect", None)
        if self.rng.random() < 0.3:
            return kale.density(self.dset, pts, **qk, **self.kw)
        return kale.density(self.dset, points=pts, **qk, **self.kw)

    def pdf(self, pts, **qk):
        qk.pop("reflect", None)
        return kale.pdf(self.dset, points=pts, **qk, **self.kw)


def through(chk, rec, rng):
    emb = kb.Embedding(rng, rec["d"], rec["weighted"], plain=rng.random() < 0.5)
    with chk.case("kalepy.density/pdf of %d-d data" % rec["d"], record=rec, embedding=vars(emb)):
        dset, kw = kb.construct_args(rec, emb, rng)
        fun = Through(dset, kw, rng)
        for qq in rec["qs"]:
            kb.ask(chk, fun, rec, qq, emb, rng, "kalepy.density/pdf", check_inputs=True)


def positional(chk, sets):
    """Arguments by position"""
    data, vals = sets[3]
    with chk.case("positional arguments"):
        kde = kale.KDE(data, weights=vals["weights"], reflect=vals["reflect"])
        close(chk, kale.density(data, vals["points"], vals["weights"], vals["reflect"], True)[1],
              kde.pdf(vals["points"])[1], "density by position", rtol=1e-12)
        close(chk, kale.density(data, vals["points"], vals["weights"], vals["reflect"], True, True, [1, 0])[1],
              kde.pdf(vals["points"], grid=True, params=[1, 0])[1], "density by position", rtol=1e-12)
        close(chk, 
              kale.pdf(data, vals["points"], vals["weights"], vals["reflect"])[1],
              kde.pdf(vals["points"])[1], "pdf by position", rtol=1e-12)
        need(chk, np.shape(kale.resample(data, 5, vals["weights"], vals["reflect"], [1])) == (2, 5), "resample by position")
