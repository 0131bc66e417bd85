"""C08: a KDE built from a histogram represents that histogram."""
import numpy as np
import kalepy as kale
import gridbind as gb
import kdebind as kb
import kdecases as kc
from core import close, need


def config(dim, **kw):
    cc = kc.config(dim, NQuery=1, NPoint=3)
    for key in ("Coords", "NSet", "Weighted", "Covs", "Bws", "BDen"):
        cc.pop(key)
    cc.update(dict(Bins={1, 2, 4} if dim == 1 else ({2} if dim < 4 else {1, 2}), Widths={2, 4} if dim < 3 else {2},
                   Start={-2, 0, 3}, Counts={0, 1, 2, 5} if dim == 1 else ({0, 1, 2, 3} if dim == 2 else {0, 1, 2}), BDen=1))
    cc["PCoords"] = set(range(-4, 9)) if dim == 1 else {-3, 0, 1, 2, 5}
    cc["Kernels"] = {"gaussian", "parabola", "triweight", "box"}
    cc["StoredModes"] = {"none", "pairs"}
    cc["Reflects"] = {kc.seq(r) for r in ([kc.NIL, kc.NIL], [-3, kc.NIL], [-4, 12])}
    cc["WSet"] = {1}
    cc.update(kw)
    return cc


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = [dict(module="KdeFromHist", constants=config(dim), invariants=["LawCentres", "LawMass"], simulate=num,
                 depth=80, seed=dim)
            for dim, num in ((1, chk.n(250, 2500)), (2, chk.n(120, 1200)), (3, chk.n(60, 600)), (4, chk.n(16, 160)))]
    jobs.append(dict(module="KdeFromHist", constants=config(2, Bins={2, 3}, Widths={2}, Counts={0, 1, 3}),
                     invariants=["LawCentres", "LawMass"], simulate=chk.n(100, 1000), depth=80, seed=4))
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)


class HistEmbedding(kb.Embedding):
    """The bandwidth has units of the bins, so only one common scale factor for all dimensions"""
    def __init__(self, rng, dim, edges):
        super().__init__(rng, dim, False, plain=True)
        self.kind = str(rng.choice(["int", "int", "plain", "scaled"]))
        if self.kind == "int" and rng.random() < 0.7:
            fits = [gb.filling(rng, ee[0], ee[-1])[0] for ee in edges]
            self.scale = np.full(dim, min(fits))
            self.shift = np.array([rng.choice([-127, 1]) for ee in edges]) - self.scale * np.array([ee[0] for ee in edges])
        if self.kind == "scaled":
            self.scale = np.full(dim, float(rng.choice([0.5, 0.25, 3.0, 0.1, 40.0])))
            self.shift = rng.uniform(-20, 20, dim) * self.scale


def one(chk, rec, rng):
    dim = rec["d"]
    emb = HistEmbedding(rng, dim, rec["edges"])
    with chk.case("from_hist in %d dimensions" % dim, record=rec, embedding=vars(emb)):
        edges = [emb.val(i, np.array(ee, dtype=float)) for i, ee in enumerate(rec["edges"])]
        shape = tuple(len(ee) - 1 for ee in edges)
        factor = float(rng.choice([1, 1, 2, 10, 0.5]))
        hist = np.array(rec["w"], dtype=float).reshape(shape) * factor
        if factor >= 1 and rng.random() < 0.5:
            hist = gb.whole(rng, hist.astype(int))
        kw = {}
        sz = emb.scale[0]
        if rec["kernel"] != "gaussian" or rng.random() < 0.5:
            kw["kernel"] = rec["kernel"]
        refl = kb.reflect_arg(emb, rec["stored"]["mode"], rec["stored"]["r"], range(dim), rng, dim)
        if refl is not None:
            kw["reflect"] = refl
        bins = edges
        if emb.kind == "int":
            bins = [gb.whole(rng, ee.astype(int), 1.0) for ee in edges]
        if dim == 1:
            bins = bins[0]
            if rng.random() < 0.4:
                bins = list(bins)
        elif rng.random() < 0.4:
            bins = [list(bb) for bb in bins]
        elif rng.random() < 0.4:
            bins = tuple(bins)
        harg = hist.tolist() if rng.random() < 0.3 else gb.layout(rng, hist)
        chk.sample({"bins": bins, "hist": harg, "args": kw})
        before = kb.snapshot((bins, harg))
        kde = kale.KDE.from_hist(bins, harg, **kw)
        need(chk, kb.unchanged(before, (bins, harg)), "from_hist modified its arguments")
        # data are the centres, in the histogram's index order
        want = emb.cols(rec["data"])
        close(chk, kde.dataset, want, "data of from_hist", rtol=1e-12, atol=1e-12 * (np.max(np.abs(want)) + sz))
        vol = float(np.prod([(ee[1] - ee[0]) for ee in edges]))
        total = float(rec["wsum"])
        close(chk, kde.weights, np.array(rec["w"], dtype=float) / (total * vol), "weights of from_hist", rtol=1e-12)
        widths = np.array([(ee[1] - ee[0]) for ee in edges])
        close(chk, np.asarray(kde.bandwidth), np.diag(widths), "bandwidth of from_hist", rtol=1e-9)
        # the answers are those of the weighted centres: H has the units of the widths squared times those of the data
        emb.wscale = 1.0 / (total * vol)
        sub = dict(rec)
        qq = dict(rec["qs"][0])
        # y2 = q*den/det / s^2  in units of the lattice, because the bandwidth is scaled as well
        sub["bw"] = {"kind": "vec", "v": [], "sym": ""}
        sub["weighted"] = True
        pts, qkw, shape, params, pedges = kb.query_kwargs(sub, qq, emb, rng)
        rpts, vals = kde.density(pts, **qkw)
        scaled(chk, np.atleast_1d(vals), sub, qq, emb, params, sz)
        # other bandwidths pass through, also by position
        k2 = kale.KDE.from_hist(bins, harg, "scott")
        k3 = kale.KDE.from_hist(bins, harg, bandwidth="scott")
        neff = rec["wsum"] ** 2 / rec["w2"]
        ff = kb.symfactor("scott", neff, dim)
        for kk in (k2, k3):
            close(chk, kk.bandwidth, np.full((dim, dim), ff), "from_hist(bandwidth='scott')", rtol=1e-10)
        k4 = kale.KDE.from_hist(bins, harg, bandwidth=0.7, diagonal=True, bw_rescale=2.0)
        close(chk, k4.bandwidth, np.eye(dim) * 1.4, "from_hist(bandwidth=0.7, diagonal, bw_rescale)", rtol=1e-12)


def scaled(chk, got, rec, qq, emb, params, sz):
    """Compare with the specification whose bandwidth scales with the data: f = scale."""
    orig = kb.symfactor
    kb.symfactor = lambda sym, neff, dim: sz
    try:
        kb.compare(chk, got, rec, qq, emb, params, False, "density of from_hist")
    finally:
        kb.symfactor = orig
