"""C07: the CDF is the normalised cumulative integral of the density."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc
from core import close, need


def config(dim, **kw):
    cc = kc.config(dim, Kernels={"gaussian", "parabola", "triweight"}, StoredModes={"none", "pairs"}, NPoint=4,
                   Reflects={kc.seq(r) for r in ([kc.NIL, kc.NIL], [-1, kc.NIL], [kc.NIL, 5], [-2, 6])})
    cc.update(Gaps={1, 2, 3} if dim == 1 else {1, 2}, First={-1, 0} if dim < 3 else {0},
              NEdge={3, 5} if dim == 1 else ({2, 3} if dim == 2 else {2}), Fine=2)
    cc["PCoords"] = set(range(-6, 22)) if dim == 1 else ({-4, -1, 0, 1, 3, 4, 7, 10} if dim == 2 else {-1, 0, 1, 2, 5})
    if dim == 3:
        cc["NSet"] = {4}
    cc.update(kw)
    return cc


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = [dict(module="KdeCdf", constants=config(dim), invariants=["LawCoefs", "LawHat"], init="CInit", nxt="CNext",
                 simulate=num, depth=60, seed=dim)
            for dim, num in ((1, chk.n(150, 1500)), (2, chk.n(120, 1200)), (3, chk.n(25, 200)))]
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)
    trace(chk, rng)


def bagval(rec, bag, emb):
    neff = rec["wsum"] ** 2 / rec["w2"]
    ff = kb.symfactor(rec["bw"]["sym"], neff, rec["d"])
    if not bag:
        return 0.0
    ww = np.array([b[0] for b in bag], dtype=float)
    y2 = np.array([b[1] for b in bag], dtype=float) * rec["den"] / rec["det"] / ff ** 2
    return float(np.sum(ww * kb.profile(rec["kernel"], y2)))


def one(chk, rec, rng):
    dim = rec["d"]
    emb = kb.Embedding(rng, dim, rec["weighted"], plain=rng.random() < 0.3)
    raw = np.array([bagval(rec, bag, emb) for bag in rec["cdf"]])
    if not raw[-1] > 1e-6:
        return      # (almost) no density on the grid
    cdf = {tuple(nd): vv / raw[-1] for nd, vv in zip(rec["nodes"], raw)}
    with chk.case("cdf in %d dimensions" % dim, record=rec, embedding=vars(emb)):
        dset, kw = kb.construct_args(rec, emb, rng)
        edges = [emb.val(i, np.array(ee, dtype=float)) for i, ee in enumerate(rec["edges"])]
        if dim == 1 and np.ndim(dset) == 1:
            kw["points"] = edges[0] if rng.random() < 0.5 else [edges[0]]
        else:
            kw["points"] = edges if rng.random() < 0.5 else [ee.tolist() for ee in edges]
        kde = kale.KDE(dset, **kw)
        chk.sample({"args": [dset, kw]})
        # at the nodes
        nodes = np.array([[edges[i][nd[i] - 1] for i in range(dim)] for nd in rec["nodes"]]).T
        want = np.array([cdf[tuple(nd)] for nd in rec["nodes"]])
        at = nodes[0] if (dim == 1 and rng.random() < 0.5) else nodes
        got = np.ravel(kde.cdf(at))
        close(chk, got, want, "cdf at the nodes of the grid", rtol=1e-7, atol=1e-9)
        # between nodes, and outside
        pts = np.array([emb.val(i, np.array([qq["at"][i] for qq in rec["gq"]]) / rec["fine"]) for i in range(dim)])
        want = np.array([sum(cdf[tuple(nd)] * nn / dd for nd, nn, dd in qq["w"]) for qq in rec["gq"]])
        if dim == 1 and rng.random() < 0.5:
            pts = emb.container(pts[0])
        else:
            pts = emb.container(pts)
        got = np.ravel(kde.cdf(pts))
        close(chk, got, want, "cdf between and outside of the nodes", rtol=1e-7, atol=1e-8)
        need(chk, np.all((got >= 0.0) & (got <= 1.0)), "cdf outside of [0, 1]: %r" % (got,))


def trace(chk, rng):
    """On the default grids: nodes against the density's own trapezoid sums, and the order of cdf values (judged by TLC)."""
    events, info = [], []
    for kk in range(chk.n(24, 160)):
        if chk.stop:
            return
        dim = int(rng.choice([1, 1, 2, 2, 3]))
        num = int(rng.integers(5, 40)) if dim < 3 else 6
        data = rng.normal(0, 1, (dim, num)) * 10.0 ** rng.uniform(-3, 3, (dim, 1)) + rng.uniform(-5, 5, (dim, 1))
        wts = rng.choice([0.0, 0.5, 1.0, 7.0], num) + 0.01 if rng.random() < 0.5 else None
        kern = str(rng.choice(["gaussian", "box", "parabola", "triweight"]))
        kw = dict(kernel=kern, weights=wts)
        if dim == 3:
            kw["points"] = [6, 5, 4]
        if rng.random() < 0.4:
            kw["reflect"] = [[np.min(dd) - np.ptp(dd) * 0.1, None] for dd in data]
        with chk.case("cdf on the default grid", dataset=data, args=kw):
            kde = kale.KDE(data[0] if dim == 1 else data, **kw)
            grid = kde.points
            grid = [np.asarray(grid)] if dim == 1 else [np.asarray(gg) for gg in grid]
            pdf = np.asarray(kde.pdf(np.array([gg.ravel() for gg in np.meshgrid(*grid, indexing="ij")]))[1])
            pdf = pdf.reshape([gg.size for gg in grid])
            if not np.max(pdf) > 0.0:  # a coarse grid of which no node lies in a kernel: no mass to normalize by
                continue
            cum = pdf
            for ax, gg in enumerate(grid):
                cum = np.moveaxis(cum, ax, -1)
                mass = 0.5 * (cum[..., 1:] + cum[..., :-1]) * np.diff(gg)
                cum = np.concatenate([np.zeros(mass.shape[:-1] + (1,)), np.cumsum(mass, axis=-1)], axis=-1)
                cum = np.moveaxis(cum, -1, ax)
            want = cum / cum[tuple([-1] * dim)]
            nodes = np.array([gg.ravel() for gg in np.meshgrid(*grid, indexing="ij")])
            got = np.ravel(kde.cdf(nodes))
            close(chk, got, want.ravel(), "cdf at the nodes of the default grid", rtol=1e-8, atol=1e-10)
            chk.replayed += 1
            # random pairs of ordered points: one event each, as ranks
            lo = np.array([gg[0] - 0.2 * np.ptp(gg) + 1.4 * np.ptp(gg) * rng.random(12) for gg in grid])
            hi = lo + np.array([[np.ptp(gg)] for gg in grid]) * rng.choice([0.0, 0.1, 0.7], (dim, 12))
            clo, chi = np.ravel(kde.cdf(lo)), np.ravel(kde.cdf(hi))
            below = np.any(lo <= np.array([[gg[0]] for gg in grid]), axis=0)
            above = np.all(lo >= np.array([[gg[-1]] for gg in grid]), axis=0)
            for cl, ch, bb, aa, pl, ph in zip(clo, chi, below, above, lo.T, hi.T):
                vals = [float(cl), float(ch)]
                scaled = [int(round(v * 10 ** 9)) if np.isfinite(v) and abs(v) < 2 else -2 for v in vals]
                events.append({"lo": scaled[0], "hi": scaled[1], "below": bool(bb), "above": bool(aa)})
                info.append((pl.tolist(), ph.tolist(), vals, data.tolist(), repr(kw)))
    if events:
        for idx, clause in chk.judge("KdeCdfTrace", events):
            chk.violate("cdf of two ordered points: %s: %r" % (clause, info[idx - 1][:3]), event=events[idx - 1], info=info[idx - 1])
