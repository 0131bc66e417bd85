"""C11: reflected resampling stays in bounds and follows the reflected density."""
import numpy as np
import kalepy as kale
import kdecases as kc
import sampling
from core import Raw, need

NIL = kc.NIL


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 77)
    # --- kernels that are smaller than everything else: images, data on and outside of boundaries, sizes and chunks
    refl = {kc.seq(r) for r in ([NIL, NIL], [-1, NIL], [0, NIL], [NIL, 3], [0, 3], [1, NIL], [-1, 5], [kc.AUTO, kc.AUTO], [NIL, kc.AUTO],
                                [1, 6])}
    few = {kc.seq(r) for r in ([NIL, NIL], [0, NIL], [NIL, 2], [-1, 4], [1, kc.AUTO])}
    tiny = {kc.seq(r) for r in ([NIL, NIL], [0, NIL], [NIL, 3])}
    each = {4: dict(Reflects=tiny, QueryModes={"default", "pairs"}, StoredModes={"none", "pairs"}), 3: dict(Reflects=few, QueryModes={"default", "off", "auto", "pairs"}, StoredModes={"auto", "pairs"})}
    events, cases = [], []
    recs = sampling.records(chk, 50, 400, each=each, QueryModes={"default", "pairs", "off", "auto"},
                            StoredModes={"none", "pairs", "auto"}, Reflects=refl)
    for rec in recs:
        if chk.stop:
            return
        sizes = [None, 0, 1, 2, int(rng.integers(3, 60))]
        if not any(b != NIL for bb in rec["bounds"] for b in bb):
            sizes = [3]
        sampling.replay(chk, rec, rng, events, cases, sizes, chk.n(30000, 100000))
    sampling.judge(chk, events, cases, what="samples with boundaries")
    shares(chk, rng)
    correlated(chk, rng)
    sampling.groups(chk, rng, bounded=True)


def shares(chk, rng):
    """Kernels that reach over the boundaries"""
    bnds = {kc.seq(r) for r in ([NIL, NIL], [0, NIL], [-2, NIL], [NIL, 3], [NIL, 5], [0, 4], [-1, 6], [1, NIL])}
    base = dict(Coords={0, 1, 2, 4}, NSet={1, 2, 3}, WSet={0, 1, 2, 5}, Bounds=bnds, Cuts=kc.seq([-1, 0, 1, 2, 3, 5]))
    laws = ["LawSum", "LawConserved", "LawWide"]
    num = chk.n(30, 250)
    jobs = [dict(module="KdeShare", constants=dict(base, Dim=1, Full=1, Hs={1, 2, 4}, Kernels={"gaussian"}), seed=1),
            dict(module="KdeShare", constants=dict(base, Dim=1, Full=1, Hs={1, 2, 3, 5}, Kernels={"box", "parabola", "triweight"}), seed=2),
            dict(module="KdeShare", constants=dict(base, Dim=1, Full=3, Hs={1, 2, 3}, Kernels={"box", "parabola", "triweight"}), seed=3),
            dict(module="KdeShare", constants=dict(base, Dim=2, Full=2, Hs={1, 2, 4}, Kernels={"gaussian"},
                                                   Cuts=kc.seq([0, 1, 3])), seed=4)]
    jobs = [dict(jj, invariants=laws, simulate=num, depth=30) for jj in jobs]
    events, cases = [], []
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            if not rec["p"] or rec["r"] > 60:
                continue
            share(chk, rec, rng, events, cases)
    sampling.judge(chk, events, cases, module="CountsTrace", what="samples with boundaries: share of the reflected density")


def share(chk, rec, rng, events, cases):
    dim, full = rec["d"], rec["full"]
    scale = rng.choice([1.0, 0.1, 40.0]) * rng.uniform(0.5, 2, full)
    shift = rng.choice([0.0, 1.0, 1.0]) * rng.uniform(-10, 10, full) * scale
    with chk.case("share of samples, %d-d %s" % (full, rec["kern"]), record=rec, scale=scale, shift=shift):
        data = np.zeros((full, len(rec["w"])))
        data[:dim] = np.array(rec["data"], dtype=float).T
        hh = np.ones(full)
        hh[:dim] = rec["h"]
        data = shift[:, None] + scale[:, None] * data
        perm = rng.permutation(full)      # the bounded dimension may be any
        inv = np.argsort(perm)
        refl = [[None if b == NIL else shift[a] + scale[a] * b for a_, b in enumerate(bb)] for a, bb in enumerate(rec["bnd"])]
        refl = refl + [None] * (full - dim)
        refl = [None if (r is None or (r[0] is None and r[1] is None and rng.random() < 0.5)) else r for r in refl]
        kw = dict(kernel=rec["kern"], covariance=np.diag((scale[perm])**2), bandwidth=list(hh[perm]))
        if not (all(w == rec["w"][0] for w in rec["w"]) and rng.random() < 0.7):
            kw["weights"] = np.array(rec["w"]) * float(rng.choice([1.0, 0.01, 30.0]))
        rr = [refl[p] for p in perm]
        num = chk.n(40000, 100000)
        chunk = rng.choice([0, 0, 3000, 17000])
        if chunk:
            kw["chunk"] = int(chunk)
        ask = {}
        if all(r is None for r in rr):
            rr = None
        if rng.random() < 0.5:
            kw["reflect"] = rr
        else:
            ask["reflect"] = rr
        kde = kale.KDE(data[perm], **kw)
        out = np.asarray(kde.resample(num, squeeze=False, **ask))
        need(chk, out.shape == (full, num), "shape %s" % (out.shape,))
        out = out[inv]
        cell = np.zeros(num, dtype=int)
        for a in range(dim):
            ee = [shift[a] + scale[a] * e for e in rec["edges"][a][1:-1]]
            nn = len(rec["edges"][a]) - 1
            cell = cell * nn + np.digitize(out[a], ee)
            lo, hi = rec["bnd"][a]
            need(chk, lo == NIL or np.all(out[a] >= shift[a] + scale[a] * lo), "samples below the boundary")
            need(chk, hi == NIL or np.all(out[a] <= shift[a] + scale[a] * hi), "samples above the boundary")
        events.append(dict(n=num, p=rec["p"], r=rec["r"], c=np.bincount(cell, minlength=len(rec["p"])).tolist()))
        cases.append({"record": rec, "args": kw, "data": data[perm], "resample": ask})
        chk.sample({"args": kw, "resample": ask})
        # dimensions without boundaries are not affected (and symmetric about the data, which are at zero in lattice units)
        for a in range(dim, full):
            events.append(dict(n=num, p=[5000, 5000], r=1, c=np.bincount((out[a] > shift[a]).astype(int), minlength=2).tolist()))
            cases.append({"record": rec, "args": kw, "other dimension": a})


def correlated(chk, rng):
    """A datum on the boundary: half of the kernel, doubled.  With a correlation of 1/2, the other offset is on the same side
    with a probability of 1/2 + asin(1/2)/pi = 2/3."""
    events, cases = [], []
    for kern in ("gaussian", "box", "parabola", "triweight"):
        for side in (0, 1):
            for dim in (0, 1):
                with chk.case("correlation next to a boundary", kernel=kern, side=side, dim=dim):
                    cov = np.array([[4.0, 3.0], [3.0, 9.0]])
                    kde = kale.KDE([[1.0, 1.0], [-2.0, -2.0]], covariance=cov, bandwidth=0.5, kernel=kern)
                    refl = [None, None]
                    refl[dim] = [None, None]
                    refl[dim][side] = [1.0, -2.0][dim]
                    out = kde.resample(60000, reflect=refl) - np.array([[1.0], [-2.0]])
                    sgn = 1 if side == 0 else -1
                    need(chk, np.all(sgn * out[dim] >= 0), "samples beyond the boundary")
                    hit = (sgn * out[1 - dim] > 0).astype(int)
                    events.append(dict(n=60000, p=[3333, 6667], r=1, c=np.bincount(hit, minlength=2).tolist()))
                    cases.append({"kernel": kern, "reflect": refl})
    sampling.judge(chk, events, cases, module="CountsTrace", what="correlation next to a boundary")
