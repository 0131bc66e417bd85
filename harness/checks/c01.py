"""C01: density is the exact normalised weighted sum of kernels."""
import numpy as np
import kalepy as kale
from kalepy import kernels
import kdebind as kb
import kdecases as kc
from core import close, need


def jobs(chk):
    num = chk.n(120, 1200)
    out = []
    for dim in (1, 2, 3, 4, 5, 6):
        out.append(dict(module="Kde", constants=kc.config(dim), simulate=num if dim < 4 else num // (dim - 1), depth=40, seed=dim))
    # the laws of the specification, on fewer behaviours; and exhaustively for the smallest data
    for dim in (1, 2):
        out.append(dict(module="Kde", constants=kc.config(dim, NPoint=1), invariants=kc.LAWS, simulate=chk.n(15, 200),
                        depth=40, seed=10 + dim))
    out.append(dict(module="Kde", constants=kc.config(
        1, NPoint=1, NSet={2}, Coords={0, 1, 3}, PCoords={-1, 0, 2}, WSet={0, 1, 2}, Bws={kc.bw("scalar", [2])},
        Covs={kc.seq([])}, Weighted={True}), invariants=kc.LAWS))
    return out


def run(chk):
    rng = np.random.default_rng(chk.seed)
    results = chk.tlc_many(jobs(chk))
    for res in results:
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)
    many(chk, [r for res in results[:3] for r in res.records], rng)


def one(chk, rec, rng):
    for rep in range(2):
        emb = kb.Embedding(rng, rec["d"], rec["weighted"], plain=(rep == 0), mirror=(rep == 1))
        with chk.case("density of %d-d data" % rec["d"], record=rec, embedding=vars(emb)):
            dset, kw = kb.construct_args(rec, emb, rng, permute=(rep == 1))
            kde = kale.KDE(dset, **kw)
            for qq in rec["qs"]:
                kb.ask(chk, kde, rec, qq, emb, rng, "KDE.density/pdf")
            chk.sample({"args": [dset, kw], "query": rec["qs"][0]["at"]})


def many(chk, recs, rng):
    """Long data and long lists of points: each datum split or repeated, in random order, with explicit covariance."""
    recs = [r for r in recs if r["cov"] and r["bw"]["sym"] == ""]
    for rec in [recs[i] for i in rng.permutation(len(recs))[:chk.n(30, 200)]]:
        if chk.stop:
            return
        emb = kb.Embedding(rng, rec["d"], True)
        nrep = int(rng.choice([7, 40, 333, 1201]))
        ntile = 50 if nrep > 40 else int(rng.choice([211, 1007, 2503]))
        qq = rec["qs"][0]
        with chk.case("density of split data", record=rec, repeat=nrep, embedding=vars(emb)):
            base = emb.cols(rec["data"])
            ww = np.array(rec["w"], dtype=float) * emb.wscale
            parts = rng.dirichlet(np.ones(nrep), size=ww.size)     # shares of the weight of each datum
            data = np.repeat(base, nrep, axis=1)
            wts = (ww[:, None] * parts).ravel()
            idx = rng.permutation(wts.size)
            data, wts = data[:, idx], wts[idx]
            kw = kb.bw_arg(rec, rng)
            cov = np.array(rec["cov"], dtype=float) * np.outer(emb.scale, emb.scale)
            kde = kale.KDE(data, weights=wts, covariance=cov, kernel=rec["kernel"], **kw)
            pts = emb.cols(qq["at"])
            size = pts.shape[1] * ntile + int(rng.integers(0, pts.shape[1]))
            many = pts[:, np.arange(size) % pts.shape[1]]
            every = np.asarray(kde.density(many)[1])
            need(chk, every.shape == (size,), "density of %d points has shape %r" % (size, every.shape))
            got = every[:pts.shape[1] * ntile].reshape(ntile, -1)
            close(chk, every, np.resize(got[0], size), "density of many points", rtol=1e-9, atol=1e-9 * np.max(got[0]))
            chk.replayed += 1
            for row in (got[0], got[17], got[49], got[-1]):
                kb.compare(chk, row, rec, qq, emb, list(range(rec["d"])), False, "split data")
            # the kernel object itself gives the same sum
            ker = kernels.Kernel(kernels.get_distribution_class(rec["kernel"]), kde.bandwidth, cov)
            row = ker.density(pts, data, weights=wts)
            kb.compare(chk, row, rec, qq, emb, list(range(rec["d"])), False, "Kernel.density")
            # repeated equally, without weights
            if not rec["weighted"]:
                kde = kale.KDE(np.repeat(base, nrep, axis=1)[:, idx], covariance=cov, kernel=rec["kernel"], **kw)
                emb1 = emb
                emb1.wscale = 1.0
                kb.compare(chk, kde.density(pts)[1], rec, qq, emb1, list(range(rec["d"])), False, "repeated data",
                           factor=nrep)
                kb.compare(chk, kde.pdf(pts)[1], rec, qq, emb1, list(range(rec["d"])), True, "repeated data (pdf)")
