"""C27: colouring, whitening and covariance editing are exact linear maps."""
import numpy as np
from kalepy import utils
import kdebind as kb
from core import Raw, close, need

LAWS = ["LawCov", "LawPositive", "LawKeep"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = [dict(module="CovMaps", constants=dict(Dim=dim, Diags={1, 2, 3}, Offs={-2, -1, 0, 1, 3}, Coords={-2, -1, 0, 1, 3},
                                                  Sizes={2, 5, 9}, Forms=Raw("{}")), invariants=LAWS, simulate=chk.n(300, 6000) // (2 if dim == 4 else 1),
                 depth=30, seed=dim) for dim in (1, 2, 3, 4)]
    # many dimensions, and many data
    forms = {Raw("<<%d, %d, %d>>" % tuple(rng.integers(1, 30, 3))) for _ in range(5)}
    for dim, sizes, num in ((2, {600}, 12), (4, {350}, 6), (5, {8, 30}, 24), (6, {9, 30}, 16)):
        jobs.append(dict(module="CovMaps", constants=dict(Dim=dim, Diags={1, 2, 3}, Offs={-2, 0, 1} if dim < 6 else {-1, 1}, Coords={0},
                                                          Sizes=sizes, Forms=forms),
                         invariants=LAWS, simulate=chk.n(num, 20 * num), depth=30, seed=10 + dim))
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)


def one(chk, rec, rng):
    dim, num = rec["d"], rec["n"]
    plain = rng.random() < 0.25
    scale = np.ones(dim) if plain else 10.0 ** rng.uniform(-3, 3, dim)
    cov = np.array(rec["cov"]) * (1 if plain else np.outer(scale, scale))
    data = np.array(rec["data"]).T * (1 if plain else 1.0)
    tol = dict(rtol=1e-7, atol=1e-8)
    unit = np.outer(scale, scale)
    with chk.case("covariance %s" % (rec["cov"],), record=rec):
        arg = cov.tolist() if rng.random() < 0.3 else cov.copy()
        dat = data.tolist() if rng.random() < 0.3 else data.copy()
        before = kb.snapshot({"cov": arg, "data": dat})
        # what the map does to the unit vectors is what it is
        mat = np.asarray(utils.add_cov(np.eye(dim), arg))
        close(chk, np.dot(mat, mat.T) / unit, np.array(rec["cov"]), "covariance of coloured unit vectors", **tol)
        out = np.asarray(utils.add_cov(dat, arg))
        need(chk, out.shape == (dim, num), "coloured data have shape %r" % (out.shape,))
        close(chk, out / scale[:, None], np.dot(mat, data) / scale[:, None], "coloured data are not linear in the data", **tol)
        back = np.asarray(utils.rem_cov(out, arg))
        close(chk, back, data, "removing the covariance does not undo adding it", rtol=1e-6, atol=1e-6)
        need(chk, kb.unchanged(before, {"cov": arg, "data": dat}), "arguments are modified")
        if num > dim and rec["rank"]:
            cc = np.array(rec["covnum"]) / (num * (num - 1.0))
            # (dimensions of four are not checked for rank by the specification)
            if np.linalg.cond(cc) < 1e7:
                close(chk, np.atleast_2d(np.cov(out)) / unit, np.dot(np.dot(mat, cc), mat.T) / unit, "covariance of coloured data", **tol)
                if dim > 1:
                    # the data mapped by the factor of the specification have the covariance it says
                    mapped = np.array(rec["mapped"]).T * scale[:, None]
                    close(chk, np.cov(mapped) / unit, np.array(rec["mapcov"]) / (num * (num - 1.0)), "covariance of mapped data", **tol)
                    for white in (utils.rem_cov(mapped), utils.rem_cov(mapped, np.cov(mapped))):
                        close(chk, np.cov(white), np.eye(dim), "covariance of whitened data", rtol=1e-5, atol=1e-5)
        keep = [kk - 1 for kk in rec["keep"]]
        form = rng.integers(0, 4)
        if len(keep) == dim and form == 0:
            ask = True
        elif len(keep) == 1 and form < 2:
            ask = keep[0]
        elif not keep and form < 2:
            ask = [None, False][form]
        else:
            ask = [list, tuple, np.array][rng.integers(0, 3)](rng.permutation(keep).astype(int).tolist()) if keep else []
        if isinstance(ask, list) and not ask:
            ask = None
        before = kb.snapshot({"cov": arg, "ask": ask})
        got = utils.cov_keep_vars(arg, ask)
        close(chk, np.asarray(got) / unit, np.array(rec["kept"]), "cov_keep_vars(keep=%r)" % (ask,), rtol=1e-12)
        need(chk, kb.unchanged(before, {"cov": arg, "ask": ask}), "cov_keep_vars modifies its arguments")
        chk.sample({"covariance": arg, "data": dat, "keep": ask})
