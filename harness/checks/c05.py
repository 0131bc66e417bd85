"""C05: bandwidth, covariance and effective sample size follow their definitions."""
import numpy as np
import kalepy as kale
import kdebind as kb
import kdecases as kc
from core import Raw, close, need


def ent(rule, v):
    return Raw('<<"%s", %d>>' % (rule, v))


def config(dim, **kw):
    covs = {1: [[], [[4]]], 2: [[], [[4, 1], [1, 2]]], 3: [[], [[4, 1, 0], [1, 3, -1], [0, -1, 2]]]}.get(dim, [[]] + kc.COVS.get(dim, []))

    def seq(v):
        return Raw("<<" + ", ".join(seq(y).text if isinstance(y, (list, tuple)) else str(y) for y in v) + ">>")
    cc = dict(Dim=dim, Coords=set(range(0, 5 if dim < 3 else 4)), NSet={3, 5, 8}, WSet={0, 1, 2, 5}, Weighted={True, False},
              Entry={ent("", 1), ent("", 2), ent("", 5), ent("scott", 0), ent("silverman", 0)},
              Shapes={"one", "vec", "mat"}, Diags={True, False}, Rescales={"none", "scalar", "vec", "mat"}, RVals={1, 2, 3, 7},
              Covs={seq(c) for c in covs}, Neffs={0, 2, 30}, Reps={1, 3, 260}, BDen=2)
    if dim > 3:
        cc.update(Coords={0, 1, 3} if dim < 6 else {0, 2}, Rescales={"none", "scalar", "vec"}, Shapes={"one", "vec"})
    cc.update(kw)
    return cc


LAWS = ["LawScale", "LawNeff", "LawOrder", "LawSymmetric", "LawRepeat", "LawZero"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = [dict(module="KdeBandwidth", constants=config(dim), invariants=LAWS, simulate=chk.n(250, 4000), depth=60, seed=dim)
            for dim in (1, 2, 3)]
    jobs += [dict(module="KdeBandwidth", constants=config(dim), invariants=LAWS, simulate=chk.n(60, 800), depth=60, seed=dim)
             for dim in (4, 5, 6)]
    # exhaustive over all argument shapes, for fixed small data
    jobs.append(dict(module="KdeBandwidth", constants=config(
        1, NSet={2}, Coords={0, 2}, WSet={1, 3}, RVals={1, 3}), invariants=LAWS))
    recs = [rec for res in chk.tlc_many(jobs) for rec in res.records]
    cap = chk.n(1500, 60000)
    if len(recs) > cap:
        recs = [recs[i] for i in rng.permutation(len(recs))[:cap]]
    for rec in recs:
        if chk.stop:
            return
        chk.replayed += 1
        one(chk, rec, rng)


def entry(rec, i, j, neff):
    rule, num = rec["bw"][i][j]
    return kb.symfactor(rule, neff, rec["d"]) * num / rec["bden"] ** 2


def one(chk, rec, rng):
    dim = rec["d"]
    emb = kb.Embedding(rng, dim, rec["weighted"], mirror=rng.random() < 0.5)
    with chk.case("bandwidth/covariance of %d-d data" % dim, record=rec, embedding=vars(emb)):
        data = emb.cols(rec["data"])
        ww = np.array(rec["w"], dtype=float) * emb.wscale
        data, ww = np.tile(data, rec["reps"]), np.tile(ww, rec["reps"])
        idx = rng.permutation(ww.size)
        data, ww = data[:, idx], ww[idx]
        kw = {}
        if rec["weighted"]:
            kw["weights"] = ww.tolist() if rng.random() < 0.5 else ww
        vals = [rule if rule else num / rec["bden"] for rule, num in rec["entries"]]
        if rec["shape"] == "one":
            kw["bandwidth"] = vals[0]
            if vals[0] == "scott" and rng.random() < 0.5:
                kw.pop("bandwidth")
            elif not isinstance(vals[0], str) and rng.random() < 0.3:
                kw["bandwidth"] = np.float64(vals[0])
        elif rec["shape"] == "vec":
            kw["bandwidth"] = vals if rng.random() < 0.5 else tuple(vals)
        else:
            kw["bandwidth"] = [vals[i * dim:(i + 1) * dim] for i in range(dim)]
        numeric = not any(isinstance(v, str) for v in vals)
        if numeric and rec["shape"] != "one" and rng.random() < 0.5:
            kw["bandwidth"] = np.array(kw["bandwidth"])
        if rec["diag"]:
            kw["diagonal"] = True
        rr = [v / rec["bden"] for v in rec["resc"]["v"]]
        if rec["resc"]["kind"] == "scalar":
            kw["bw_rescale"] = rr[0]
        elif rec["resc"]["kind"] == "vec":
            kw["bw_rescale"] = rr if rng.random() < 0.5 else np.array(rr)
        elif rec["resc"]["kind"] == "mat":
            kw["bw_rescale"] = np.array(rr).reshape(dim, dim)
        unit = np.outer(emb.scale, emb.scale)
        if rec["gcov"]:
            kw["covariance"] = np.array(rec["gcov"], dtype=float) * unit
        if rec["gneff"]:
            kw["neff"] = rec["gneff"]
        # any kernel: the matrix does not depend on it
        kw["kernel"] = str(rng.choice(["gaussian", "box", "parabola", "triweight"]))
        dset = emb.container(data[0]) if (dim == 1 and rng.random() < 0.5) else emb.container(data)
        chk.sample({"dataset": dset, "args": kw})
        kde = kale.KDE(dset, **kw)
        neff = rec["neff"][0] / rec["neff"][1]
        cov = np.array([[c[0] / c[1] for c in row] for row in rec["cov"]]) * unit
        bwm = np.array([[entry(rec, i, j, neff) for j in range(dim)] for i in range(dim)])
        close(chk, float(kde.neff), neff, "neff", rtol=1e-12)
        tol = 1e-10 * np.sqrt(np.outer(np.diag(cov), np.diag(cov))) * (1 + np.max(np.abs(emb.shift / emb.scale)) ** 2 * 1e-3)
        got = np.asarray(kde.covariance, dtype=float)
        need(chk, got.shape == (dim, dim) and np.all(np.abs(got - cov) <= tol), "covariance %r, specification says %r" % (got, cov))
        close(chk, kde.bandwidth, bwm, "bandwidth", rtol=1e-12)
        got = np.asarray(kde.kernel.matrix, dtype=float)
        bscale = np.max(np.abs(bwm)) ** 2
        need(chk, got.shape == (dim, dim) and np.all(np.abs(got - cov * bwm ** 2) <= tol * bwm ** 2 + 1e-14 * bscale * tol),
             "kernel matrix %r, specification says %r" % (got, cov * bwm ** 2))
