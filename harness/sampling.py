"""Recorded samples as events of specification SampleTrace.tla: counts only, so that TLC judges the law of the samples."""
import itertools
import numpy as np
import kdebind as kb
import kdecases as kc
from core import Raw, need

RADII = {"gaussian": (0.5, 1.0, 2.0)}
FINITE_RADII = (0.4, 0.6, 0.8)


def radii(kern):
    return RADII.get(kern, FINITE_RADII)


def whiten(off, mat):
    """Coordinates in which the kernel of matrix `mat` is isotropic."""
    lo = np.linalg.cholesky(np.atleast_2d(mat))
    return np.linalg.solve(lo, off)


def event(kern, ndim, yy, cls=None, wts=(1,), support=True, stray=0):
    """`yy` (e, n): whitened offsets; `cls` (n,): index of the datum's location, of weights `wts`."""
    nd, num = yy.shape
    if cls is None:
        cls = np.zeros(num, dtype=int)
    rr = np.sqrt(np.sum(yy**2, axis=0))
    shell = np.digitize(rr, radii(kern))
    bits = np.zeros(num, dtype=int)
    for row in yy:
        bits = 2 * bits + (row > 0)
    # (so many chambers that few samples are in each are left out)
    perms = {pp: ii for ii, pp in enumerate(itertools.permutations(range(nd)))} if nd < 5 else {}
    code = np.zeros(num, dtype=int)
    order = np.argsort(np.abs(yy), axis=0)
    key = np.zeros(num, dtype=int)
    for row in order:
        key = key * 10 + row
    for pp, ii in perms.items():
        code[key == int("0" + "".join(map(str, pp)))] = ii
    angle = []
    for aa, bb in itertools.combinations(range(nd), 2):
        turn = np.arctan2(np.abs(yy[aa]), np.abs(yy[bb])) * 4 / np.pi
        turn = np.minimum(turn, 2 - turn)
        angle.append(np.bincount(np.clip((turn * 5).astype(int), 0, 4), minlength=5).tolist())
    half = num // 2
    y1, y2 = yy[:, :2 * half:2], yy[:, 1:2 * half:2]
    finite = kern not in RADII
    y0 = yy[0] if nd else np.zeros(num)
    return dict(
        kern=kern, d=int(ndim), e=int(nd), n=int(num), w=[int(w) for w in wts],
        stray=int(stray), angle=angle, cls=np.bincount(cls, minlength=len(wts)).tolist(),
        shell=np.bincount(shell, minlength=4).tolist(),
        cham=np.bincount(bits * len(perms) + code, minlength=2**nd * len(perms)).tolist() if perms else [],
        joint=[np.bincount(bits[shell == ii], minlength=2**nd).tolist() for ii in range(4)],
        csign=[[int(np.count_nonzero((cls == cc) & (y0 <= 0))), int(np.count_nonzero((cls == cc) & (y0 > 0)))]
               for cc in range(len(wts))],
        out=int(np.count_nonzero(rr > 1 + 1e-7)) if (finite and support) else 0,
        m=half, pairs=[int(np.count_nonzero((a > 0) == (b > 0))) for a, b in zip(y1, y2)],
        same=int(np.count_nonzero(cls[:2 * half:2] == cls[1:2 * half:2])))


def judge(chk, events, cases, module="SampleTrace", what="samples"):
    for kk, clause in chk.judge(module, events):
        chk.violate("%s: %s" % (what, clause), event=events[kk - 1], case=cases[kk - 1])
        if chk.stop:
            return


# ---------------------------------------------------------------------- behaviours of KdeResample.tla

def config(dim, **kw):
    """Kernels that are much smaller than the spacing of the lattice, so that the datum of each sample is known."""
    covs = {1: [[[4]], [[1]]], 2: [[[4, 1], [1, 2]], [[3, -2], [-2, 3]], [[1, 0], [0, 4]]],
            3: [[[4, 1, 0], [1, 3, -1], [0, -1, 2]], [[1, 0, 0], [0, 2, 0], [0, 0, 4]]],
            4: [[[3, 1, 0, -1], [1, 2, 1, 0], [0, 1, 3, 0], [-1, 0, 0, 2]], [[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 4, 0], [0, 0, 0, 1]]],
            5: kc.COVS[5] + [[[1 + (i % 3) if i == j else 0 for j in range(5)] for i in range(5)]], 6: kc.COVS[6]}[dim]
    bws = {kc.bw("scalar", [1]), kc.bw("diag", [1])}
    if dim == 2:
        bws |= {kc.bw("vec", [1, 2]), kc.bw("mat", [[2, 1], [1, 1]])}
    if dim == 3:
        bws |= {kc.bw("vec", [1, 2, 1])}
    if dim >= 4:
        bws |= {kc.bw("vec", [1, 2, 1, 2, 2, 1][:dim])}
    cc = kc.config(dim, NQuery=0, NPoint=0, Covs={kc.seq(c) for c in covs}, Bws=bws, BDen=64,
                   NSet={1, 2, 4, 7} if dim == 1 else {1, 3, 5}, WSet={0, 1, 2, 5}, Keeps={Raw("{}")})
    if dim > 4:
        cc.update(NSet={1, 3})
    cc.update(kw)
    if dim > 4:
        # few boundaries: all of their combinations are alternatives
        cc.update(QueryModes=set(cc["QueryModes"]) - {"auto"} or {"default"}, StoredModes=set(cc["StoredModes"]) - {"auto"} or {"none"})
        cc["Reflects"] = {kc.seq(r) for r in ([kc.NIL, kc.NIL], [-1, kc.NIL])}
    return cc


LAWS = ["LawMassR", "LawInside", "LawPlain", "LawKept"]


def records(chk, quick, thorough, seed=0, dims=(1, 2, 3, 4, 5, 6), each=None, **kw):
    jobs = [dict(module="KdeResample", constants=config(dim, **dict(kw, **((each or {}).get(dim, {})))), init="InitR", nxt="NextR",
                 invariants=LAWS, simulate=max(chk.n(quick, thorough) // (4 if dim > 4 else 1), 3), depth=80, seed=seed + dim) for dim in dims]
    return [rec for res in chk.tlc_many(jobs) for rec in res.records]


def nearest(out, centers, hh, smooth, kept):
    """Index of the location of each sample (exact in the kept parameters, else nearest in units of the kernel), its whitened
    offset from it in the smoothed parameters, and the number of samples whose kept parameters match no location."""
    num = out.shape[1]
    lo = np.linalg.cholesky(hh[np.ix_(smooth, smooth)]) if len(smooth) else np.zeros((0, 0))
    best = np.full(num, np.inf)
    cls = np.zeros(num, dtype=int)
    yy = np.zeros((len(smooth), num))
    for kk in range(centers.shape[1]):
        match = np.all(out[kept] == centers[kept, kk:kk+1], axis=0)
        zz = np.linalg.solve(lo, out[smooth] - centers[smooth, kk:kk+1]) if len(smooth) else np.zeros((0, num))
        r2 = np.where(match, np.sum(zz**2, axis=0), np.inf)
        sel = r2 < best
        best = np.where(sel, r2, best)
        cls = np.where(sel, kk, cls)
        yy = np.where(sel, zz, yy)
    return cls, yy, int(np.count_nonzero(~np.isfinite(best)))


def replay(chk, rec, rng, events, cases, sizes, num, chunk_set=(0, 0, 1, 13, 1000, 5000)):
    """Resample the estimate of a behaviour of KdeResample.tla, and append the event to be judged by SampleTrace.tla."""
    import kalepy as kale
    dim = rec["d"]
    emb = kb.Embedding(rng, dim, rec["weighted"], plain=rng.random() < 0.3)
    if np.any(np.abs(emb.shift) > 1e4 * np.abs(emb.scale)):
        emb.shift = emb.shift * 0.0
    with chk.case("resampling %d-d data" % dim, record=rec, embedding=vars(emb)):
        dset, kw = kb.construct_args(rec, emb, rng)
        chunk = rng.choice(chunk_set)
        if chunk:
            kw["chunk"] = int(chunk) if rng.random() < 0.5 else float(chunk)
        ask = {}
        kept = [kk - 1 for kk in rec["keep"]]
        smooth = [ii for ii in range(dim) if ii not in kept]
        if kept:
            form = rng.integers(0, 4)
            if len(kept) == dim and form < 2:
                ask["keep"] = True
            elif len(kept) == 1 and form < 2:
                ask["keep"] = kept[0] if form == 0 else np.int64(kept[0])
            else:
                kk = list(rng.permutation(kept))
                ask["keep"] = [int(k) for k in kk] if form == 2 else (np.array(kk) if form == 3 else tuple(int(k) for k in kk))
        elif rng.random() < 0.4:
            ask["keep"] = [None, False, []][rng.integers(0, 3)]
        refl = kb.reflect_arg(emb, rec["mode"], rec["r"], range(dim), rng, dim)
        if rec["mode"] == "off" or refl is not None:
            ask["reflect"] = refl
        chk.sample({"args": [dset, kw], "resample": ask})
        kde = kale.KDE(dset, **kw)
        kde2 = kde
        if "chunk" in kw and sizes:
            kw2 = {k: v for k, v in kw.items() if k != "chunk"}
            kde2 = kale.KDE(dset, **kw2)
        locs = np.array([ll["at"] for ll in rec["law"]])
        wts = [ll["w"] for ll in rec["law"]]
        if np.gcd.reduce(wts) > 1:
            wts = [int(w // np.gcd.reduce(wts)) for w in wts]
        centers = emb.cols(locs)
        hh = np.array(rec["mat"], dtype=float) / rec["den"] * np.outer(emb.scale, emb.scale)
        bounds = [[emb.bound(a, rr[0]), emb.bound(a, rr[1])] for a, rr in enumerate(rec["bounds"])]
        for ss, size in enumerate(list(sizes) + [num]):
            args = dict(ask)
            if size is not None or rng.random() < 0.5:
                args["size"] = size
            if rng.random() < 0.6:
                args["squeeze"] = bool(rng.random() < 0.5)
            before = kb.snapshot(args)
            src = kde if (size != num or chunk > 500) else kde2
            out = np.asarray(src.resample(**args))
            need(chk, kb.unchanged(before, args), "resample modified its arguments: %r -> %r" % (before, args))
            want = len(rec["data"]) if size is None else int(size)
            shape = (want,) if (dim == 1 and args.get("squeeze", True)) else (dim, want)
            need(chk, out.shape == shape, "resample(%s) has shape %s, expected %s" % (args, out.shape, shape))
            out = out.reshape(dim, want).astype(float)
            need(chk, np.all(np.isfinite(out)), "samples are not finite")
            if want == 0:
                continue
            auto = rec["mode"] == "auto" or "auto" == rec["stored"]["mode"] or kb.AUTO in np.ravel(rec["r"] or [0]) or (
                kb.AUTO in np.ravel(rec["stored"]["r"] or [0]))
            for aa, (lo, hi) in enumerate(bounds):
                # data extremes are padded by 1e-8 of their value
                pad = 2e-8 if auto else 0.0
                lo, hi = (lo, hi) if (lo is None or hi is None or lo < hi) else (hi, lo)
                need(chk, lo is None or np.all(out[aa] >= lo - pad * abs(lo)), "samples below the boundary %r of dimension %d: %r" % (
                    lo, aa, np.min(out[aa])))
                need(chk, hi is None or np.all(out[aa] <= hi + pad * abs(hi)), "samples above the boundary %r of dimension %d: %r" % (
                    hi, aa, np.max(out[aa])))
            cls, yy, stray = nearest(out, centers, hh, smooth, kept)
            need(chk, stray == 0, "%d of %d samples have kept parameters that are not those of one datum" % (stray, want))
            rad = np.sqrt(np.sum(yy**2, axis=0))
            lim = 1 + 1e-6 if rec["kernel"] != "gaussian" else 8.5
            need(chk, np.all(rad <= lim), "samples outside of the kernels of all data (radius %g)" % np.max(rad))
        # what boundaries fold is unfolded at random
        diag = np.all(hh == np.diag(np.diag(hh)))
        for ii, ll in enumerate(rec["law"]):
            sel = (cls == ii)
            if not ll["on"] or not len(smooth):
                continue
            if diag:
                for aa in ll["on"]:
                    yy[smooth.index(aa - 1)] *= np.where(sel & (rng.random(sel.size) < 0.5), -1.0, 1.0)
            else:
                yy = yy * np.where(sel & (rng.random(sel.size) < 0.5), -1.0, 1.0)
        events.append(event(rec["kernel"], dim, yy, cls, wts))
        cases.append({"args": [dset, kw], "resample": ask, "record": rec})


def groups(chk, rng, bounded=False):
    """Groups of very different numbers of data, whose total weights are comparable: each group by its share."""
    import kalepy as kale
    events, cases = [], []
    for case in range(chk.n(18, 160)):
        if chk.stop:
            return
        dim = int(rng.integers(1, 4))
        shares = np.array([[5000, 2000, 1500, 1000, 500], [4000, 3000, 2000, 900, 100], [6000, 4000]][rng.integers(0, 3)])
        shares = shares[rng.permutation(shares.size)]
        nums = np.array([1, 7, 300, 1500, 40])[rng.permutation(5)][:shares.size]
        num = chk.n(60000, 400000)
        if case % 4 == 0:
            # (many data, that each hardly matter)
            shares, nums = np.array([[9940, 60], [9985, 15], [9000, 985, 15]][rng.integers(0, 3)]), np.array([1, 4, 1500])
            nums = nums[3 - shares.size:]
            num, dim = 300000, 1
        member = np.repeat(np.arange(shares.size), nums)
        wts = np.concatenate([rng.dirichlet(np.full(nn, 5.0)) * ss for nn, ss in zip(nums, shares)]) * 10.0 ** rng.uniform(-6, 6)
        data = rng.uniform(-1, 1, (dim, member.size))
        data[0] += 100.0 * member
        # in any order, or the heaviest first or last
        order = [rng.permutation(member.size), np.argsort(wts), np.argsort(-wts)][case % 3]
        kw = {}
        if bounded:
            # boundaries which every datum and its mirror images are near to or far from: each image is of its datum's group
            pair = [[-1.0, None], [None, data[0].max()], [-400.0, None], [-1.0, data[0].max()], [-400.0, 900.0]][rng.integers(0, 5)]
            kw["reflect"] = [pair] + [None] * (dim - 1)
        kern = str(rng.choice(["gaussian", "box", "parabola", "triweight"]))
        with chk.case("resampling groups of %s data" % nums.tolist(), shares=shares):
            kde = kale.KDE(data[:, order], weights=wts[order], covariance=np.eye(dim), bandwidth=0.5, kernel=kern)
            out = kde.resample(num, squeeze=False, **kw)
            for bnd, sgn in zip(kw["reflect"][0], (1, -1)) if bounded else ():
                need(chk, bnd is None or np.all(sgn * (out[0] - bnd) >= 0), "samples beyond the boundary %r" % (bnd,))
            cls = np.clip(np.round(out[0] / 100.0), 0, shares.size - 1).astype(int)
            events.append({"c": np.bincount(cls, minlength=shares.size).tolist(), "p": shares.tolist(), "r": 1, "n": num})
            cases.append({"sizes": nums.tolist(), "shares": shares.tolist(), "dim": dim, "kernel": kern, "args": kw})
    judge(chk, events, cases, module="CountsTrace", what="samples of groups of data")
