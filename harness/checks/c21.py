"""C21: midpoints, subdivisions, bins and spacings lie exactly where they should."""
import numpy as np
from kalepy import utils
import gridbind as gb
import kdebind as kb
from core import Raw, close, need

ST = {Raw("<<0,0>>"), Raw("<<1,1>>"), Raw("<<4,0>>")}
LI = {Raw("<<99,99>>"), Raw("<<-1,99>>"), Raw("<<99,2>>")}
LAWS = ["LawKept", "LawOrder", "LawEven"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = gb.calc_jobs(chk, 60, 1200, negative=True)
    ngrid = len(jobs)
    space = dict(Coords={-5, -2, -1, 0, 1, 2, 3, 7}, MaxData=5, Nums={0, 1, 2, 3, 6}, Dexes={10, 3, 1}, Stretches=ST, Limits=LI)
    jobs.append(dict(module="Spacing", constants=space, invariants=LAWS, simulate=chk.n(1000, 20000), depth=20, seed=5))
    jobs.append(dict(module="Spacing", constants=dict(space, Coords={-1, 0, 2}, MaxData=3, Nums={0, 1, 3}, Dexes={10}), invariants=LAWS))
    # many values, and wide ranges
    jobs.append(dict(module="Spacing", constants=dict(space, Coords={-97, -60, -20, 0, 3, 40, 90}, MaxData=4, Nums={0, 1, 12, 40, 101},
                                                      Dexes={10, 2, 1}), invariants=LAWS, simulate=chk.n(350, 4000), depth=20, seed=6))
    for kk, res in enumerate(chk.tlc_many(jobs)):
        recs = res.records
        if len(recs) > chk.n(400, 8000) and kk < ngrid:
            recs = [recs[ii] for ii in rng.permutation(len(recs))[:chk.n(400, 8000)]]
        for rec in recs:
            if chk.stop:
                return
            chk.replayed += 1
            (mids if kk < ngrid else spaced)(chk, rec, rng)


def mids(chk, rec, rng):
    dim = rec["d"]
    arr = np.array(rec["vals"]).reshape(rec["shape"])
    with chk.case("midpoints of an array of shape %s" % (rec["shape"],), record=rec):
        for per in rec["per"]:
            mode = rng.integers(0, 3)
            base, amp = 10.0 ** rng.uniform(0.1, 1.5), 10.0 ** rng.uniform(-8, 8)
            mid = np.array(per["mid"]).reshape(per["shape"]) / per["den"]
            if mode == 0:
                amp = float(rng.integers(20, 41)) if rng.random() < 0.3 else amp
                vals, want = arr * amp, mid * amp
            elif mode == 1:
                vals, want = arr, mid
            else:
                vals, want = base ** arr, base ** mid
                if rng.random() < 0.3:
                    # whole numbers
                    vals, want = 2.0 ** (arr + 3), 2.0 ** (mid + 3)
            vals = gb.vals_arg(rng, vals)
            axes = sorted(per["axes"])
            kw = {}
            if axes == [dim] and rng.random() < 0.5:
                pass        # the last one is the default
            else:
                kw["axis"] = gb.axis_arg(rng, axes, dim)
            if mode == 2:
                kw["log"] = True
            elif rng.random() < 0.3:
                kw["log"] = False
            if rng.random() < 0.3:
                kw["squeeze"] = bool(rng.random() < 0.7)
                if kw["squeeze"]:
                    want = want.squeeze()
            before = kb.snapshot(vals)
            got = utils.midpoints(vals, **kw)
            close(chk, got, want, "midpoints(%s)" % kw, rtol=1e-9, atol=1e-9 * amp if mode == 0 else 1e-12)
            need(chk, kb.unchanged(before, vals), "midpoints modifies its argument")
        chk.sample({"values": vals, "args": kw})


def spaced(chk, rec, rng):
    kind, xs = rec["kind"], rec["xs"]
    vals = np.array([nn / dd for nn, dd in rec["res"]])
    log = rng.random() < 0.4
    amp, off = 10.0 ** rng.uniform(-6, 6), rng.choice([0.0, 3.0, -40.0])
    base = 10.0 ** 0.25 if kind == "spacing" else 10.0 ** rng.uniform(0.1, 1.5 if max(np.abs(xs)) < 20 else 0.5)
    plain = not log and rng.random() < 0.3
    if log and kind != "spacing" and rng.random() < 0.4 and min(xs) > -20:
        base, amp = 2.0, 2.0 ** max(0, -min(xs))        # whole numbers

    def place(x):
        if log:
            return base ** np.asarray(x, dtype=float) * (amp if kind != "spacing" else 1.0)
        return np.asarray(x) if plain else amp * (np.asarray(x) + off)

    tol = dict(rtol=1e-9, atol=0.0 if log else 1e-9 * (1 if plain else amp))
    with chk.case("%s of %s" % (kind, xs), record=rec, log=log):
        if kind == "subdivide":
            arg = place(xs)
            arg = [gb.whole(rng, arg), arg.tolist(), tuple(arg)][rng.integers(0, 3)]
            kw = {} if (rec["num"] == 1 and rng.random() < 0.5) else {"num": rec["num"]}
            if log or rng.random() < 0.3:
                kw["log"] = log
            before = kb.snapshot({"xs": arg})
            close(chk, utils.subdivide(arg, **kw), place(vals), "subdivide(%r, %s)" % (arg, kw), **tol)
            need(chk, kb.unchanged(before, {"xs": arg}), "subdivide modifies its argument")
        elif kind == "bins":
            if log or not len(vals):
                return
            lo, hi = place(xs[0]), place(xs[-1])
            got = utils.bins(lo, hi, len(vals))
            need(chk, len(got) == 3, "bins returns %r" % (got,))
            want = place(vals)
            close(chk, got[0], want, "edges of bins", **tol)
            close(chk, got[1], 0.5 * (want[1:] + want[:-1]), "centers of bins", **tol)
            close(chk, got[2], np.diff(want), "widths of bins", **tol)
        else:
            opt = rec["opt"]
            if not len(vals):
                return
            kw = {}
            arg = place(xs)
            arg = arg.tolist() if rng.random() < 0.3 else gb.whole(rng, arg)
            ff = [f / 4 for f in opt["f"]]
            if any(ff):
                kw["log_stretch" if log else "stretch"] = ff
            if any(opt["lim"]):
                kw["limit"] = [float(place(ll[0][0] / ll[0][1])) if ll else None for ll in opt["lim"]]
            if rec["num"] > 1:
                kw["num"] = rec["num"] if rng.random() < 0.7 else float(rec["num"])
            if log:
                if rng.random() < 0.5:
                    kw["scale"] = ["log", "log10"][rng.integers(0, 2)]
                if opt["dex"] != 10 or rng.random() < 0.5:
                    kw["dex"] = opt["dex"]
            else:
                kw["scale"] = ["lin", "linear"][rng.integers(0, 2)]
                vals = np.array([nn / dd for nn, dd in opt["lin"]])
            got = np.asarray(utils.spacing(arg, **kw))
            if log and opt["exact"] and rec["num"] <= 1 and got.size == vals.size + 1:
                # a whole number of values, up to rounding
                span = [nn / dd for nn, dd in opt["span"]]
                vals = np.linspace(*span, vals.size + 1)
            close(chk, got, place(vals), "spacing(%r, %s)" % (arg, kw), **tol)
        chk.sample({"kind": kind, "args": [arg if kind != "bins" else [lo, hi]], "expected": vals})
