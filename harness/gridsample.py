"""Behaviours of GridSample.tla replayed in kalepy, and recorded samples as events of GridTrace.tla."""
import numpy as np
import kalepy as kale
import gridbind as gb
import kdebind as kb
from core import need

LAWS = ["LawReach", "LawScalar", "LawConserve"]


def records(chk, kind, quick, thorough, dims=(1, 2, 3), seed=0, **kw):
    jobs = []
    for dim in dims:
        cc = dict(Dim=dim, NEdge={1: {2, 3, 5, 7}, 2: {2, 3, 4}, 3: {2, 3}, 4: {2, 3}}[dim], Gaps={1, 2, 5}, First={-2, 0, 1},
                  Values={0, 1, 2, 5}, Kind=kind, MassValues={0, 1, 3, 8}, FieldValues={-2, 0, 1, 4},
                  Thresholds={0, 4, 12, 40, 100, 300, 10**6})
        cc.update(kw)
        jobs.append(dict(module="GridSample", constants=cc, init="SInit", nxt="SNext", invariants=LAWS,
                         simulate=chk.n(quick, thorough), depth=120, seed=seed + dim))
    return [rec for res in chk.tlc_many(jobs) for rec in res.records]


class Case:
    """Arguments and expectations of a behaviour under an embedding."""

    def __init__(self, rec, rng, plain=None, amp=None):
        self.rec = rec
        self.dim = dim = rec["d"]
        self.emb = emb = gb.Emb(rng, dim, plain)
        if amp is not None:
            emb.amp = amp
        self.shape = tuple(rec["shape"])
        self.bins = tuple(s - 1 for s in self.shape)
        self.edges = emb.edges(rec["edges"])
        self.dens = np.array(rec["vals"]).reshape(self.shape) * (1 if emb.plain and amp is None else emb.amp)
        # the unit of mass
        self.given = rec["mkind"] == "given"
        self.unit = (emb.amp if self.given else emb.vol(range(1, dim + 1))) / rec["den"]
        self.mass = np.array(rec["mass"], dtype=float).reshape(self.bins) * self.unit
        self.total = rec["total"] * self.unit

    def args(self, rng, dens=None):
        kw = {}
        if self.given:
            kw["mass"] = gb.vals_arg(rng, self.mass)
        elif rng.random() < 0.3:
            kw["mass"] = None
        return gb.edges_arg(rng, self.edges), gb.vals_arg(rng, self.dens if dens is None else dens), kw

    def cells(self, chk, vals):
        """Cell (flat index) and fraction within it of every sample."""
        fracs = np.zeros(vals.shape)
        flat = np.zeros(vals.shape[1], dtype=int)
        for ii, ee in enumerate(self.edges):
            need(chk, np.all((vals[ii] >= ee[0]) & (vals[ii] <= ee[-1])), "samples outside of the grid in dimension %d" % ii)
            kk = np.clip(np.searchsorted(ee, vals[ii], side="right") - 1, 0, ee.size - 2)
            fracs[ii] = (vals[ii] - ee[kk]) / (ee[kk + 1] - ee[kk])
            flat = flat * (ee.size - 1) + kk
        return flat, fracs

    def cells_event(self, flat, mass=None):
        return dict(what="cells", n=int(flat.size), mass=[int(m) for m in (self.rec["mass"] if mass is None else mass)],
                    cnt=np.bincount(flat, minlength=len(self.rec["mass"])).tolist())

    def profile_events(self, flat, fracs, uniform=False):
        out = []
        ncell = len(self.rec["mass"])
        faces = [[[1, 1]] * self.dim if uniform else ff for ff in self.rec["faces"]]
        for ii in range(self.dim):
            qq = np.clip((fracs[ii] * 4).astype(int), 0, 3)
            out.append(dict(what="quarters", f=[ff[ii] for ff in faces],
                            q=np.bincount(4 * flat + qq, minlength=4 * ncell).reshape(-1, 4).tolist()))
            for jj in range(ii):
                cc = np.bincount(2 * (fracs[ii] > 0.5) + (fracs[jj] > 0.5), minlength=4).reshape(2, 2)
                out.append(dict(what="joint", f=[ff[ii] for ff in faces], g=[ff[jj] for ff in faces],
                                n=np.bincount(flat, minlength=ncell).tolist(), c=cc.tolist()))
        return out


def judge(chk, events, cases, what):
    for kk, clause in chk.judge("GridTrace", events):
        chk.violate("%s: %s" % (what, clause), event=events[kk - 1], case=cases[kk - 1])
        if chk.stop:
            return


def draw(chk, case, rng, nsamp, interpolate, dens=None, extra=None):
    """Sample with either interface, in some form of the arguments."""
    edges, vals, kw = case.args(rng, dens)
    kw.update(extra or {})
    opts = {}
    if not interpolate or rng.random() < 0.5:
        opts["interpolate"] = interpolate
    before = kb.snapshot({"edges": edges, "vals": vals, "kw": kw})
    asked = nsamp
    if nsamp is not None and rng.random() < 0.4:
        asked = [float(nsamp) + 0.25, np.int64(nsamp)][rng.integers(0, 2)]
    if rng.random() < 0.5:
        if rng.random() < 0.5 and asked is not None:
            out = kale.sample_grid(edges, vals, asked, squeeze=False, **kw, **opts)
        else:
            if asked is not None or rng.random() < 0.5:
                opts["nsamp"] = asked
            if case.dim == 1 and (nsamp is None or nsamp == 1):
                opts["squeeze"] = False
            out = kale.sample_grid(edges, vals, **kw, **opts)
            if case.dim == 1 and "squeeze" not in opts:
                pos = out[0] if isinstance(out, tuple) else out
                need(chk, np.ndim(pos) == 1, "samples of a 1D grid have shape %r" % (np.shape(pos),))
                out = (np.atleast_2d(pos),) + out[1:] if isinstance(out, tuple) else np.atleast_2d(pos)
    else:
        if asked is not None or rng.random() < 0.5:
            opts["nsamp"] = asked
        obj = kale.sample.Sample_Grid(edges, vals, **kw)
        if rng.random() < 0.3:
            obj.sample(nsamp=3)         # an earlier draw is of no importance
        out = obj.sample(**opts)
    need(chk, kb.unchanged(before, {"edges": edges, "vals": vals, "kw": kw}), "sampling modifies its arguments")
    chk.sample({"edges": edges, "density": vals, "args": kw, "options": opts})
    return out
