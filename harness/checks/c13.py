"""C13: each kernel is a unit-integral symmetric density that its sampler follows."""
import math
import numpy as np
from kalepy import kernels
import sampling
from core import close, need

NAMES = {"", "gaussian", "box", "parabola", "epanechnikov", "triweight"}
CLASSES = {"gaussian": "Gaussian", "box": "Box", "parabola": "Parabola", "triweight": "Triweight"}


def run(chk):
    rng = np.random.default_rng(chk.seed)
    laws = ["LawRadial", "LawNorm", "LawPeaked", "LawTables"]
    jobs = [dict(module="KernelEval", constants=dict(Dims={1}, Names=NAMES, Coords=set(range(-13, 14)), Den=10, NPoint=1),
                 invariants=laws),
            dict(module="KernelEval", constants=dict(Dims={1, 2, 3, 4, 5, 6}, Names=NAMES, Coords=set(range(-7, 8)), Den=10, NPoint=6),
                 simulate=chk.n(300, 4000), depth=60, seed=2),
            dict(module="KernelEval", constants=dict(Dims={1, 2, 3, 4, 5, 6}, Names=NAMES, Coords={-10, -8, -6, -3, 0, 3, 6, 8, 10}, Den=10,
                                                     NPoint=6), simulate=chk.n(200, 3000), depth=60, seed=3)]
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            chk.replayed += 1
            one(chk, rec, rng)
    samples(chk)


def spelled(name, rng):
    if name == "":
        return None
    how = rng.integers(0, 4)
    return [name, name.upper(), " " + name.capitalize(), name + "\t"][how]


def one(chk, rec, rng):
    with chk.case("kernel '%s' in %d dimensions" % (rec["name"], rec["d"]), record=rec):
        arg = spelled(rec["name"], rng)
        cls = kernels.get_distribution_class(arg)
        need(chk, cls is getattr(kernels, CLASSES[rec["kern"]]), "name %r selects %r" % (arg, cls))
        need(chk, kernels.get_distribution_class(cls) is cls, "a class does not select itself: %r" % (cls,))
        dist = cls()
        need(chk, bool(dist.FINITE) == rec["finite"], "FINITE is %r" % (dist.FINITE,))
        yy = np.array(rec["pts"], dtype=float).T / rec["den"]
        dim = rec["d"]
        y2 = np.array([a / b for a, b in rec["y2"]])
        if rec["finite"]:
            want = np.array([a / b for a, b in rec["val"]]) / (rec["norm"][0] / rec["norm"][1] * math.pi**rec["pi"])
        else:
            want = np.exp(-y2 / 2) / (2 * math.pi)**(dim / 2)
        edge = np.array(rec["inside"]) == 2
        obj = dist if rng.random() < 0.5 else cls
        arg = yy if dim > 1 or rng.random() < 0.5 else yy[0]
        if rng.random() < 0.3:
            arg = arg.tolist()
        before = np.array(arg)
        got = np.asarray(obj.evaluate(arg), dtype=float)
        need(chk, np.array_equal(before, np.array(arg)), "evaluate modified its argument")
        need(chk, got.shape == want.shape, "evaluate has shape %s" % (got.shape,))
        ok = ~edge
        close(chk, got[ok], want[ok], "evaluate", rtol=1e-9, atol=1e-12)
        close(chk, obj.evaluate(-np.array(yy))[ok], want[ok], "evaluate of the opposite points", rtol=1e-9, atol=1e-12)
        ins = np.asarray(obj.inside(yy if dim > 1 or rng.random() < 0.5 else yy[0]))
        need(chk, ins.shape == (yy.shape[1],), "inside has shape %s" % (ins.shape,))
        ii = np.array(rec["inside"]) == 1
        need(chk, np.all(ins[ok] == ii[ok]), "inside is %r, specification says %r" % (ins, ii))
        # on a grid
        if dim <= 3:
            edges = [np.unique(row) for row in yy]
            grid = np.asarray(obj.grid(edges))
            need(chk, grid.shape == tuple(len(e) for e in edges), "grid has shape %s" % (grid.shape,))
            at = tuple(np.searchsorted(e, row) for e, row in zip(edges, yy))
            close(chk, grid[at][ok], want[ok], "grid", rtol=1e-9, atol=1e-12)
        chk.sample({"name": rec["name"], "y2": rec["y2"]})


def samples(chk):
    events, cases = [], []
    num = chk.n(100000)
    if chk.thorough:
        num = 100000
    for rep in range(chk.n(1, 8)):
        np.random.seed(chk.seed * 7919 + rep)
        for name, cname in CLASSES.items():
            cls = getattr(kernels, cname)
            for dim in (1, 2, 3, 4, 5, 6):
                with chk.case("samples of %s in %d dimensions" % (name, dim)):
                    obj = cls() if rep % 2 == 0 else cls
                    yy = np.asarray(obj.sample(num, ndim=dim, squeeze=False))
                    need(chk, yy.shape == (dim, num), "sample has shape %s" % (yy.shape,))
                    need(chk, np.all(np.isfinite(yy)), "samples are not finite")
                    events.append(sampling.event(name, dim, yy))
                    cases.append((name, dim))
                    for size in (1, 2, 7):
                        ss = np.asarray(obj.sample(size, ndim=dim))
                        want = (dim, size) if dim > 1 else ((size,) if size > 1 else ())
                        need(chk, ss.shape in (want, (size,) if dim == 1 else want), "sample(%d, ndim=%d) has shape %s" % (
                            size, dim, ss.shape))
                    if name != "gaussian":
                        need(chk, np.all(obj.inside(yy * (1 - 1e-9))), "samples outside of the support")
    sampling.judge(chk, events, cases, what="samples of the kernel")
    bins(chk)
    # the same through the kernel-density estimate of a single location: default number of dimensions
    np.random.seed(chk.seed + 17)
    with chk.case("default dimension of sample"):
        for cname in CLASSES.values():
            need(chk, np.shape(getattr(kernels, cname).sample(5)) == (5,), "sample(5) of %s" % cname)


def bins(chk):
    """Many samples, in narrow bins: tables that kernels are drawn from must be fine enough."""
    events, cases = [], []
    rng = np.random.default_rng(chk.seed + 5)
    np.random.seed(chk.seed + 99)
    for name, cname in CLASSES.items():
        for _ in range(chk.n(2, 6)):
            with chk.case("many samples of %s" % name):
                num = 1000000
                yy = np.abs(np.ravel(getattr(kernels, cname)().sample(num)))
                if name == "gaussian":
                    edges, mm = np.arange(1, 13) / 4, 4
                else:
                    mm = int(rng.choice([7, 9, 10, 11]))
                    edges = np.arange(1, mm) / mm
                cnt = np.bincount(np.searchsorted(edges, yy, side="right"), minlength=edges.size + 1)
                events.append({"kern": name, "n": num, "m": mm, "c": cnt.tolist(), "far": int(np.count_nonzero(yy > 4.0))})
                cases.append({"kernel": name, "bins": mm})
    sampling.judge(chk, events, cases, module="BinsTrace", what="many samples of the kernel")
