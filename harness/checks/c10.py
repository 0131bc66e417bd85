"""C10: resampling draws exactly the requested points from the KDE's own density."""
import numpy as np
import kalepy as kale
import sampling


def run(chk):
    rng = np.random.default_rng(chk.seed)
    np.random.seed(chk.seed + 4321)
    events, cases = [], []
    for rec in sampling.records(chk, 30, 250, QueryModes={"default", "off"}):
        if chk.stop:
            return
        sizes = [None, 0, 1, 2, int(rng.integers(3, 60)), float(rng.integers(3, 60))]
        sampling.replay(chk, rec, rng, events, cases, sizes, chk.n(40000, 100000))
    sampling.judge(chk, events, cases, what="resampled data")
    own(chk, rng)
    sampling.groups(chk, rng)
    bootstrap(chk, rng)


def bootstrap(chk, rng):
    """As many samples as data, of many data: drawn with replacement, so that the number of data that are drawn k times follows
    the binomial law of independent draws (here Poisson, to within the accuracy of the judgement), whatever the order."""
    events, cases = [], []
    for case in range(chk.n(12, 60)):
        if chk.stop:
            return
        dim = int(rng.integers(1, 4))
        num, reps = 2000, 5
        data = rng.uniform(-1, 1, (dim, num))
        data[0] = 10.0 * rng.permutation(num)
        how = case % 4
        keep = [None, None, 0, list(range(dim))][rng.integers(0, 4)]
        kw = dict(weights=np.full(num, 10.0 ** rng.uniform(-4, 4))) if how == 1 else {}
        size = None if how < 2 else num if how == 2 else num // 2
        with chk.case("resampling as many samples as data"):
            kde = kale.KDE(data, covariance=np.eye(dim), bandwidth=0.5, kernel=str(rng.choice(["gaussian", "box", "parabola"])), **kw)
            times = np.zeros(4, dtype=int)
            for rep in range(reps):
                args = dict(keep=keep) if keep is not None else {}
                if rng.random() < 0.3:
                    args["reflect"] = False
                if size is not None:
                    args["size"] = size
                out = kde.resample(squeeze=False, **args)
                cls = np.clip(np.round(out[0] / 10.0), 0, num - 1).astype(int)
                times += np.bincount(np.minimum(np.bincount(cls, minlength=num), 3), minlength=4)
            # Poisson law of mean 1 or 1/2, to within its difference from the binomial one
            law = [6065, 3033, 758, 144] if how == 3 else [3679, 3679, 1839, 803]
            events.append({"c": times.tolist(), "p": law, "r": 4, "n": num * reps})
            cases.append({"dim": dim, "size": size, "keep": keep, "weights": bool(kw)})
    sampling.judge(chk, events, cases, module="CountsTrace", what="number of times that each datum is drawn")


def own(chk, rng):
    """All weight at one of many data: its kernel has the matrix given by the covariance and bandwidth."""
    events, cases = [], []
    for dim in (1, 2, 3, 4):
        for kern in ("gaussian", "box", "parabola", "triweight"):
            with chk.case("resampling one datum, own matrix, %d-d" % dim):
                data = rng.normal(0, 1, (dim, 40)) * rng.uniform(0.1, 10, (dim, 1))
                cov = np.atleast_2d(np.cov(data))
                wts = np.zeros(40)
                wts[7] = 3.0
                kde = kale.KDE(data, weights=wts, covariance=cov, bandwidth=0.3, kernel=kern)
                out = kde.resample(chk.n(40000, 100000), squeeze=False)
                yy = sampling.whiten(out - data[:, 7:8], 0.09 * cov)
                events.append(sampling.event(kern, dim, yy))
                cases.append({"dim": dim, "kernel": kern})
    sampling.judge(chk, events, cases, what="resampled data")
