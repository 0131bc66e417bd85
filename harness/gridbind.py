"""Embeddings of the grids of Grid.tla in floating-point arrays."""
import numpy as np

CALC_LAWS = ["LawTotal", "LawFubini", "LawCumulative", "LawInside", "LawMoment"]


def calc_jobs(chk, quick, thorough, negative=False, cents=False):
    jobs = []
    for dim in (1, 2, 3, 4, 5):
        cc = dict(Dim=dim, NEdge={1: {2, 3, 4, 6}, 2: {2, 3, 5}, 3: {2, 3}, 4: {2, 3}, 5: {2}}[dim], Gaps={1, 2, 3, 7}, First={-5, 0, 1},
                  Values={-3, 0, 1, 4} if negative else {0, 1, 2, 5}, WithCentroids=cents)
        if dim >= 4:
            # (of five dimensions, only the grids of few nodes are reached within the depth)
            cc.update(NEdge={2, 3}, Gaps={1, 2}, First={0, 1}, Values={0, 1, 3})
        jobs.append(dict(module="GridCalc", constants=cc, invariants=CALC_LAWS if not negative else CALC_LAWS[:3],
                         simulate=chk.n(quick, thorough) // {4: 3, 5: 6}.get(dim, 1), depth=110, seed=dim + (10 if negative else 0)))
    # every one-dimensional grid of two or three edges, and every smallest two-dimensional one
    jobs.append(dict(module="GridCalc", constants=dict(Dim=1, NEdge={2, 3}, Gaps={1, 3}, First={-1, 0}, Values={0, 1, 2, 5},
                                                       WithCentroids=cents), invariants=CALC_LAWS))
    jobs.append(dict(module="GridCalc", constants=dict(Dim=2, NEdge={2}, Gaps={1, 2}, First={0}, Values={0, 1, 3},
                                                       WithCentroids=cents), invariants=CALC_LAWS))
    return jobs


def filling(rng, lo, hi):
    """Whole scale and shift that take values from `lo` to `hi` across most of the range of eight bits, with or without sign."""
    scale = max(int(rng.choice([1.0, 0.95, 0.5]) * 254 / (hi - lo)), 1)
    return float(scale), float(rng.choice([-127, 1])) - scale * lo


class Emb:
    """Scales and shifts of the axes, and scale of the values."""

    def __init__(self, rng, dim, plain=None):
        if plain is None:
            plain = rng.random() < 0.3
            if not plain and rng.random() < 0.2:
                # whole numbers, which nearly fill the smaller integer types
                self.scale = rng.integers(1, 13, dim).astype(float)
                self.shift = rng.integers(-40, 90, dim).astype(float)
                self.amp = float(rng.integers(20, 51))
                self.plain = False
                self.fill = rng
                return
        self.scale = np.ones(dim) if plain else 10.0 ** rng.uniform(-4, 4, dim)
        self.shift = np.zeros(dim) if plain else np.where(rng.random(dim) < 0.5, 0.0, self.scale * rng.uniform(-50, 50, dim))
        self.amp = 1.0 if plain else 10.0 ** rng.uniform(-9, 9)
        self.plain = plain

    fill = None

    def edges(self, edges):
        if self.fill is not None:
            for ii, ee in enumerate(edges):
                self.scale[ii], self.shift[ii] = filling(self.fill, ee[0], ee[-1])
            self.fill = None
        return [np.array(ee, dtype=float) * ss + tt for ee, ss, tt in zip(edges, self.scale, self.shift)]

    def vol(self, axes):
        return self.amp * np.prod([self.scale[a - 1] for a in axes])


WHOLE = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.int64]


def whole(rng, arr, chance=0.6):
    """Whole numbers as one of the integer types that hold them, the smaller the likelier."""
    arr = np.asarray(arr)
    if arr.size and arr.dtype.kind in "fi" and rng.random() < chance and np.all(np.abs(arr) < 2**31) and np.all(arr == np.round(arr)):
        for tt in WHOLE:
            info = np.iinfo(tt)
            if info.min <= arr.min() and arr.max() <= info.max and rng.random() < 0.6:
                return arr.astype(tt)
    return arr


def layout(rng, arr):
    """The same array in some memory layout."""
    arr = np.asarray(arr)
    form = rng.integers(0, 5)
    if form == 0 or arr.ndim == 0:
        return arr.copy()
    if form == 1:
        return np.asfortranarray(arr)
    if form == 2:
        big = np.zeros(tuple(2 * s for s in arr.shape), dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if form == 3:
        back = tuple(slice(None, None, -1) for _ in arr.shape)
        return arr[back].copy()[back]
    # axes in any order in memory
    perm = rng.permutation(arr.ndim)
    return np.ascontiguousarray(arr.transpose(perm)).transpose(np.argsort(perm))


def edges_arg(rng, arrs):
    """Ways to give edges."""
    arrs = [whole(rng, aa) for aa in arrs]
    form = rng.integers(0, 5)
    if len(arrs) == 1 and form == 0:
        return arrs[0].copy()
    if form == 1:
        return [aa.tolist() for aa in arrs]
    if form == 2:
        return tuple(aa.copy() for aa in arrs)
    if form == 3 and len(set(aa.size for aa in arrs)) == 1:
        return np.array(arrs)
    return [aa.copy() for aa in arrs]


def vals_arg(rng, vals):
    vals = whole(rng, vals)
    return vals.tolist() if rng.random() < 0.25 else layout(rng, vals)


def axis_arg(rng, axes, dim, several=True, negative=True):
    """Ways to name the (one-based) axes."""
    axes = [a - 1 for a in axes]
    if len(axes) == dim and rng.random() < 0.5:
        return None
    if len(axes) == 1 and (rng.random() < 0.6 or not several):
        ax = axes[0] - dim if (negative and rng.random() < 0.4) else axes[0]
        return int(ax) if rng.random() < 0.7 else np.int64(ax)
    axes = [axes[i] for i in rng.permutation(len(axes))]
    if negative and several:
        axes = [a - dim if rng.random() < 0.3 else a for a in axes]
    form = rng.integers(0, 3)
    return [list, tuple, np.array][form](axes)


def fresh(obj):
    import copy
    return copy.deepcopy(obj)
