"""C26: jagged-array helpers agree on structure for every nesting."""
import numpy as np
from kalepy import utils
from core import close, need, same

LAWS = ["LawFlat", "LawOneDim", "LawRegular"]


def run(chk):
    rng = np.random.default_rng(chk.seed)
    jobs = [dict(module="Jagged", constants=dict(MaxDepth=dep, MaxLen=wid, MaxLeaf=num, MinLeaf=0 if num < 25 else num - 12, AllowEmpty=False), invariants=LAWS,
                 simulate=chk.n(700 if num < 25 else 120, 10000 if num < 25 else 1500), depth=60 if num < 100 else 150,
                 seed=dep + num) for dep, wid, num in ((2, 4, 12), (3, 4, 16), (4, 3, 20), (7, 3, 30), (2, 60, 110))]
    jobs.append(dict(module="Jagged", constants=dict(MaxDepth=3, MaxLen=2, MaxLeaf=4, MinLeaf=0, AllowEmpty=False), invariants=LAWS))
    seen = set()
    counts = {"regular": 0, "jagged": 0}
    for res in chk.tlc_many(jobs):
        for rec in res.records:
            if chk.stop:
                return
            key = repr(nested(rec["tree"]))
            if key in seen:
                continue
            seen.add(key)
            chk.replayed += 1
            counts["regular" if rec["regular"] else "jagged"] += 1
            for _ in range(2):
                one(chk, rec, rng)
    chk.notes["nestings"] = counts
    integers(chk, rng)


def nested(tree, leaf=float, box=lambda vv: vv):
    if tree["leaf"]:
        return leaf(tree["v"])
    return box([nested(kk, leaf, box) for kk in tree["kids"]])


def one(chk, rec, rng):
    leaf = [float, int, np.float64, lambda v: 0.5 * v][rng.integers(0, 4)]
    form = rng.integers(0, 4)

    def box(vals):
        """Lists, tuples, and arrays where possible."""
        flat = all(np.isscalar(vv) for vv in vals)
        if form == 1:
            return tuple(vals)
        if form == 2 and flat:
            return np.array(vals)
        if form == 3:
            return vals if rng.random() < 0.5 else tuple(vals)
        return vals
    arr = nested(rec["tree"], leaf, box)
    if rec["regular"] and rng.random() < 0.3:
        arr = np.array(arr)
    with chk.case("structure of %r" % (arr,), record=rec):
        want = np.array([leaf(v) for v in rec["flat"]])
        close(chk, utils.flatten(arr), want, "flatten(%r)" % (arr,), rtol=0)
        same(chk, int(utils.flatlen(arr)), rec["size"], "flatlen(%r)" % (arr,))
        same(chk, bool(utils.isjagged(arr)), not rec["regular"], "isjagged(%r)" % (arr,))
        same(chk, bool(utils.really1d(arr)), rec["one"], "really1d(%r)" % (arr,))
        shape = utils.jshape(arr)
        same(chk, plain(shape), expect(rec["tree"]), "jshape(%r)" % (arr,))
        chk.sample({"array": repr(arr), "flat": want, "shape": shape})


def plain(shape):
    return tuple(plain(ss) if isinstance(ss, tuple) else int(ss) for ss in shape)


def shape_of(tree):
    """(regular, shape)"""
    if tree["leaf"]:
        return True, ()
    kids = [shape_of(kk) for kk in tree["kids"]]
    return all(kk[0] for kk in kids) and all(kk[1] == kids[0][1] for kk in kids), (len(kids),) + kids[0][1]


def prefix(tree):
    if tree["leaf"]:
        return ()
    kids = [prefix(kk) for kk in tree["kids"]]
    out = kids[0]
    for kk in kids[1:]:
        num = 0
        while num < min(len(out), len(kk)) and out[num] == kk[num]:
            num += 1
        out = out[:num]
    return (len(kids),) + out


def expect(tree):
    """The shape; of a jagged array the leading regular part of the shape, and the shapes of all elements."""
    reg, shape = shape_of(tree)
    if reg:
        return shape
    return prefix(tree), tuple(expect(kk) for kk in tree["kids"])


def integers(chk, rng):
    """Integers are exactly that."""
    yes = [0, -3, np.int64(4), np.uint8(7), [1, 2], (3,), np.array([1, 2]), np.array(5), [[1, 2], [3, 4]]]
    no = [0.0, 3.0, np.float64(2), [1, 2.0], np.array([1.0]), "3", None, 1j, [None]]
    for val in yes + no:
        for it in (True, False):
            with chk.case("isinteger(%r, iterable=%s)" % (val, it)):
                got = bool(utils.isinteger(val, iterable=it))
                want = any(val is yy for yy in yes) and (it or np.isscalar(val))
                need(chk, got == want, "isinteger(%r, iterable=%s) is %s" % (val, it, got))
