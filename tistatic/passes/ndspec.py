"""NdSpec and ragged arrays: broadcasting and item access, decided by interpreting the real classes.

The nesting of the data is enumerated, the leaves stay symbolic; the expected structure comes from the documented rules
(partial item, item, list of items), written down independently below."""
import ast
import itertools
from ..harness import *
from ..report import ok, bad, und

RULE = "spec-broadcast"
DRIVER = '''
import torch
import numpy as np
from torchimage.utils import NdSpec
from torchimage.utils.ragged import get_ragged_ndarray, expand_ragged_ndarray, apply_ragged_ndarray

def facts(s):
    return len(s), s.ndim, s.item_shape, s.index_shape, s.item_ndim, s.index_ndim, s.is_item, tuple(s)

def make(data, item_shape):
    return facts(NdSpec(data, item_shape=item_shape))

def again(data, item_shape):
    return facts(NdSpec(NdSpec(data, item_shape=item_shape), item_shape=(7,)))

def get(data, item_shape, i):
    return NdSpec(data, item_shape=item_shape)[i]

def indexed(data, index_shape):
    return facts(NdSpec(data, index_shape=index_shape))

def mapped(data, item_shape):
    return facts(NdSpec(data, item_shape=item_shape).map(lambda v: (v, v, 7)))

def mapped_scalar(data, item_shape):
    return facts(NdSpec(data, item_shape=item_shape).map(lambda v: 3 * v + 1))

def starmapped(data, item_shape):
    return facts(NdSpec(data, item_shape=item_shape).starmap(lambda p, q: (q, p)))

def zipped(*ds):
    return facts(NdSpec.zip(*[NdSpec(d, item_shape=s) for d, s in ds]))

def applied2(a, b):
    return facts(NdSpec.apply(lambda p, q: 10 * p + q, NdSpec(a[0], item_shape=a[1]), NdSpec(b[0], item_shape=b[1])))

def applied3(a, b, c):
    return facts(NdSpec.apply(lambda p, q, r: (r, p - q), NdSpec(a[0], item_shape=a[1]), NdSpec(b[0], item_shape=b[1]), NdSpec(c[0], item_shape=c[1])))

def agg_shape(*ds):
    return NdSpec.agg_index_shape(*[NdSpec(d, item_shape=s) for d, s in ds])

def agg_len(*ds):
    return NdSpec.agg_index_len(*[NdSpec(d, item_shape=s) for d, s in ds])

def agg_len_allowed(allowed, *ds):
    return NdSpec.agg_index_len(*[NdSpec(d, item_shape=s) for d, s in ds], allowed_index_ndim=allowed)

def agg_raw(*ds):
    return NdSpec.agg_index_shape(*ds)

def ragged(data, strict):
    return get_ragged_ndarray(data, strict=strict)

def expand(data, old, new):
    return expand_ragged_ndarray(data, old, new)

def deep(data, depth):
    return apply_ragged_ndarray(data, lambda v: (v, v), depth)
'''


class Fail(Exception):
    pass


# ---------------------------------------------------------------------- documented meaning
def shape_of(d):
    """shape of a nested list; -1 where lengths differ; siblings of different depth are leaves"""
    if not isinstance(d, (list, tuple)):
        return ()
    if not d:
        return (0,)
    ss = [shape_of(x) for x in d]
    if len({len(s) for s in ss}) > 1:
        return (len(d),)
    return (len(d),) + tuple(s[0] if len(set(s)) == 1 else -1 for s in zip(*ss))


def expand(d, shape, target):
    """d, whose shape is `shape`, broadcast to target (same length; -1: as it is)"""
    if not target:
        return d
    if not d:
        if target[0] > 0:
            raise Fail("ValueError")
        return d
    kids = [expand(x, shape[1:], target[1:]) for x in d]
    if target[0] in (-1, len(d)):
        return kids
    if len(d) == 1:
        return kids * target[0]
    raise Fail("ValueError")


def item(d, depth, target):
    n = len(target) - depth
    v = expand(d, shape_of(d)[:depth], target[n:])
    for k in reversed(target[:n]):
        v = [v] * (1 if k == -1 else k)
    return v


def spec(data, item_shape):
    """(index depth, data) with every item broadcast"""
    s = shape_of(data)
    m = len(item_shape)
    for a, b in zip(reversed(s), reversed(item_shape)):
        if a == 0 and b > 0:
            raise Fail("ValueError")
    k = max(0, len(s) - m)

    def go(d, k):
        if k == 0:
            return item(d, min(m, len(s)), item_shape)
        return [go(x, k - 1) for x in d]
    return k, go(data, k)


def cut(v, depth):
    """shape of a broadcast value, leaves below depth opaque"""
    if depth == 0:
        return ()
    if not v:
        return (0,)
    ss = [cut(x, depth - 1) for x in v]
    n = min(len(s) for s in ss)
    return (len(v),) + tuple(s[0] if len(set(s)) == 1 else -1 for s in zip(*[q[:n] for q in ss]))


def facts(k, v, total):
    sh = cut(v, total)
    length = 0 if k == 0 else len(v)
    return (length, len(sh), sh[k:], sh[:k], len(sh) - k, k, k == 0, tuple([v] if k == 0 else v))


def full(data, item_shape):
    k, v = spec(data, item_shape)
    s = shape_of(data)
    return facts(k, v, k + len(item_shape) if not (s and s[0] == 0) else max(1, len(item_shape)))


def at(v, idx):
    for i in idx:
        if not -len(v) <= i < len(v):
            raise Fail("IndexError")
        v = v[i]
    return v


def aggregate(ks):
    kinds = {q for q in ks if q != ()}
    if len(kinds) > 1:
        raise Fail("ValueError")
    return kinds.pop() if kinds else ()


def apply_(f, *ds):
    ps = [spec(d, s) for d, s in ds]
    sh = aggregate([cut(v, k) for k, v in ps])

    def go(vals, k):
        if k == 0:
            return f(*vals)
        return [go([v[i] if q else v for v, q in zip(vals, part)], k - 1) for i in range(sh[len(sh) - k])]
    part = [k > 0 for k, _ in ps]
    k = len(sh)
    out = go([v for _, v in ps], k)
    return k, out


# ---------------------------------------------------------------------- comparing
def build(w, d):
    if isinstance(d, str):
        return w.int(d)
    if isinstance(d, Lit):
        return K(d.v)
    if d is None:
        return NONE
    if isinstance(d, bool):
        return K(d)
    if isinstance(d, int):
        return num(d)
    if isinstance(d, tuple):
        return TUP(tuple(build(w, x) for x in d))
    if isinstance(d, list):
        return w.list([build(w, x) for x in d])
    raise Undecided("data")


class Lit:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Lit) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return repr(self.v)

    def __bool__(self):
        return True


class Lin:
    """c0 + sum ck*leaf, for expected values of functions"""

    def __init__(self, t, c=0):
        self.t, self.c = dict(t), c

    def poly(self, w):
        p = const(self.c)
        for k, c in self.t.items():
            p = add(p, mul(const(c), w.isym(k)))
        return p


def lin(**t):
    return Lin(t)


def differs(w, v, e, at=""):
    """None if v is e; else text; raises Undecided when v is not resolved"""
    v = w.ip.one(w.st, v)
    if isinstance(v, LST):
        v = w.st.heap[v.oid].c
    if isinstance(v, IT):
        v = TUP(v.items)
    if isinstance(e, (list, tuple)):
        if not isinstance(v, TUP):
            if isinstance(v, (N, K)) or v == NONE:
                return f"{at or 'it'} is {brief(v)} instead of {brief(e)}"
            raise Undecided(f"value {brief(v)}")
        if len(v.items) != len(e):
            return f"{at or 'it'} has {len(v.items)} entries instead of {len(e)}: {brief(v)} instead of {brief(e)}"
        for i, (x, y) in enumerate(zip(v.items, e)):
            t = differs(w, x, y, f"{at}[{i}]")
            if t:
                return t
        return None
    if isinstance(v, TUP):
        return f"{at or 'it'} is {brief(v)} instead of {brief(e)}"
    if isinstance(e, Lit):
        e = e.v
        if isinstance(v, K):
            return None if v.v == e else f"{at or 'it'} is {v.v!r} instead of {e!r}"
    if e is None:
        if v == NONE:
            return None
        if isinstance(v, (N, K)):
            return f"{at or 'it'} is {brief(v)} instead of None"
        raise Undecided(f"value {brief(v)}")
    if isinstance(v, K) and isinstance(v.v, (bool, int, float)):
        if isinstance(e, (bool, int)):
            return None if v.v == e else f"{at or 'it'} is {v.v!r} instead of {e!r}"
    if isinstance(v, N):
        p = const(int(e)) if isinstance(e, (bool, int)) else e.poly(w) if isinstance(e, Lin) else w.isym(e) if isinstance(e, str) else None
        if p is not None:
            if v.p == p:
                return None
            if all(len(m) == 0 or len(m) == 1 and m[0][0].op == "isym" for m in v.p.t):
                return f"{at or 'it'} is {show(v.p)} instead of {show(p)}"
            raise Undecided(f"value {show(v.p)}")
    if v == NONE or isinstance(v, (K, N)):
        return f"{at or 'it'} is {brief(v)} instead of {brief(e)}"
    raise Undecided(f"value {brief(v)}")


def brief(v):
    if isinstance(v, N):
        return show(v.p)
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, TUP):
        return "(" + ", ".join(brief(x) for x in v.items) + ")"
    return repr(v)[:80]


def und_of(name, r, c):
    return und(RULE, name, c + ": " + "; ".join(f"{x[0]}:{x[1]} {x[3]}" for x in list(dict.fromkeys(r.undecided))[:3]))


class Case:
    def __init__(self, id, fn, args, expect, construct):
        self.id, self.fn, self.args, self.expect, self.construct = id, fn, args, expect, construct


def raised(r):
    return [e for e in r.events if e.kind == "raise"]


def run(ctx, case):
    if "tidrv" not in ctx.src.files:
        ctx.src.files["tidrv"] = ("<driver>", ast.parse(DRIVER), False)
    w = World(ctx.src, ndspec=False)
    w.get("utils.NdSpec")
    f = w.ip.lookup("tidrv." + case.fn)
    r = w.run(f, *[build(w, a) for a in case.args])
    try:
        e = case.expect()
    except Fail as x:
        e = x
    c = f"case {case.id}"
    name = "utils." + case.construct
    if r.returns is None:
        return [und(RULE, name, f"{c}: {r.undecided[-1][3] if r.undecided else 'not interpreted'}")]
    if isinstance(e, Fail):
        if r.returns:
            if r.undecided:
                return [und_of(name, r, c)]
            return [bad(RULE, name, f"{c}: no {e} is raised")]
        kinds = {x.data.get("exc") for x in raised(r)}
        if str(e) in kinds or not kinds or None in kinds:
            return [ok(RULE, name, f"{c}: raises {e}")]
        return [bad(RULE, name, f"{c}: raises {sorted(kinds)} instead of {e}")]
    if not r.returns:
        if r.undecided:
            return [und_of(name, r, c)]
        return [bad(RULE, name, f"{c}: the call never returns")]
    try:
        t = differs(w, r.value, e)
    except Undecided as x:
        return [und(RULE, name, f"{c}: {x}")]
    if t:
        if r.undecided:
            return [und_of(name, r, c)]
        return [bad(RULE, name, f"{c}: {t}")]
    return [ok(RULE, name, f"{c}: every entry as documented")]


def ndspec_cases():
    out = []

    def add_(id, fn, args, expect, construct):
        out.append(Case(id, fn, args, expect, construct))
    data = {
        "scalar": "a", "none": None, "text": Lit("reflect"), "list1": ["a"], "list2": ["a", "b"], "tuple2": ("a", "b"), "list3": ["a", "b", "c"],
        "list5": ["a", "b", "c", "d", "e"], "pairs1": [["a", "b"]], "pairs2": [["a", "b"], ["c", "d"]], "pairs3": (("a", "b"), ("c", "d"), ("e", "f")),
        "singles": [["a"], ["b"], ["c"]], "mixed-pairs": [["a"], ["b", "c"]], "ragged": [["a", "b", "c"], ["d"]], "ragged3": [["a"], ["b", "c"], ["d", "e", "f"]],
        "texts": [Lit("reflect"), Lit("circular")], "nones": [None, "b"], "text-pair": (Lit("x"), Lit("y")), "empty": [], "empties": [[], []], "one-empty": [["a"], []],
        "grid": [["a", "b", "c"], ["d", "e", "f"]], "cube": [[["a", "b"], ["c", "d"]], [["e", "f"], ["g", "h"]], [["i", "j"], ["k", "l"]]],
        "cube1": [[["a"], ["b"]], [["c"], ["d"]]], "depths": ["a", ["b", "c"]], "depths2": [["a"], [["b"]]],
    }
    shapes = {"scalar": (), "pair": (2,), "any": (-1,), "triple": (3,), "pair-any": (2, -1), "any-pair": (-1, 2), "pair-pair": (2, 2), "one": (1,)}
    for dn, d in data.items():
        for sn, s in shapes.items():
            if dn in ("empty", "empties", "one-empty") and sn not in ("scalar", "pair", "any"):
                continue
            if dn == "one-empty" and sn == "pair":
                continue
            if dn in ("depths", "depths2") and sn not in ("scalar", "pair", "any"):
                continue
            add_(f"{dn}/{sn}", "make", [d, s], lambda d=d, s=s: full(d, s), "NdSpec")

            def getter(i, d=d, s=s):
                def e():
                    k, v = spec(d, s)
                    if k == 0:
                        return v
                    if isinstance(i, tuple):
                        if len(i) > k:
                            raise Fail("IndexError")
                        return at(v, i)
                    return at(v, (i,))
                return e
            if sn in ("scalar", "pair", "any"):
                for i in (0, 1, -1, -3, 4):
                    add_(f"{dn}/{sn}[{i}]", "get", [d, s, i], getter(i), "NdSpec.__getitem__")
    for dn in ("grid", "cube", "pairs2", "list3"):
        for i in ((0, 1), (1, -1), (1,), (0, 0, 0, 0), (-2, 0)):
            def e(d=data[dn], i=i):
                k, v = spec(d, ())
                if len(i) > k:
                    raise Fail("IndexError")
                return at(v, i)
            add_(f"{dn}/scalar[{i}]", "get", [data[dn], (), i], e, "NdSpec.__getitem__")
    for dn, sn, i in (("pairs2", "pair", (0, 1)), ("pairs2", "pair", (1,)), ("ragged", "any", (0, 0)), ("cube", "pair", (1, 0)), ("cube", "pair", (1, 0, 1))):
        def e(d=data[dn], s=shapes[sn], i=i):
            k, v = spec(d, s)
            if len(i) > k:
                raise Fail("IndexError")
            return at(v, i)
        add_(f"{dn}/{sn}[{i}]", "get", [data[dn], shapes[sn], i], e, "NdSpec.__getitem__")
    for dn, sn in (("scalar", "scalar"), ("scalar", "pair"), ("tuple2", "pair"), ("list3", "any"), ("text", "scalar")):
        # an item answers every index
        add_(f"{dn}/{sn}[any]", "get", [data[dn], shapes[sn], "i"], lambda d=data[dn], s=shapes[sn]: spec(d, s)[1], "NdSpec.__getitem__")
    for dn, sn in (("list3", "scalar"), ("pairs2", "pair"), ("scalar", "pair"), ("list3", "any")):
        add_(f"copy {dn}/{sn}", "again", [data[dn], shapes[sn]], lambda d=data[dn], s=shapes[sn]: full(d, s), "NdSpec")
    for dn, k in (("list3", 1), ("pairs3", 1), ("pairs3", 2), ("scalar", 0), ("ragged", 1), ("pairs2", 0)):
        d = data[dn]
        sh = shape_of(d)
        add_(f"index shape {dn}/{k}", "indexed", [d, sh[:k]], lambda d=d, k=k, sh=sh: facts(k, d, len(sh)), "NdSpec")
        if k:
            add_(f"index shape {dn}/{k} any", "indexed", [d, (-1,) * k], lambda d=d, k=k, sh=sh: facts(k, d, len(sh)), "NdSpec")
            add_(f"index shape {dn}/{k} wrong", "indexed", [d, (sh[0] + 1,) + sh[1:k]], fails("ValueError"), "NdSpec")
    for dn, sn in (("scalar", "scalar"), ("list3", "scalar"), ("tuple2", "scalar"), ("pairs3", "pair"), ("tuple2", "pair"), ("list3", "any"), ("ragged", "any"), ("grid", "scalar"), ("list1", "scalar")):
        d, s = data[dn], shapes[sn]

        def m(f, d=d, s=s):
            def e():
                k, v = spec(d, s)
                r = deepmap(v, f, k)
                return facts(k, r, len(shape_of(r)) if all_leaf(r) else k)
            return e
        add_(f"map {dn}/{sn}", "mapped", [d, s], m(lambda x: [x, x, 7]), "NdSpec.map")
        if sn == "scalar":
            add_(f"map scalar {dn}/{sn}", "mapped_scalar", [d, s], m(lambda x: Lin({x: 3}, 1)), "NdSpec.map")
        if sn == "pair":
            add_(f"starmap {dn}/{sn}", "starmapped", [d, s], m(lambda x: [x[1], x[0]]), "NdSpec.starmap")
    S_, P_ = (), (2,)
    combos = {
        "item item": ((("a"), S_), (("b"), S_)), "list item": ((["a", "b", "c"], S_), ("d", S_)), "item list": (("d", S_), (["a", "b", "c"], S_)),
        "list list": ((["a", "b"], S_), (["c", "d"], S_)), "list pairs": ((["a", "b", "e"], S_), (["c", "d"], P_)),
        "list pair list": ((["a", "b"], S_), ([["c", "d"], ["e", "f"]], P_)), "unequal": ((["a", "b"], S_), (["c", "d", "e"], S_)),
        "unequal pairs": ((["a", "b", "g"], S_), ([["c", "d"], ["e", "f"]], P_)), "three": ((["a", "b"], S_), ("c", S_), (["d", "e"], S_)),
        "three unequal": ((["a", "b"], S_), ("c", S_), (["d", "e", "f"], S_)), "ones": ((["a"], S_), (["b"], S_)), "one two": ((["a"], S_), (["b", "c"], S_)),
        "grids": (([["a", "b"], ["c", "d"]], S_), ([["e", "f"], ["g", "h"]], S_)), "grid item": (([["a", "b"], ["c", "d"], ["i", "j"]], S_), ("e", S_)),
        "grid list": (([["a", "b"], ["c", "d"]], S_), (["e", "f"], S_)), "items": (("a", S_), ("b", P_), ("c", (-1,))), "one": ((["a", "b"], S_),),
        "single item": (("a", P_),), "kernels": (([["a", "b", "c"], ["d"]], (-1,)), (["e", "f"], S_)), "kernel": ((["a", "b", "c"], (-1,)), (["e", "f"], S_)),
        "none": (([None, "a"], S_), ("b", S_)),
    }
    for cn, ds in combos.items():
        args = [tuple([d, s]) for d, s in ds]

        def z(ds=ds):
            k, v = apply_(lambda *a: list(a), *ds)
            return facts(k, v, tot(v))
        add_(f"zip {cn}", "zipped", args, z, "NdSpec.zip")

        def sh(ds=ds):
            return aggregate([cut(v, k) for k, v in (spec(d, s) for d, s in ds)])
        add_(f"index shape {cn}", "agg_shape", args, sh, "NdSpec.agg_index_shape")
        add_(f"index length {cn}", "agg_len", args, lambda sh=sh: (sh() + (0,))[0], "NdSpec.agg_index_len")
        for al in ((0, 1), (1,), (0,)):
            def ln(al=al, ds=ds, sh=sh):
                if any(spec(d, s)[0] not in al for d, s in ds):
                    raise Fail("AssertionError")
                return (sh() + (0,))[0]
            add_(f"index length {cn} of {al}", "agg_len_allowed", [al] + args, ln, "NdSpec.agg_index_len")
        if len(ds) == 2 and all(s == S_ for _, s in ds) and cn != "none":
            def ap(ds=ds):
                k, v = apply_(lambda p, q: Lin({p: 10, q: 1}), *ds)
                return facts(k, v, k)
            add_(f"apply {cn}", "applied2", args, ap, "NdSpec.apply")
        if len(ds) == 3 and all(s == S_ for _, s in ds):
            def ap3(ds=ds):
                k, v = apply_(lambda p, q, r: [r, Lin({p: 1, q: -1})], *ds)
                return facts(k, v, k + 1)
            add_(f"apply {cn}", "applied3", args, ap3, "NdSpec.apply")
    add_("no specs", "agg_raw", [], fails("ValueError"), "NdSpec.agg_index_shape")
    add_("not a spec", "agg_raw", [["a", "b"]], fails("ValueError"), "NdSpec.agg_index_shape")
    # ragged arrays
    for dn, d in data.items():
        if dn in ("empties", "one-empty"):
            continue
        add_(f"ragged {dn}", "ragged", [d, True], lambda d=d: (d, shape_of(d)), "ragged.get_ragged_ndarray")
        add_(f"ragged lifted {dn}", "ragged", [d, False], lambda d=d: (lift(d), shape_of(lift(d))), "ragged.get_ragged_ndarray")
    for nm, d in (("deep", ["a", [["b"]]]), ("deeper", [["a", ["b", "c"]], ["d", "e"]])):
        add_(f"ragged lifted {nm}", "ragged", [d, False], lambda d=d: (lift(d), shape_of(lift(d))), "ragged.get_ragged_ndarray")
    for dn, new in (("scalar", (2, 3)), ("list2", (3, 2)), ("list2", (-1, 2)), ("list1", (4,)), ("list3", (4,)), ("singles", (3, 2)), ("pairs1", (3, 2)), ("pairs1", (3, -1)),
                    ("pairs2", (2,)), ("ragged", (-1,)), ("list2", (2,)), ("cube1", (2, 3)), ("cube1", (4, 2)), ("mixed-pairs", (2, 2)), ("pairs3", (2, 2))):
        d = data[dn]

        def e(d=d, new=new):
            k, v = spec(d, new)
            return v, cut(v, k + len(new))
        add_(f"expand {dn} to {new}", "expand", [d, shape_of(d), new], e, "ragged.expand_ragged_ndarray")
    for dn, k in (("scalar", 0), ("list3", 1), ("list3", 0), ("pairs2", 1), ("pairs2", 2), ("ragged", 2), ("cube", 3), ("cube", 2)):
        add_(f"apply {dn} at {k}", "deep", [data[dn], k], lambda d=data[dn], k=k: deepmap(d, lambda x: [x, x], k), "ragged.apply_ragged_ndarray")
    add_("apply at -1", "deep", [data["list3"], -1], fails("ValueError"), "ragged.apply_ragged_ndarray")
    return out


def lift(d):
    if not isinstance(d, (list, tuple)) or not d:
        return d
    ks = [lift(x) for x in d]
    n = max(len(shape_of(x)) for x in ks)
    if all(len(shape_of(x)) == n for x in ks):
        return ks

    def up(x):
        for _ in range(n - len(shape_of(x))):
            x = [x]
        return x
    return [up(x) for x in ks]


def all_leaf(v):
    return True


def tot(v):
    return len(shape_of(v))


def deepmap(v, f, k):
    return f(v) if k == 0 else [deepmap(x, f, k - 1) for x in v]


def fails(e):
    def g():
        raise Fail(e)
    return g


def ndspec_pass(ctx):
    cs = ndspec_cases()
    n = 4
    groups = [Group(cs[i:i + n]) for i in range(0, len(cs), n)]
    return ctx.map(lambda g: [o for c in g.cases for o in run(ctx, c)], groups, 25)


class Group:
    def __init__(self, cases):
        self.cases = cases
        self.id = cases[0].id
