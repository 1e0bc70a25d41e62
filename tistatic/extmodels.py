"""Models of calls into builtins, math, numpy and torch (mixin of models.Models)."""
import math
from .vals import *
from . import nparr
from .terms import *
from .terms import ge0, gt0, eq0, not_, and_, or_, phi, bphi

UN = {"exp", "log", "log10", "log2", "log1p", "expm1", "sin", "cos", "tan", "atan", "arctan", "asin", "acos", "tanh",
      "sinh", "cosh", "sigmoid", "floor", "ceil", "round", "sign", "sgn", "isnan", "isfinite", "isinf", "logical_not",
      "bitwise_not", "erf", "trunc", "fix", "frac", "nan_to_num", "rsqrt", "gelu", "softplus", "degrees", "radians",
      "rad2deg", "deg2rad", "conj", "angle", "lgamma", "digamma", "relu6", "silu", "leaky_relu", "rint"}
BIN = {"add", "sub", "subtract", "mul", "multiply", "div", "divide", "true_divide", "pow", "power", "float_power",
       "floor_divide", "fmod", "remainder", "mod"}
CMPF = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">=", "equal_": "==", "less": "<",
        "greater": ">", "less_equal": "<=", "greater_equal": ">=", "not_equal": "!="}
LOGIC = {"logical_and": "and", "logical_or": "or", "logical_xor": "xor", "bitwise_and": "and", "bitwise_or": "or",
         "bitwise_xor": "xor"}
RED = {"mean", "sum", "prod", "amax", "amin", "max", "min", "median", "std", "var", "norm", "all", "any", "argmax",
       "argmin", "logsumexp", "nansum", "nanmean", "quantile", "nanmedian", "count_nonzero", "mode"}
KNOWN_KW = {"dtype", "self", "correction", "ddof", "interpolation", "method", "alpha", "rounding_mode", "exponent", "tensor", "stable", "copy"}
SHAPEOPS = {"flip", "roll", "flipud", "fliplr", "cumsum", "cumprod", "softmax", "log_softmax", "sort", "masked_fill",
            "masked_scatter", "triu", "tril", "rot90", "renorm", "diff", "gather", "index_select", "take", "topk",
            "repeat", "repeat_interleave", "tile", "kron", "outer", "ger", "bmm", "baddbmm", "addmm", "einsum",
            "tensordot", "cross", "bincount", "unique", "nonzero", "masked_select", "scatter", "scatter_add",
            "index_add", "index_put", "index_copy", "index_fill", "lerp", "addcmul", "addcdiv", "where", "clamp",
            "clip", "maximum", "minimum", "fmax", "fmin", "matmul", "dot", "mm", "mv", "inner", "vdot",
            "fold", "diag", "diag_embed", "diagflat", "meshgrid", "convolve", "pad", "interp", "searchsorted"}
INF_FACTORY = {"new_zeros", "new_ones", "new_empty", "new_full", "new_tensor"}
EXCEPTIONS = {"Exception", "BaseException", "ValueError", "TypeError", "IndexError", "KeyError", "RuntimeError",
              "AssertionError", "NotImplementedError", "AttributeError", "ImportError", "ModuleNotFoundError",
              "ZeroDivisionError", "OverflowError", "ArithmeticError", "LookupError", "StopIteration", "OSError",
              "DeprecationWarning", "UserWarning", "Warning", "FutureWarning", "RuntimeWarning", "NameError",
              "FloatingPointError", "RecursionError"}
NN_FUNC = {"conv1d", "conv2d", "conv3d", "l1_loss", "mse_loss", "smooth_l1_loss", "pad", "interpolate", "unfold", "fold",
           "avg_pool1d", "avg_pool2d", "avg_pool3d", "max_pool2d", "relu", "softplus", "grid_sample", "pixel_shuffle",
           "pixel_unshuffle", "conv_transpose2d", "linear", "normalize", "softmax", "sigmoid", "tanh", "gelu",
           "leaky_relu", "elu", "one_hot", "huber_loss"}


def sum_normal(length, var, elem):
    """sum of elem over var in [0, length)"""
    out = ZERO
    for m, c in elem.t.items():
        dep = tuple((a, e) for a, e in m if contains(a, lambda n: n is var))
        free = Poly({tuple((a, e) for a, e in m if (a, e) not in dep): c})
        if not dep:
            out = add(out, mul(free, length))
            continue
        body = Poly({dep: const(1).const})
        rev = subst(body, {var: sub(sub(length, ONE), P(var))})
        if isinstance(rev, Poly) and rev != body:
            if repr(sorted_key(rev)) < repr(sorted_key(body)):
                body = rev
        out = add(out, mul(free, P(N_("vsum", length, var, body))))
    return out


def sorted_key(p):
    return sorted((tuple((a.id, e) for a, e in m), str(c)) for m, c in p.t.items())


SMART["vsum"] = lambda l, v, e: sum_normal(P(l), v, P(e))


def t_abs(t):
    if t.is_const:
        return const(abs(t.const))
    lead = min(t.t.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]) if mc[0] else ((1 << 60,),))[1]
    if lead < 0:
        t = neg(t)
    return P(N_("fn1", t, "abs"))


SMART["fn1"] = lambda t, f: t_abs(P(t)) if f == "abs" else P(N_("fn1", P(t), f))


def t_comm(op, a, b):
    def k(p):
        return repr(sorted_key(p))
    if k(a) > k(b):
        a, b = b, a
    return P(N_(op, a, b))


class ExtMixin:
    # ------------------------------------------------------------ entry points
    def lift_args(self, st, args, kwargs, f):
        for i, a in enumerate(args):
            if isinstance(a, U):
                return self.ip.lift(st, a, lambda s, x: self.lift_args(s, args[:i] + [x] + args[i + 1:], kwargs, f))
        for k, a in kwargs.items():
            if isinstance(a, U):
                return self.ip.lift(st, a, lambda s, x: self.lift_args(s, args, {**kwargs, k: x}, f))
        return f(st, args, kwargs)

    def call_ext(self, st, path, args, kwargs):
        args = [self.ip.one(st, a) if isinstance(a, V) else a for a in args]
        args = [a[1] if isinstance(a, tuple) else a for a in args]
        kwargs = {k: self.ip.one(st, a) for k, a in kwargs.items()}
        leaf = path.split(".")[-1]
        if path in ("builtins.isinstance", "builtins.print", "builtins.len", "builtins.tuple", "builtins.list",
                    "builtins.bool", "builtins.hasattr", "builtins.callable", "builtins.type", "builtins.str",
                    "builtins.repr", "warnings.warn", "builtins.id"):
            return self._call_ext(st, path, leaf, args, kwargs)
        return self.lift_args(st, args, kwargs, lambda s, a, k: self._call_ext(s, path, leaf, list(a), dict(k)))

    def _call_ext(self, st, path, leaf, args, kwargs):
        root = path.split(".")[0]
        if root == "builtins":
            f = getattr(self, "b_" + leaf, None)
            if f is not None:
                return f(st, args, kwargs)
            if leaf in EXCEPTIONS:
                return S(N_("exc"))
            return self.ip.opaque(st, "builtin " + leaf, *args)
        if root in ("math", "cmath"):
            return self.math_fn(st, leaf, args)
        if path.startswith("numpy.random") or root in ("random", "secrets"):
            self.ip.event("rng", st, fn=path, generator=None, site=self.ip.site())
            if leaf in ("seed", "set_state", "default_rng", "RandomState"):
                return S(N_("rngobj", self.ip.site()), "rng")
            r = P(N_("rng", leaf, self.ip.site(), None))
            return self.fresh(st, r, "np") if path.startswith("numpy") else N(r)
        if root in ("time", "uuid", "datetime") or path in ("os.urandom", "os.getpid", "os.environ.get", "os.getenv"):
            self.ip.event("rng", st, fn=path, generator=None, site=self.ip.site())
            return N(P(N_("rng", leaf, self.ip.site(), None)))
        if path.startswith("torch.nn.functional"):
            return self.nn_fn(st, leaf, args, kwargs)
        if path.startswith("torch.nn"):
            return self.nn_new(st, path, leaf, args, kwargs)
        if root == "torch":
            return self.torch_fn(st, path, leaf, args, kwargs)
        if root == "numpy":
            return self.np_fn(st, path, leaf, args, kwargs)
        if root == "functools":
            return self.functools_fn(st, leaf, args, kwargs)
        if root == "itertools":
            return self.itertools_fn(st, leaf, args, kwargs)
        if root == "operator":
            return self.operator_fn(st, leaf, args, kwargs)
        if root == "warnings":
            return NONE if leaf != "catch_warnings" else S(N_("warnctx"))
        if root == "collections":
            if leaf in ("OrderedDict", "defaultdict", "Counter"):
                return self.b_dict(st, args[1:] if leaf == "defaultdict" else args, kwargs)
            if leaf == "deque":
                return self.b_list(st, args[:1], {})
        if root == "copy":
            v = args[0]
            if leaf == "copy":
                return self.shallow_copy(st, v)
            return self.deep_copy(st, v)
        if root in ("typing", "abc", "enum", "dataclasses"):
            if leaf in ("cast",):
                return args[1]
            return args[0] if args and isinstance(args[0], (FN, CLS)) else S(N_("ext", path))
        if root == "contextlib":
            return S(N_("ctx"))
        return self.ip.opaque(st, "call of " + path, *args, *kwargs.values())

    def shallow_copy(self, st, v):
        if isinstance(v, LST):
            r = st.heap[v.oid]
            return LST(self.ip.alloc(st, "list", c=r.c, arr=r.arr))
        if isinstance(v, DCT):
            r = st.heap[v.oid]
            return DCT(self.ip.alloc(st, "dict", k=dict(r.k), isset=r.isset))
        if isinstance(v, INST):
            r = st.heap[v.oid]
            return INST(self.ip.alloc(st, "inst", cls=r.cls, attrs=dict(r.attrs)))
        if isinstance(v, T):
            return self.fresh(st, self.cell_term(st, v.oid), st.heap[v.oid].lib)
        return v

    def deep_copy(self, st, v, memo=None):
        memo = {} if memo is None else memo
        if v in memo:
            return memo[v]
        if isinstance(v, LST):
            r = st.heap[v.oid]
            n = LST(self.ip.alloc(st, "list", c=TUP(()), arr=r.arr))
            memo[v] = n
            st.heap[n.oid] = st.heap[n.oid].set(c=self.deep_copy(st, r.c, memo))
            return n
        if isinstance(v, DCT):
            r = st.heap[v.oid]
            return DCT(self.ip.alloc(st, "dict", k={k: self.deep_copy(st, x, memo) for k, x in r.k.items()}, isset=r.isset))
        if isinstance(v, INST):
            r = st.heap[v.oid]
            n = INST(self.ip.alloc(st, "inst", cls=r.cls, attrs={}))
            memo[v] = n
            st.heap[n.oid] = st.heap[n.oid].set(attrs={k: self.deep_copy(st, x, memo) for k, x in r.attrs.items()})
            return n
        if isinstance(v, XI):
            r = st.heap[v.oid]
            n = XI(self.ip.alloc(st, "xinst", path=r.path, attrs={}, items_=None, cfg=r.cfg))
            memo[v] = n
            st.heap[n.oid] = st.heap[n.oid].set(
                attrs={k: self.deep_copy(st, x, memo) for k, x in r.attrs.items()},
                items_=None if r.items_ is None else {k: self.deep_copy(st, x, memo) for k, x in r.items_.items()})
            return n
        if isinstance(v, T):
            return self.fresh(st, self.cell_term(st, v.oid), st.heap[v.oid].lib)
        if isinstance(v, TUP):
            return TUP(tuple(self.deep_copy(st, x, memo) for x in v.items), v.names)
        if isinstance(v, NDS):
            return NDS(v.kind, tuple(self.deep_copy(st, x, memo) for x in v.items), v.item_ndim)
        return v

    # ------------------------------------------------------------ builtins
    def b_len(self, st, a, k):
        v = self.ip.one(st, a[0])
        if isinstance(v, U):
            return self.ip.lift(st, v, lambda s, x: self.b_len(s, [x], k))
        if isinstance(v, LST):
            v = self.content(st, v)
            if isinstance(v, U):
                return self.b_len(st, [v], k)
        if isinstance(v, (TUP, IT)):
            return num(len(v.items))
        if isinstance(v, SQ):
            return N(v.len, "int")
        if isinstance(v, DCT):
            return num(len(st.heap[v.oid].k))
        if isinstance(v, K) and isinstance(v.v, str):
            return num(len(v.v))
        if isinstance(v, NDS):
            return num(0 if v.kind == "item" else len(v.items))
        if isinstance(v, T):
            t = self.cell_term(st, v.oid)
            if self.rank_of(t) == ZERO:
                self.ip.do_raise(st, "TypeError", True)
            return N(self.dim_of(t, ZERO), "int")
        if isinstance(v, RNG):
            return N(self.rng_sq(st, v).len, "int")
        if isinstance(v, XI) and st.heap[v.oid].items_ is not None:
            return num(len(st.heap[v.oid].items_))
        if isinstance(v, INST):
            f = self.ip.class_lookup(st, st.heap[v.oid].cls, "__len__")
            if f is not None:
                return self.ip.call_fn(st, f, [v], {})
            self.ip.do_raise(st, "TypeError", True)
        if v == NONE:
            self.ip.event("none-op", st, op="len")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(v, (N, B, K, FN)):
            self.ip.do_raise(st, "TypeError", True)
        n = self.ip.freeze(st, v)
        return N(P(N_("len", n)), "int")

    def b_range(self, st, a, k):
        ps = [self.num(st, x) for x in a]
        if len(ps) == 1:
            return RNG(ZERO, ps[0], ONE)
        if len(ps) == 2:
            return RNG(ps[0], ps[1], ONE)
        return RNG(*ps)

    def b_enumerate(self, st, a, k):
        start = self.num(st, a[1]) if len(a) > 1 else self.num(st, k["start"]) if "start" in k else ZERO
        kind, it = self.iterate(st, a[0])
        if kind == "known":
            return IT(tuple(TUP((N(add(start, const(i)), "int"), x)) for i, x in enumerate(it)))
        ix = lambda i: N(add(start, i), "int")
        return SQ(it.len, it.var, TUP((ix(P(it.var)), it.elem)), tuple((i, TUP((ix(i), v))) for i, v in it.over))

    def b_zip(self, st, a, k):
        its = [self.iterate(st, x) for x in a]
        if not its:
            return IT(())
        if all(kk == "known" for kk, _ in its):
            return IT(tuple(TUP(t) for t in zip(*[x for _, x in its])))
        n = min([len(x) for kk, x in its if kk == "known"], default=None)
        if n is not None:
            sl = [x.len for kk, x in its if kk == "sym"]
            if all(self.ip.decide(st, ge0(sub(l, const(n)))) is True for l in sl) or True:
                if not all(self.ip.decide(st, ge0(sub(l, const(n)))) is True for l in sl):
                    self.ip.note_undecided(st, "zip of sequences whose lengths are not comparable")
                cols = [x[:n] if kk == "known" else [self.sq_get(st, x, const(i)) for i in range(n)] for kk, x in its]
                return IT(tuple(TUP(t) for t in zip(*cols)))
        sqs = [x for _, x in its]
        L = sqs[0].len
        for s in sqs[1:]:
            if s.len != L:
                L = minmax("min", [L, s.len])
        var = sqs[0].var
        idx = []
        for s in sqs:
            for i, _ in s.over:
                if i not in idx:
                    idx.append(i)
        el = TUP(tuple(subst_v_(s.elem, {s.var: P(var)}) for s in sqs))
        return SQ(L, var, el, tuple((i, TUP(tuple(self.sq_get(st, s, i) for s in sqs))) for i in idx))

    def b_map(self, st, a, k):
        f = a[0]
        if len(a) > 2:
            z = self.b_zip(st, a[1:], {})
            if isinstance(z, IT):
                return IT(tuple(self.ip.call(st, f, list(t.items), {}) for t in z.items))
            return SQ(z.len, z.var, self.ip.call(st, f, list(z.elem.items), {}),
                      tuple((i, self.ip.call(st, f, list(v.items), {})) for i, v in z.over))
        kind, it = self.iterate(st, a[1])
        if kind == "known":
            return IT(tuple(self.ip.call(st, f, [x], {}) for x in it))
        return SQ(it.len, it.var, self.ip.call(st, f, [it.elem], {}),
                  tuple((i, self.ip.call(st, f, [v], {})) for i, v in it.over))

    def b_filter(self, st, a, k):
        kind, it = self.iterate(st, a[1])
        if kind == "known":
            out = []
            for x in it:
                c = self.truth(st, self.ip.call(st, a[0], [x], {}) if a[0] != NONE else x)
                d = self.ip.decide(st, c)
                if d is None:
                    break
                if d:
                    out.append(x)
            else:
                return IT(tuple(out))
        return self.ip.opaque(st, "filter", *a)

    def b_list(self, st, a, k):
        if not a:
            return self.ip.lst(st, ())
        v = self.ip.one(st, a[0])
        if isinstance(v, U):
            return self.ip.lift(st, v, lambda s, x: self.b_list(s, [x], k))
        kind, it = self.iterate(st, v)
        return self.ip.lst(st, TUP(tuple(it)) if kind == "known" else it)

    def b_tuple(self, st, a, k):
        if not a:
            return TUP(())
        v = self.ip.one(st, a[0])
        if isinstance(v, U):
            return self.ip.lift(st, v, lambda s, x: self.b_tuple(s, [x], k))
        if isinstance(v, LST):
            c = self.content(st, v)
            if isinstance(c, U):
                return c
        kind, it = self.iterate(st, v)
        return TUP(tuple(it)) if kind == "known" else it

    def b_set(self, st, a, k):
        if not a:
            return self.make_set(st, TUP(()))
        kind, it = self.iterate(st, a[0])
        if kind == "known":
            return self.make_set(st, TUP(tuple(it)))
        return self.ip.opaque(st, "set of a symbolic sequence", *a)

    b_frozenset = b_set

    def b_dict(self, st, a, k):
        d = {}
        if a:
            v = a[0]
            if isinstance(v, DCT):
                d.update(st.heap[v.oid].k)
            else:
                kind, it = self.iterate(st, v)
                if kind != "known":
                    return self.ip.opaque(st, "dict of a symbolic sequence", *a)
                for x in it:
                    kk = self.iterate(st, x, 2)[1]
                    d[self.dkey(st, kk[0])] = kk[1]
        for n, v in k.items():
            d[K(n)] = v
        return self.ip.dct(st, d)

    def b_iter(self, st, a, k):
        kind, it = self.iterate(st, a[0])
        return IT(tuple(it)) if kind == "known" else it

    def b_next(self, st, a, k):
        v = a[0]
        if isinstance(v, IT):
            if v.items:
                return v.items[0]
            if len(a) > 1:
                return a[1]
            self.ip.do_raise(st, "StopIteration", True)
        if isinstance(v, SQ):
            return self.sq_get(st, v, ZERO)
        return self.ip.opaque(st, "next", *a)

    def b_reversed(self, st, a, k):
        kind, it = self.iterate(st, a[0])
        if kind == "known":
            return IT(tuple(reversed(it)))
        return self.sq_slice(st, it, SLC(NONE, NONE, num(-1)))

    def order(self, st, ps):
        """permutation sorting the polys ps, when the facts decide it"""
        import functools
        bad = []

        def cmp(i, j):
            d = sub(ps[i], ps[j])
            if d == ZERO:
                return i - j
            if d.is_const:
                return -1 if d.const < 0 else 1
            if self.ip.decide(st, gt0(d)) is True:
                return 1
            if self.ip.decide(st, gt0(neg(d))) is True:
                return -1
            bad.append(1)
            return 0
        r = sorted(range(len(ps)), key=functools.cmp_to_key(cmp))
        return None if bad else r

    def korder(self, st, keys, rev=False):
        """positions of the keys in ascending order, or None when the order is not known"""
        if all(isinstance(x, N) for x in keys):
            return self.order(st, [neg(x.p) if rev else x.p for x in keys])

        def py(v):
            if isinstance(v, N) and v.p.is_const:
                return v.p.const
            if isinstance(v, K) and isinstance(v.v, (str, bool)):
                return v.v
            if isinstance(v, TUP):
                return tuple(py(x) for x in v.items)
            raise TypeError
        try:
            ks = [py(x) for x in keys]
            return sorted(range(len(ks)), key=ks.__getitem__, reverse=rev)
        except TypeError:
            pass
        if all(isinstance(x, TUP) and x.items and all(isinstance(q, N) for q in x.items) for x in keys):
            o = self.order(st, [neg(x.items[0].p) if rev else x.items[0].p for x in keys])
            if o is not None and all(self.ip.decide(st, eq0(sub(keys[i].items[0].p, keys[j].items[0].p))) is False for i, j in zip(o, o[1:])):
                return o
        return None

    def b_sorted(self, st, a, k):
        kind, it = self.iterate(st, a[0])
        rev = self.truth(st, k.get("reverse", FALSE))
        if kind == "known":
            keys = it
            if k.get("key", NONE) != NONE:
                keys = [self.ip.call(st, k["key"], [x], {}) for x in it]
            if it:
                o = self.korder(st, keys, rev is True)
                if o is not None:
                    return self.ip.lst(st, [it[i] for i in o])
            if all(isinstance(x, K) and isinstance(x.v, str) for x in keys):
                return self.ip.lst(st, [it[i] for i in sorted(range(len(it)), key=lambda i: keys[i].v, reverse=rev is True)])
            n = N_("sorted", self.ip.freeze(st, TUP(tuple(it))))
            self.ip.note_undecided(st, "sorted of undecided order")
            return self.ip.lst(st, [S(N_("item", n, const(i))) if not isinstance(x, N) else N(P(N_("item", n, const(i), "int")), "int") for i, x in enumerate(it)])
        return self.ip.opaque(st, "sorted", *a)

    def _minmax(self, st, a, k, op):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, T):
                return self.tensor_op(st, op, [v], {}, st.heap[v.oid].lib)
            kind, it = self.iterate(st, v)
            if kind != "known":
                if isinstance(it, SQ) and isinstance(it.elem, N):
                    return N(P(N_("vmm", op, it.len, it.var, it.elem.p)), it.elem.ty)
                return self.ip.opaque(st, op + " of a symbolic sequence", *a)
            if not it:
                if "default" in k:
                    return k["default"]
                self.ip.do_raise(st, "ValueError", True)
            a = it
        if "key" in k and k["key"] != NONE:
            ks = [self.ip.call(st, k["key"], [x], {}) for x in a]
            if ks:
                o = self.korder(st, ks)
                if o is not None:
                    return a[o[0] if op == "min" else o[-1]]
            return self.ip.opaque(st, op + " with key", *a)
        if any(x == NONE for x in a):
            self.ip.event("none-op", st, op=op)
            self.ip.do_raise(st, "TypeError", True)
        if a and all(isinstance(x, (TUP, K)) for x in a):
            o = self.korder(st, a)
            if o is not None:
                return a[o[0] if op == "min" else o[-1]]
        if any(isinstance(x, U) for x in a):
            return self.lift_args(st, list(a), {}, lambda s, aa, kk: self._minmax(s, aa, {}, op))
        if any(isinstance(x, T) for x in a):
            r = a[0]
            for x in a[1:]:
                r = self.fresh(st, t_comm("t" + op, self.term(st, r), self.term(st, x)))
            return r
        if any(isinstance(x, TUP) for x in a):
            return self.ip.opaque(st, op + " of tuples", *a)
        ps = [self.num(st, x) for x in a]
        tys = set(getattr(x, "ty", None) for x in a)
        r = minmax(op, ps)
        # use the facts to drop dominated arguments
        at = r.as_atom()
        if at is not None and at.op == op:
            keep = list(at.args)
            for x in list(keep):
                for y in keep:
                    if x is not y:
                        c = ge0(sub(x, y)) if op == "min" else ge0(sub(y, x))
                        if self.ip.decide(st, c) is True:
                            keep.remove(x)
                            break
                if len(keep) == 1:
                    break
            r = minmax(op, keep)
        return N(r, "int" if all(is_int(p) for p in ps) else tys.pop() if len(tys) == 1 else None)

    def b_min(self, st, a, k):
        return self._minmax(st, a, k, "min")

    def b_max(self, st, a, k):
        return self._minmax(st, a, k, "max")

    def b_sum(self, st, a, k):
        start = a[1] if len(a) > 1 else k.get("start", num(0))
        v = a[0]
        if isinstance(v, T):
            kind, it = "sym", None
            r = self.iterate(st, v)
            kind, it = r
        else:
            kind, it = self.iterate(st, v)
        import ast
        if kind == "known":
            r = start
            for x in it:
                r = self.binop(st, ast.Add(), r, x)
            return r
        if isinstance(it.elem, N) or isinstance(it.elem, (B, K)):
            return self.binop(st, ast.Add(), start, self.vsum(st, it))
        return self.ip.opaque(st, "sum of a symbolic sequence", *a)

    def vsum(self, st, c):
        if isinstance(c, TUP):
            r = ZERO
            for x in c.items:
                r = add(r, self.term(st, x))
            return N(r, "int" if all(getattr(x, "ty", None) == "int" for x in c.items) else None)
        el = self.term(st, c.elem)
        r = sum_normal(c.len, c.var, el)
        for i, v in c.over:
            r = add(r, sub(self.term(st, v), P(subst(el, {c.var: i}))))
        return N(r, getattr(c.elem, "ty", None))

    def b_abs(self, st, a, k):
        v = a[0]
        if isinstance(v, T):
            return self.tensor_op(st, "abs", [v], {}, st.heap[v.oid].lib)
        if isinstance(v, LST):
            return self.vec_map(st, v, lambda s, x: self.b_abs(s, [x], {}))
        p = self.num(st, v)
        if self.ip.decide(st, ge0(p)) is True:
            return v
        if p.is_const:
            return N(const(abs(p.const)), getattr(v, "ty", None))
        return N(P(N_("math", "abs", p)), getattr(v, "ty", None))

    def b_round(self, st, a, k):
        if isinstance(a[0], T):
            return self.tensor_op(st, "round", a, {}, "torch")
        p = self.num(st, a[0])
        if len(a) == 1:
            if is_int(p):
                return N(p, "int")
            if p.is_const:
                return num(round(p.const))
            return N(P(N_("round", p)), "int")
        return N(P(N_("round", p, self.num(st, a[1]))), "float")

    def b_pow(self, st, a, k):
        import ast
        return self.binop(st, ast.Pow(), a[0], a[1])

    def b_divmod(self, st, a, k):
        import ast
        return TUP((self.binop(st, ast.FloorDiv(), a[0], a[1]), self.binop(st, ast.Mod(), a[0], a[1])))

    def b_int(self, st, a, k):
        if not a:
            return num(0)
        v = a[0]
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return num(int(v.v))
            if isinstance(v.v, str):
                try:
                    return num(int(v.v))
                except ValueError:
                    self.ip.do_raise(st, "ValueError", True)
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(v, B):
            return N(P(N_("pred", v.c)), "int")
        if isinstance(v, N):
            if v.ty == "int" or is_int(v.p):
                return N(v.p, "int")
            if v.p.is_const:
                return num(int(v.p.const))
            return N(P(N_("trunc", v.p)), "int")
        if isinstance(v, T):
            return N(P(N_("item_", self.cell_term(st, v.oid))), "int")
        if isinstance(v, S):
            if v.ty == "str":
                return N(P(N_("argint", v.n)), "int")
            self.ip.may_raise(st, "TypeError", N_("pred", "notint", v.n))
            return N(P(N_("argint", v.n)), "int")
        if isinstance(v, INST):
            return self.ip.opaque(st, "int of an object")
        self.ip.do_raise(st, "TypeError", True)

    def b_float(self, st, a, k):
        if not a:
            return num(0.0)
        v = a[0]
        if isinstance(v, K):
            if isinstance(v.v, bool):
                return num(float(v.v))
            if isinstance(v.v, str):
                try:
                    return N(const(float(v.v)), "float")
                except ValueError:
                    self.ip.do_raise(st, "ValueError", True)
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(v, N):
            return N(v.p, "float")
        if isinstance(v, T):
            return N(P(N_("item_", self.cell_term(st, v.oid))), "float")
        if isinstance(v, S):
            return N(P(v.n), "float")
        if isinstance(v, B):
            return N(P(N_("pred", v.c)), "float")
        self.ip.do_raise(st, "TypeError", True)

    def b_bool(self, st, a, k):
        return boolv(self.truth(st, a[0])) if a else FALSE

    def b_str(self, st, a, k):
        if not a:
            return K("")
        v = self.ip.one(st, a[0])
        if isinstance(v, K):
            return K(str(v.v))
        if isinstance(v, N) and v.p.as_int() is not None and v.ty == "int":
            return K(str(v.p.as_int()))
        return S(N_("str", self.ip.freeze(st, v)), "str")

    def b_repr(self, st, a, k):
        v = a[0]
        if isinstance(v, K) and isinstance(v.v, str):
            return K(repr(v.v))
        return self.b_str(st, a, k)

    def b_print(self, st, a, k):
        return NONE

    def b_slice(self, st, a, k):
        a = [x for x in a]
        if len(a) == 1:
            return SLC(NONE, a[0], NONE)
        if len(a) == 2:
            return SLC(a[0], a[1], NONE)
        return SLC(*a)

    def b_any(self, st, a, k):
        return self._anyall(st, a, "any")

    def b_all(self, st, a, k):
        return self._anyall(st, a, "all")

    def _anyall(self, st, a, op):
        v = a[0]
        if isinstance(v, T):
            return self.tensor_op(st, op, [v], {}, st.heap[v.oid].lib)
        kind, it = self.iterate(st, v)
        f = and_ if op == "all" else or_
        if kind == "known":
            return boolv(f(*[self.truth(st, x) for x in it]))
        cs = [self.truth(st, it.elem)] if not isinstance(it.elem, S) else [N_("truthy", it.elem.n)]
        c = cs[0]
        if isinstance(c, bool):
            base = c if op == "all" else c
            if (op == "all" and c) or (op == "any" and not c):
                r = c
            else:
                r = not_(gt0(it.len)) if op == "all" else gt0(it.len)
        else:
            s2 = st.clone()
            s2.assume(ge0(P(it.var)))
            s2.assume(gt0(sub(it.len, P(it.var))))
            d = self.ip.decide(s2, c)
            if d is True and op == "all":
                r = True
            elif d is False and op == "any":
                r = False
            else:
                r = N_(op, it.len, it.var, c, tuple(i for i, _ in it.over))
        return boolv(f(r, *[self.truth(st, x) for _, x in it.over]))

    def b_isinstance(self, st, a, k):
        return boolv(self.isinst(st, a[0], a[1]))

    def isinst(self, st, v, c):
        v = self.ip.one(st, v)
        if isinstance(v, U):
            return or_(*[and_(cc, self.isinst(st, x, c)) for cc, x in v.alts])
        if isinstance(c, (TUP, LST)):
            return or_(*[self.isinst(st, v, x) for x in self.as_seq(st, c).items])
        if isinstance(c, BM) or isinstance(c, S):
            return N_("pred", "isinst", self.ip.freeze(st, v), self.ip.freeze(st, c))
        if isinstance(c, CLS):
            if isinstance(v, INST):
                mro, _ = self.ip.class_mro(st, st.heap[v.oid].cls)
                return c in mro
            if isinstance(v, NDS):
                return c == self.nds_cls
            if isinstance(v, S) and v.ty is None:
                return N_("isinst", v.n, st.heap[c.oid].name)
            return False
        if not isinstance(c, EXT):
            return N_("pred", "isinst", self.ip.freeze(st, v), self.ip.freeze(st, c))
        leaf = c.path.split(".")[-1]
        if c.path == "builtins.object":
            return True
        if isinstance(v, S):
            known = {"str": "str", "dtype": "dtype", "device": "device", "generator": "Generator", "seq": "list"}
            if v.ty in known:
                return known[v.ty] == leaf
            if v.ty == "callable":
                return leaf in ("Callable", "FunctionType")
            return N_("isinst", v.n, leaf)
        if isinstance(v, INST):
            return c.path in self.ip.class_mro(st, st.heap[v.oid].cls)[1] or (
                leaf == "Module" and self.ip.is_module(st, st.heap[v.oid].cls))
        if isinstance(v, XI):
            return leaf == "Module" or st.heap[v.oid].path.split(".")[-1] == leaf
        if isinstance(v, T):
            lib = st.heap[v.oid].lib
            if leaf in ("Tensor", "FloatTensor"):
                return lib == "torch"
            if leaf == "ndarray":
                return lib == "np"
            if leaf == "Parameter":
                return N_("pred", "isparam", v.oid)
            return False
        if isinstance(v, LST):
            if st.heap[v.oid].arr:
                return leaf == "ndarray"
            return leaf in ("list", "Sequence", "Iterable", "Collection", "Sized", "MutableSequence")
        if isinstance(v, (TUP, SQ)):
            return leaf in ("tuple", "Sequence", "Iterable", "Collection", "Sized") or leaf == "Size" and \
                isinstance(v, SQ) and v.kind == "size"
        if isinstance(v, DCT):
            return leaf == ("set" if st.heap[v.oid].isset else "dict") or leaf in ("Mapping", "Iterable", "Collection", "Sized")
        if isinstance(v, K):
            if v.v is None:
                return leaf == "NoneType"
            if isinstance(v.v, bool):
                return leaf in ("bool", "int", "Number", "Integral", "Real")
            if isinstance(v.v, str):
                return leaf in ("str", "Sequence", "Iterable", "Collection", "Sized")
            return False
        if isinstance(v, B):
            return leaf in ("bool", "int", "Number", "Integral", "Real")
        if isinstance(v, N):
            if leaf in ("Number", "Real"):
                return True
            if leaf in ("int", "Integral", "float", "integer", "floating"):
                ty = v.ty or ("int" if is_int(v.p) else None)
                if ty is None:
                    return N_("isinst", v.p, leaf)
                if leaf in ("integer", "floating"):
                    return False
                return (leaf in ("int", "Integral")) == (ty == "int") if leaf != "float" else ty == "float"
            if leaf in ("number", "generic"):
                return False
            return False
        if isinstance(v, SLC):
            return leaf == "slice"
        if isinstance(v, RNG):
            return leaf in ("range", "Sequence", "Iterable", "Collection", "Sized")
        if isinstance(v, (FN, BM)):
            return leaf in ("FunctionType", "Callable", "LambdaType", "MethodType")
        if isinstance(v, CLS):
            return leaf == "type"
        return False

    def b_issubclass(self, st, a, k):
        if isinstance(a[0], CLS):
            mro, ext = self.ip.class_mro(st, a[0])
            cs = self.as_seq(st, a[1]).items if isinstance(a[1], (TUP, LST)) else [a[1]]
            return K(any(c in mro or isinstance(c, EXT) and (c.path in ext or c.path == "builtins.object") for c in cs))
        return self.ip.opaque(st, "issubclass", *a)

    def b_hasattr(self, st, a, k):
        v, n = self.ip.one(st, a[0]), a[1].v if isinstance(a[1], K) else None
        if isinstance(v, U):
            return boolv(or_(*[and_(c, self.truth(st, self.b_hasattr(st, [x, a[1]], k))) for c, x in v.alts]))
        if n is None:
            return B(N_("pred", "hasattr", self.ip.freeze(st, v)))
        seqm = {"__len__", "__iter__", "__getitem__", "__contains__", "index", "count"}
        if isinstance(v, INST):
            r = st.heap[v.oid]
            if n in r.attrs:
                return TRUE if r.attrs[n] != K("<missing>") else B(N_("pred", "hasattr", v.oid, n))
            return K(self.ip.class_lookup(st, r.cls, n) is not None)
        if isinstance(v, MOD):
            return K(self.ip.modattr(st, v.name, n) is not None)
        if isinstance(v, CLS):
            return K(self.ip.class_lookup(st, v, n) is not None)
        if isinstance(v, (T,)) or isinstance(v, LST) and st.heap[v.oid].arr:
            return K(n in {"__array__", "__len__", "__iter__", "__getitem__", "shape", "dtype", "ndim", "tolist",
                           "__index__", "__float__", "__int__", "sum", "mean", "size"} or
                     (isinstance(v, T) and st.heap[v.oid].lib == "torch" and n in ("device", "numpy", "unfold", "requires_grad")))
        if isinstance(v, (TUP, SQ)):
            return K(n in seqm or bool(isinstance(v, TUP) and v.names and n in v.names))
        if isinstance(v, LST):
            return K(n in seqm | {"append", "extend", "insert", "pop"})
        if isinstance(v, DCT):
            return K(n in {"__len__", "__iter__", "__contains__"} | (set() if st.heap[v.oid].isset else {"keys", "items", "__getitem__", "get"}))
        if isinstance(v, K) and isinstance(v.v, str):
            return K(hasattr("", n))
        if isinstance(v, K):
            return K(hasattr(v.v, n))
        if isinstance(v, N):
            ty = v.ty or ("int" if is_int(v.p) else None)
            if ty:
                return K(hasattr(0 if ty == "int" else 0.0, n))
            if hasattr(0, n) == hasattr(0.0, n):
                return K(hasattr(0, n))
        if isinstance(v, NDS):
            return K(n in {"__len__", "__getitem__", "__iter__", "data", "shape", "map"})
        if isinstance(v, (FN, BM)):
            return K(n in ("__call__", "__name__"))
        if isinstance(v, (SLC, RNG)):
            return K(hasattr(slice(0) if isinstance(v, SLC) else range(0), n))
        return B(N_("pred", "hasattr", self.ip.freeze(st, v), n))

    def b_getattr(self, st, a, k):
        if isinstance(a[1], K) and isinstance(a[1].v, str):
            if len(a) > 2:
                h = self.truth(st, self.b_hasattr(st, a[:2], {}))
                return self.ip.fork(st, h, lambda s: self.ip.getattr(s, a[0], a[1].v), lambda s: a[2])
            return self.ip.getattr(st, a[0], a[1].v)
        if isinstance(a[1], S) and isinstance(a[0], EXT):
            return S(N_("extattr", a[0].path, a[1].n))
        return self.ip.opaque(st, "getattr", *a)

    def b_setattr(self, st, a, k):
        if isinstance(a[1], K) and isinstance(a[1].v, str):
            self.ip.setattr(st, a[0], a[1].v, a[2])
            return NONE
        return self.ip.opaque(st, "setattr", *a)

    def b_callable(self, st, a, k):
        return boolv(self.is_callable(st, a[0]))

    def is_callable(self, st, v):
        v = self.ip.one(st, v)
        if isinstance(v, U):
            return or_(*[and_(c, self.is_callable(st, x)) for c, x in v.alts])
        if isinstance(v, (FN, BM, CLS, EXT, XM, XI)):
            return True
        if isinstance(v, INST):
            return self.ip.class_lookup(st, st.heap[v.oid].cls, "__call__") is not None or \
                self.ip.is_module(st, st.heap[v.oid].cls)
        if isinstance(v, S):
            if v.ty == "callable":
                return True
            if v.ty is not None:
                return False
            return N_("iscallable", v.n)
        return False

    def b_type(self, st, a, k):
        v = self.ip.one(st, a[0])
        if isinstance(v, INST):
            return st.heap[v.oid].cls
        if isinstance(v, NDS) and self.nds_cls is not None:
            return self.nds_cls
        t = {TUP: "tuple", DCT: "dict", SLC: "slice", RNG: "range"}.get(type(v))
        if isinstance(v, LST) and not st.heap[v.oid].arr:
            t = "list"
        if isinstance(v, K):
            t = type(v.v).__name__
        if isinstance(v, N):
            t = v.ty or ("int" if is_int(v.p) else None)
        if t:
            return EXT("builtins." + t)
        return S(N_("typeof", self.ip.freeze(st, v)))

    def b_id(self, st, a, k):
        return N(P(N_("id", self.ip.freeze(st, a[0]))), "int")

    b_hash = b_id

    def b_object(self, st, a, k):
        return S(N_("object", self.ip.site()))

    def b_property(self, st, a, k):
        f = a[0]
        return self.ip.redeco(f, ["property"]) if isinstance(f, FN) else self.ip.opaque(st, "property")

    def b_staticmethod(self, st, a, k):
        f = a[0]
        return self.ip.redeco(f, ["staticmethod"]) if isinstance(f, FN) else f

    def b_classmethod(self, st, a, k):
        f = a[0]
        return self.ip.redeco(f, ["classmethod"]) if isinstance(f, FN) else f

    def b_vars(self, st, a, k):
        return self.ip.getattr(st, a[0], "__dict__")

    # ------------------------------------------------------------ math / functools / itertools / operator
    def math_fn(self, st, leaf, args):
        v = args[0] if args else NONE
        if leaf == "prod":
            return self.np_prod(st, v)
        if leaf in ("isclose",):
            return B(N_("pred", leaf, *[self.ip.freeze(st, x) for x in args]))
        for x in args:
            if x == NONE:
                self.ip.event("none-op", st, op=leaf)
                self.ip.do_raise(st, "TypeError", True)
            if isinstance(x, (TUP, LST, DCT)) or isinstance(x, K) and isinstance(x.v, str):
                self.ip.do_raise(st, "TypeError", True)
        if isinstance(v, T):
            v = N(P(N_("item_", self.cell_term(st, v.oid))))
        p = self.num(st, v)
        return self.scalar_fn(st, leaf, p, [self.num(st, x) for x in args[1:]])

    def scalar_fn(self, st, leaf, p, rest=()):
        if leaf == "ceil":
            return N(ceil_(p), "int")
        if leaf == "floor":
            return N(floor_(p), "int")
        if leaf in ("trunc", "fix"):
            return N(p, "int") if is_int(p) else N(P(N_("trunc", p)), "int")
        if leaf == "sqrt":
            return N(pow_(p, const(1) if False else div(ONE, const(2))), "float")
        if leaf in ("pow", "power"):
            return N(pow_(p, rest[0]), "float")
        if leaf in ("fabs", "abs", "absolute"):
            return self.b_abs(st, [N(p)], {})
        if leaf == "gcd" and p.as_int() is not None and rest[0].as_int() is not None:
            return num(math.gcd(p.as_int(), rest[0].as_int()))
        if leaf in ("isnan", "isinf"):
            return B(N_("pred", leaf, p)) if not p.is_const else FALSE
        if p.is_const and not rest and leaf in ("log10", "log2", "log", "exp", "sin", "cos", "atan", "degrees", "tan"):
            try:
                return N(const(getattr(math, leaf)(float(p.const))), "float")
            except (ValueError, OverflowError):
                pass
        if leaf == "square":
            return N(powi(p, 2))
        return N(P(N_("math", leaf, p, *rest)), "float")

    def functools_fn(self, st, leaf, args, kwargs):
        if leaf == "reduce":
            f = args[0]
            kind, it = self.iterate(st, args[1])
            if kind != "known":
                return self.ip.opaque(st, "reduce over a symbolic sequence", *args[1:])
            if len(args) > 2:
                it = [args[2]] + it
            if not it:
                self.ip.do_raise(st, "TypeError", True)
            r = it[0]
            for x in it[1:]:
                r = self.ip.call(st, f, [r, x], {})
            return r
        if leaf == "partial":
            return PARTIAL(args[0], tuple(args[1:]), tuple(kwargs.items()))
        if leaf in ("lru_cache", "cache"):
            if args and isinstance(args[0], FN):
                self.ip.event("memo", st, fn=args[0].qual)
                return args[0]
            return S(N_("deco"), "passdeco")
        if leaf in ("wraps", "update_wrapper"):
            return S(N_("deco"), "passdeco")
        return self.ip.opaque(st, "functools." + leaf, *args)

    def itertools_fn(self, st, leaf, args, kwargs):
        import itertools
        its = [self.iterate(st, a) for a in args if not isinstance(a, N)]
        if all(k == "known" for k, _ in its):
            L = [x for _, x in its]
            if leaf == "product":
                rep = kwargs.get("repeat")
                n = rep.p.as_int() if rep is not None else 1
                if n is not None:
                    return IT(tuple(TUP(t) for t in itertools.product(*(L * n))))
            if leaf == "chain":
                return IT(tuple(x for l in L for x in l))
            if leaf in ("permutations", "combinations", "combinations_with_replacement"):
                n = [a for a in args if isinstance(a, N)]
                r = n[0].p.as_int() if n else len(L[0])
                if r is not None:
                    return IT(tuple(TUP(t) for t in getattr(itertools, leaf)(L[0], r)))
            if leaf == "zip_longest":
                fv = kwargs.get("fillvalue", NONE)
                return IT(tuple(TUP(t) for t in itertools.zip_longest(*L, fillvalue=fv)))
            if leaf == "starmap":
                pass
            if leaf == "islice":
                n = [a for a in args if isinstance(a, N)]
                ks = [x.p.as_int() for x in n]
                if all(x is not None for x in ks):
                    return IT(tuple(itertools.islice(L[0], *ks)))
            if leaf == "accumulate":
                import ast
                out = []
                for x in L[0]:
                    out.append(x if not out else (self.ip.call(st, args[1], [out[-1], x], {}) if len(args) > 1 else self.binop(st, ast.Add(), out[-1], x)))
                return IT(tuple(out))
        if leaf == "repeat" and len(args) > 1:
            n = self.num(st, args[1])
            k = n.as_int()
            if k is not None:
                return IT((args[0],) * k)
            return SQ(n, IVAR, args[0])
        if leaf == "starmap":
            kind, it = self.iterate(st, args[1])
            if kind == "known":
                return IT(tuple(self.ip.call(st, args[0], self.iterate(st, x)[1], {}) for x in it))
        return self.ip.opaque(st, "itertools." + leaf, *args)

    OPF = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "pow": "Pow", "floordiv": "FloorDiv",
           "mod": "Mod", "matmul": "MatMult", "and_": "BitAnd", "or_": "BitOr", "iadd": "Add", "imul": "Mult"}
    CMP = {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE", "is_": "Is", "is_not": "IsNot"}

    def operator_fn(self, st, leaf, args, kwargs):
        import ast
        if leaf in ("iadd", "imul", "isub", "itruediv"):
            return self.augassign(st, getattr(ast, {"iadd": "Add", "imul": "Mult", "isub": "Sub", "itruediv": "Div"}[leaf])(), *args)
        if leaf in self.OPF:
            return self.binop(st, getattr(ast, self.OPF[leaf])(), *args)
        if leaf in self.CMP:
            return self.compare(st, getattr(ast, self.CMP[leaf])(), *args)
        if leaf == "neg":
            return self.unary(st, ast.USub(), args[0])
        if leaf == "getitem":
            return self.getitem(st, *args)
        if leaf == "setitem":
            return self.setitem(st, *args)
        if leaf == "not_":
            return boolv(not_(self.truth(st, args[0])))
        if leaf == "index":
            return self.b_int(st, args, {})
        return self.ip.opaque(st, "operator." + leaf, *args)

    # ------------------------------------------------------------ torch
    def shape_arg(self, st, args):
        """frozen shape from varargs or a sequence"""
        if len(args) == 1 and not isinstance(args[0], (N, S)):
            v = args[0]
            c = self.as_seq(st, v)
        else:
            c = TUP(tuple(args))
        if isinstance(c, TUP):
            return tuple(self.num(st, self.ip.one(st, x)) if not isinstance(x, U) else P(N_("lit", self.ip.freeze(st, x))) for x in c.items)
        if isinstance(c, SQ):
            return N_("vec", c.len, c.var, self.ip.freeze(st, c.elem), tuple((i, self.ip.freeze(st, x)) for i, x in c.over))
        return self.ip.freeze(st, c)

    def dd(self, st, kwargs):
        def g(n):
            v = kwargs.get(n, NONE)
            if v == NONE:
                return None
            return self.ip.freeze(st, v)
        return g("dtype"), g("device")

    def torch_fn(self, st, path, leaf, args, kwargs):
        if path.startswith(("torch.backends", "torch.cuda", "torch.utils", "torch.autograd", "torch.random", "torch.hub")):
            if leaf in ("no_grad", "set_grad_enabled"):
                return S(N_("nograd"), "nograd")
            if leaf in ("manual_seed", "seed"):
                self.ip.event("rng", st, fn=path, generator=None, site=self.ip.site())
            return self.ip.opaque(st, "call of " + path, *args) if leaf not in ("is_available",) else B(N_("pred", path))
        if leaf in ("no_grad", "inference_mode"):
            return S(N_("nograd"), "nograd")
        if leaf == "set_grad_enabled":
            if args and args[0] == TRUE:
                return S(N_("ctx"))
            return S(N_("nograd"), "nograd")
        if leaf == "enable_grad":
            return S(N_("ctx"))
        if leaf in ("manual_seed", "seed", "set_rng_state", "initial_seed", "set_default_dtype", "set_default_tensor_type",
                    "use_deterministic_algorithms", "set_default_device"):
            self.ip.event("rng" if "seed" in leaf or "rng" in leaf else "setglobal", st,
                          **({"fn": path, "generator": None, "site": self.ip.site()} if "seed" in leaf or "rng" in leaf else {"name": path}))
            return NONE
        if leaf == "Generator":
            return S(N_("generator", self.ip.site()), "generator")
        if leaf == "is_tensor":
            v = self.ip.one(st, args[0])
            if isinstance(v, T):
                return K(st.heap[v.oid].lib == "torch")
            if isinstance(v, S) and v.ty is None:
                return B(N_("isinst", v.n, "Tensor"))
            return FALSE
        if leaf in ("device", "dtype"):
            return S(N_(leaf + "_lit", *[self.ip.freeze(st, a) for a in args]), leaf)
        if leaf in ("Size",):
            return self.b_tuple(st, args, {})
        if leaf in ("finfo", "iinfo"):
            return S(N_(leaf, *[self.ip.freeze(st, a) for a in args]))
        if leaf in ("get_default_dtype",):
            return S(N_("default_dtype"), "dtype")
        if leaf == "is_grad_enabled":
            return B(N_("pred", "grad_enabled"))
        if leaf in RNGF_ or (leaf == "dropout"):
            return self.rng_fn(st, leaf, args, kwargs)
        if leaf in ("zeros", "ones", "empty", "full", "eye"):
            return self.factory(st, leaf, args, kwargs)
        if leaf in ("zeros_like", "ones_like", "empty_like", "full_like"):
            return self.factory_like(st, leaf, args, kwargs)
        if leaf in ("arange", "linspace", "logspace", "hann_window", "hamming_window", "range"):
            d, v = self.dd(st, kwargs)
            ps = [self.num(st, x) for x in args]
            for n in ("start", "end", "step", "steps"):
                if n in kwargs:
                    ps.append(self.num(st, kwargs[n]))
            if leaf == "arange":
                if len(ps) == 1:
                    ps = [ZERO, ps[0], ONE]
                elif len(ps) == 2:
                    ps = ps + [ONE]
            r = self.fresh(st, N_(leaf, *ps, d, v))
            return self.with_rg(st, r, kwargs)
        if leaf in ("tensor", "as_tensor", "asarray", "Tensor", "FloatTensor", "scalar_tensor"):
            return self.mk_tensor(st, leaf, args, kwargs)
        if leaf == "from_numpy":
            v = args[0]
            if isinstance(v, T):
                return self.mkmaybe(st, v, P(N_("from_numpy", self.cell_term(st, v.oid))), "torch")
            return self.fresh(st, N_("tensor", self.ip.freeze(st, v), None, None))
        if leaf in ("cat", "concat", "concatenate", "stack", "hstack", "vstack"):
            return self.cat(st, leaf, args, kwargs, "torch")
        if leaf == "broadcast_tensors":
            ts = args
            tt = tuple(self.term(st, x) for x in ts)
            return TUP(tuple(self.mkview(st, x, ("bcast", tt)) if isinstance(x, T) else x for x in ts))
        if leaf == "broadcast_shapes":
            return self.ip.opaque(st, "broadcast_shapes", *args)
        if leaf in ("meshgrid", "unbind", "split", "chunk") or True:
            if "input" in kwargs:
                args = [kwargs.pop("input")] + args
            if "self" in kwargs:
                args = [kwargs.pop("self")] + args
            if not args and "tensors" in kwargs:
                args = [kwargs.pop("tensors")]
            return self.tensor_op(st, leaf, args, kwargs, "torch")

    def with_rg(self, st, r, kwargs):
        return r

    def factory(self, st, leaf, args, kwargs):
        d, v = self.dd(st, kwargs)
        if leaf == "full":
            shp = args[0] if args else kwargs.get("size")
            val = args[1] if len(args) > 1 else kwargs.get("fill_value")
            return self.fresh(st, N_("full", self.shape_arg(st, [shp]), self.term(st, val), d, v))
        if "size" in kwargs:
            args = [kwargs["size"]]
        if leaf == "eye":
            return self.fresh(st, N_("eye", self.shape_arg(st, args), d, v))
        sh = self.shape_arg(st, args)
        if leaf == "empty":
            return self.fresh(st, N_("empty", sh, self.ip.site(), d, v))
        return self.fresh(st, N_("full", sh, ZERO if leaf == "zeros" else ONE, d, v))

    def factory_like(self, st, leaf, args, kwargs):
        d, v = self.dd(st, kwargs)
        t = self.term(st, args[0])
        if leaf == "empty_like":
            return self.fresh(st, N_("empty_like", t, self.ip.site(), d, v))
        val = {"zeros_like": ZERO, "ones_like": ONE}.get(leaf)
        if val is None:
            val = self.term(st, args[1] if len(args) > 1 else kwargs["fill_value"])
        return self.fresh(st, N_("full_like", t, val, d, v))

    def mk_tensor(self, st, leaf, args, kwargs):
        d, v = self.dd(st, kwargs)
        x = args[0] if args else kwargs.get("data", TUP(()))
        if isinstance(x, T):
            t = self.cell_term(st, x.oid)
            if st.heap[x.oid].lib == "torch":
                if leaf in ("as_tensor", "asarray"):
                    return self.mkmaybe(st, x, self.cast_term(t, d, v))
                return self.fresh(st, N_("tensor", t, d, v))
            if leaf in ("as_tensor", "asarray"):
                return self.mkmaybe(st, x, P(N_("tensor", t, d, v)), "torch")
            return self.fresh(st, N_("tensor", t, d, v))
        return self.fresh(st, N_("tensor", self.ip.freeze(st, x), d, v))

    def cast_term(self, t, d, v):
        if d is not None and d is self.prov("dtype", t):
            d = None
        if v is not None and v is self.prov("device", t):
            v = None
        if d is None and v is None:
            return t
        at = t.as_atom()
        if at is not None and at.op == "cast":
            t0, d0, v0 = at.args
            return P(N_("cast", t0, d if d is not None else d0, v if v is not None else v0))
        return P(N_("cast", t, d, v))

    def rng_fn(self, st, leaf, args, kwargs):
        g = kwargs.get("generator", NONE)
        gt = None if g == NONE else self.ip.freeze(st, g)
        base = leaf.rstrip("_")
        site = self.ip.site()
        self.ip.event("rng", st, fn="torch." + leaf, generator=gt, site=site)
        d, v = self.dd(st, kwargs)
        if leaf in ("rand", "randn"):
            sh = self.shape_arg(st, [kwargs["size"]] if "size" in kwargs else args)
            return self.fresh(st, N_("rng", base, site, gt, sh, d, v))
        if leaf in ("rand_like", "randn_like", "randint_like", "bernoulli", "poisson", "dropout", "multinomial"):
            src = self.term(st, args[0] if args else kwargs.get("input"))
            return self.fresh(st, N_("rngl", base, site, gt, src, tuple(self.ip.freeze(st, x) for x in args[1:]), d, v))
        if leaf == "randint":
            lo = kwargs.get("low")
            hi = kwargs.get("high")
            size = kwargs.get("size")
            pos = list(args)
            if size is None and pos and not isinstance(pos[-1], (N, S)):
                size = pos.pop()
            if hi is None and lo is None:
                if len(pos) >= 2:
                    lo, hi = pos[0], pos[1]
                else:
                    hi = pos[0]
            elif hi is None:
                hi = pos[0] if pos else lo
            lo = self.num(st, lo) if lo is not None else ZERO
            hi = self.num(st, hi)
            sh = self.shape_arg(st, [size]) if size is not None else ()
            return self.fresh(st, N_("randint", lo, hi, site, gt, sh))
        if leaf == "randperm":
            return self.fresh(st, N_("rng", base, site, gt, (self.num(st, args[0]),), d, v))
        if leaf == "normal":
            ts = [self.term(st, x) for x in args if isinstance(x, (T, N))]
            sh = self.shape_arg(st, [kwargs["size"]]) if "size" in kwargs else None
            return self.fresh(st, N_("rngl", base, site, gt, ts[0] if ts else ZERO, tuple(ts[1:]) + ((sh,) if sh is not None else ()), d, v))
        return self.fresh(st, N_("rng", base, site, gt, tuple(self.ip.freeze(st, x) for x in args), d, v))

    def cat(self, st, leaf, args, kwargs, lib):
        seq = self.as_seq(st, args[0] if args else kwargs.get("tensors"))
        dim = args[1] if len(args) > 1 else kwargs.get("dim", kwargs.get("axis", num(0)))
        op = "stack" if leaf in ("stack", "vstack_") else "cat"
        p = self.num(st, dim)
        if isinstance(seq, TUP):
            ts = tuple(self.term(st, x) for x in seq.items)
            if any(x == NONE for x in seq.items):
                self.ip.event("none-op", st, op="cat")
                self.ip.do_raise(st, "TypeError", True)
            if lib == "np" and all(x.as_atom() is not None and x.as_atom().op == "carr" for x in ts) and op == "stack" and p == ZERO \
                    and len(set(x.as_atom().args[0] for x in ts)) == 1:
                return self.fresh(st, N_("carr", (len(ts),) + ts[0].as_atom().args[0],
                                         tuple(c for x in ts for c in x.as_atom().args[1])), "np")
            if p.as_int() is not None and p.as_int() < 0 and ts:
                r = self.rank_of(ts[0])
                p = add(add(r, ONE) if op == "stack" else r, p)
            return self.fresh(st, N_(op, ts, p), lib)
        return self.fresh(st, N_(op, (P(N_("seqterm", self.ip.freeze(st, seq))),), p), lib)

    # unified tensor operators -------------------------------------------------
    def canon_args(self, name, args, kwargs):
        """args after self -> dict by SIG"""
        sig = self.SIGT.get(name)
        out = {}
        if sig:
            kw = {self.ALIAS.get(k, k): v for k, v in kwargs.items()}
            for (n, dflt), v in zip(sig, args):
                out[n] = v
            extra = args[len(sig):]
            for n, v in kw.items():
                out[n] = v
            out["*"] = extra
        return out

    def axes_arg(self, st, t, v):
        """dims -> None | tuple of axis polys"""
        if v is None or v == NONE:
            return None
        if isinstance(v, (N, S)) or isinstance(v, K):
            return (self.axis(t, self.num(st, v)),)
        s = self.as_seq(st, v)
        if isinstance(s, TUP):
            return tuple(sorted((self.axis(t, self.num(st, x)) for x in s.items), key=lambda p: repr(sorted_key(p))))
        return self.ip.freeze(st, s)

    def tensor_op(self, st, name, args, kwargs, lib="torch", inplace=None):
        if not args:
            return self.ip.opaque(st, "call of " + name)
        kwargs = dict(kwargs)
        out = kwargs.pop("out", NONE)
        x = args[0]
        rest = list(args[1:])
        if x == NONE:
            self.ip.event("none-op", st, op=name)
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(x, LST) and not st.heap[x.oid].arr or isinstance(x, (TUP, SQ)):
            if lib == "np":
                x = self.np_array(st, x)
            else:
                x = self.fresh(st, N_("tensor", self.ip.freeze(st, x), None, None))
        extra = [k for k, v in kwargs.items() if name in self.SIGT and v != NONE and k not in KNOWN_KW
                 and self.ALIAS.get(k, k) not in [n for n, _ in self.SIGT[name]]]
        r = self.ip.opaque(st, f"{name} with {extra[0]}", x, *rest) if extra else self._tensor_op(st, name, x, rest, kwargs, lib)
        if isinstance(out, T):
            if isinstance(r, T):
                self.write_cell(st, out.oid, self.cell_term(st, r.oid), how="out= argument")
                return out
        return r

    def _tensor_op(self, st, name, x, rest, kwargs, lib):
        import ast
        isT = isinstance(x, T)
        if isT:
            lib = st.heap[x.oid].lib
        if name in ("abs", "absolute", "fabs"):
            if isT:
                return self.fresh(st, t_abs(self.term(st, x)), lib)
            return self.b_abs(st, [x], {})
        if name in ("neg", "negative"):
            return self.unary(st, ast.USub(), x)
        if name in ("square",):
            return self.binop(st, ast.Pow(), x, num(2))
        if name == "sqrt":
            return self.binop(st, ast.Pow(), x, N(div(ONE, const(2)), "float"))
        if name == "reciprocal":
            return self.binop(st, ast.Div(), num(1), x)
        if name in BIN:
            o = rest[0] if rest else kwargs.get("other", kwargs.get("exponent", kwargs.get("tensor", NONE)))
            if name in ("add", "sub", "subtract"):
                al = kwargs.get("alpha") or (rest[1] if len(rest) > 1 else None)
                if al is not None and al != num(1):
                    o = self.binop(st, ast.Mult(), al, o)
                return self.binop(st, ast.Add() if name == "add" else ast.Sub(), x, o)
            if name in ("mul", "multiply"):
                return self.binop(st, ast.Mult(), x, o)
            if name in ("div", "divide", "true_divide"):
                rm = kwargs.get("rounding_mode", NONE)
                if rm != NONE:
                    r = self.fresh(st, N_("tbin", "div:" + str(getattr(rm, "v", "?")), self.term(st, x), self.term(st, o)), lib)
                    return r
                return self.binop(st, ast.Div(), x, o)
            if name in ("pow", "power", "float_power"):
                return self.binop(st, ast.Pow(), x, o)
            if name == "floor_divide":
                return self.binop(st, ast.FloorDiv(), x, o)
            return self.binop(st, ast.Mod(), x, o)
        if name in CMPF:
            o = rest[0] if rest else kwargs.get("other")
            t = N_("cmp", CMPF[name], self.term(st, x), self.term(st, o))
            return self.fresh(st, t, lib)
        if name in LOGIC:
            return self.fresh(st, N_("tbin", LOGIC[name], self.term(st, x), self.term(st, rest[0])), lib)
        if name in ("equal", "allclose", "array_equal"):
            return B(N_("pred", name, self.term(st, x), self.term(st, rest[0])))
        if not isT:
            if isinstance(x, LST) and name in UN:
                r = self.vec_map(st, x, lambda s, y: self.scalar_fn(s, name, self.num(s, y)))
                if r is not None:
                    return r
            if isinstance(x, N) and name in UN | {"sqrt"}:
                return self.scalar_fn(st, name, x.p)
            if isinstance(x, LST):
                return self.call_method(st, x, name, rest, kwargs) if name in ("sum", "prod", "max", "min", "mean", "all", "any", "dot", "flip") \
                    else self._tensor_op(st, name, self.vec_to_T(st, x), rest, kwargs, lib)
            if isinstance(x, (N, S, B, K)):
                x = self.fresh(st, self.term(st, x) if not (isinstance(x, K) and isinstance(x.v, str)) else N_("strlit", x.v), lib)
            else:
                return self.ip.opaque(st, name, x, *rest)
        t = self.cell_term(st, x.oid)
        if name in UN:
            at = t.as_atom()
            if t.is_const:
                return self.scalar_fn(st, name, t)
            return self.fresh(st, N_("fn1", t, name), lib)
        if name == "relu":
            return self.fresh(st, N_("clamp", t, ZERO, None), lib)
        A = self.canon_args(name, rest, kwargs)
        if name in RED:
            return self.reduction(st, name, x, t, A, rest, kwargs, lib)
        if name in ("clamp", "clip", "clamp_min", "clamp_max"):
            if name == "clamp_min":
                A = {"min": rest[0] if rest else kwargs.get("min")}
            if name == "clamp_max":
                A = {"max": rest[0] if rest else kwargs.get("max")}
            f = lambda v: None if v is None or v == NONE else self.term(st, v)
            return self.fresh(st, N_("clamp", t, f(A.get("min")), f(A.get("max"))), lib)
        if name in ("maximum", "minimum", "fmax", "fmin"):
            return self.fresh(st, t_comm("tmax" if "max" in name else "tmin", t, self.term(st, rest[0])), lib)
        if name == "where":
            if len(rest) == 2:
                # torch.where(cond, a, b) or x.where(cond, other)
                a = [self.term(st, x)] + [self.term(st, y) for y in rest]
                if kwargs.get("$method"):
                    a = [a[1], a[0], a[2]]
                return self.fresh(st, N_("where", *a), lib)
            return self.fresh(st, N_("nonzero", t), lib)
        if name in ("matmul", "mm", "mv", "dot", "inner", "vdot"):
            o = rest[0] if rest else kwargs.get("other")
            if isinstance(o, (TUP, LST)) and not (isinstance(o, LST) and st.heap[o.oid].arr):
                o = self.np_array(st, o)
            return self.fresh(st, N_("matmul", t, self.term(st, o)), lib)
        if name == "unfold":
            ax = self.axis(t, self.num(st, A["dimension"]))
            return self.mkview(st, x, ("unfold", ax, self.num(st, A["size"]), self.num(st, A["step"])))
        if name in ("flip", "flipud", "fliplr"):
            if name == "flip":
                d = A.get("dims")
                if d is None:
                    dims = None
                elif isinstance(d, N):
                    dims = self.axes_arg(st, t, TUP(tuple([d] + list(A.get("*", [])))))
                else:
                    dims = self.axes_arg(st, t, d)
            else:
                dims = (ZERO,) if name == "flipud" else (ONE,)
            if dims == ():
                return self.fresh(st, t, lib)
            return self.fresh(st, N_("flip", t, dims), lib)
        if name == "roll":
            return self.fresh(st, N_("roll", t, self.ip.freeze(st, A.get("shifts", NONE)), self.axes_arg(st, t, A.get("dims"))), lib)
        if name in ("sort", "topk", "cummax", "cummin", "kthvalue"):
            ax = self.axes_arg(st, t, A.get("dim", num(-1)))
            extra = tuple(self.ip.freeze(st, v) for v in rest)
            if name == "sort" and lib == "np":
                return self.fresh(st, N_("sort", t, ax, extra), lib)
            return TUP((self.fresh(st, N_(name, t, ax, extra), lib), self.fresh(st, N_("arg" + name, t, ax, extra), lib)),
                       ("values", "indices"))
        if name in ("argsort",):
            return self.fresh(st, N_("argsort_t", t, tuple(self.ip.freeze(st, v) for v in rest)), lib)
        if name == "diff" and "prepend" not in kwargs and "append" not in kwargs and lib == "torch":
            k = self.num(st, A.get("n", num(1))).as_int()
            if k is not None and 0 <= k <= 4:
                ax = self.axis(t, self.num(st, A.get("dim", num(-1))))
                for _ in range(k):
                    t = sub(P(N_("getitem", t, ((ax, ("s", ONE, None, ONE)),))), P(N_("getitem", t, ((ax, ("s", ZERO, const(-1), ONE)),))))
                return self.fresh(st, t, lib)
        if name in ("cumsum", "cumprod", "softmax", "log_softmax", "diff"):
            return self.fresh(st, N_(name, t, self.axes_arg(st, t, A.get("dim", kwargs.get("dim"))), self.ip.freeze(st, A.get("n", num(1)))), lib)
        if name == "repeat" and lib == "torch":
            return self.fresh(st, N_("repeat", t, self.shape_arg(st, rest)), lib)
        if name in ("masked_fill", "masked_scatter"):
            k1, k2 = ("mask", "value") if name == "masked_fill" else ("mask", "source")
            return self.fresh(st, N_(name, t, self.term(st, A[k1]), self.term(st, A[k2])), lib)
        if name == "lerp":
            w, e = self.term(st, A["weight"]), self.term(st, A["end"])
            return self.fresh(st, add(t, mul(w, sub(e, t))), lib)
        if name == "addcmul":
            a, b = self.term(st, rest[0]), self.term(st, rest[1])
            v = self.term(st, kwargs.get("value", num(1)))
            return self.fresh(st, add(t, mul(v, mul(a, b))), lib)
        if name == "addcdiv":
            a, b = self.term(st, rest[0]), self.term(st, rest[1])
            v = self.term(st, kwargs.get("value", num(1)))
            return self.fresh(st, add(t, mul(v, div(a, b))), lib)
        if name in ("narrow",):
            ax = self.axis(t, self.num(st, A["dim"]))
            s, l = self.num(st, A["start"]), self.num(st, A["length"])
            return self.mkview(st, x, ("getitem", ((ax, ("s", s, add(s, l), ONE)),)))
        if name == "select" and lib == "torch":
            ax = self.axis(t, self.num(st, A["dim"]))
            return self.mkview(st, x, ("getitem", ((ax, ("i", self.num(st, A["index"]))),)))
        if name == "unsqueeze":
            p = self.num(st, A["dim"])
            if p.as_int() is not None and p.as_int() < 0:
                p = add(add(self.rank_of(t), ONE), p)
            return self.mkview(st, x, ("unsqueeze", p))
        if name == "expand_dims":
            p = self.num(st, rest[0] if rest else kwargs["axis"])
            if p.as_int() is not None and p.as_int() < 0:
                p = add(add(self.rank_of(t), ONE), p)
            return self.mkview(st, x, ("unsqueeze", p))
        if name == "squeeze":
            d = A.get("dim")
            return self.mkview(st, x, ("squeeze", self.axes_arg(st, t, d) if d is not None else None))
        if name in ("view", "expand", "broadcast_to") and lib == "torch":
            if name == "view" and rest and isinstance(rest[0], S) and rest[0].ty == "dtype":
                return self.mkview(st, x, ("viewdtype", rest[0].n))
            sa = [kwargs["size"]] if "size" in kwargs else rest
            return self.mkview(st, x, (("expand" if name != "view" else "view"), self.shape_arg(st, sa)))
        if name in ("reshape", "view_as", "reshape_as", "expand_as"):
            if name.endswith("_as"):
                sh = self.shape(st, self.term(st, rest[0]))
                shp = self.shape_arg(st, [sh])
            else:
                shp = self.shape_arg(st, [kwargs["shape"]] if "shape" in kwargs else rest)
            if name == "reshape" or name == "reshape_as":
                return self.mkmaybe(st, x, P(N_("view", t, shp)))
            return self.mkview(st, x, ("view" if name == "view_as" else "expand", shp))
        if name in ("flatten", "ravel"):
            r = self.rank_of(t).as_int()
            if r is not None and lib == "torch":
                a, b = [self.num(st, A.get(q, num(d))).as_int() for q, d in (("start_dim", 0), ("end_dim", -1))]
                if a is not None and b is not None and r:
                    a, b = a % r, b % r
                    ds = [self.dim_of(t, const(q)) for q in range(r)]
                    z = ONE
                    for q in ds[a:b + 1]:
                        z = mul(z, q)
                    return self.mkmaybe(st, x, P(N_("view", t, tuple(ds[:a] + [z] + ds[b + 1:]))))
            return self.mkmaybe(st, x, P(N_("flatten", t, tuple(self.ip.freeze(st, v) for v in rest))))
        if name in ("permute", "transpose", "swapaxes", "swapdims", "movedim", "moveaxis", "t"):
            seq = rest
            if len(rest) == 1 and not isinstance(rest[0], N):
                s = self.as_seq(st, rest[0])
                seq = list(s.items) if isinstance(s, TUP) else [rest[0]]
            if "dims" in kwargs:
                seq = list(self.as_seq(st, kwargs["dims"]).items)
            if name in ("transpose", "swapaxes", "swapdims"):
                if not seq:
                    seq = [kwargs.get("dim0", num(0)), kwargs.get("dim1", num(1))]
                ax = sorted([self.axis(t, self.num(st, q)) for q in seq], key=lambda p: repr(sorted_key(p)))
                at = t.as_atom()
                if at is not None and at.op == "transpose" and at.args[1:] == tuple(ax):
                    return self.fresh(st, at.args[0], lib) if False else self.mkview(st, x, ("transpose", *ax))
                return self.mkview(st, x, ("transpose", *ax))
            if name in ("movedim", "moveaxis"):
                def ax1(v):
                    if isinstance(v, N):
                        return self.axis(t, v.p)
                    s = self.as_seq(st, v)
                    return tuple(self.axis(t, self.num(st, q)) for q in s.items) if isinstance(s, TUP) else self.ip.freeze(st, v)
                src = rest[0] if rest else kwargs.get("source")
                dst = rest[1] if len(rest) > 1 else kwargs.get("destination")
                return self.mkview(st, x, ("movedim", ax1(src), ax1(dst)))
            return self.mkview(st, x, (name, tuple(self.axis(t, self.num(st, q)) if isinstance(q, (N, S)) else self.ip.freeze(st, q) for q in seq)))
        if name in ("diagonal", "unflatten", "as_strided", "swapdims"):
            return self.mkview(st, x, (name, tuple(self.ip.freeze(st, v) for v in rest)))
        if name in ("unbind", "chunk", "split", "tensor_split", "hsplit", "vsplit"):
            return self.splitters(st, name, x, t, A, rest, kwargs)
        if name == "detach":
            return self.mkview(st, x, ("detach",))
        if name in ("clone", "copy", "contiguous"):
            if name == "contiguous":
                return self.mkmaybe(st, x, t)
            return self.fresh(st, t, lib)
        if name in ("numel", "nelement"):
            return N(P(N_("numel", t)), "int")
        if name in ("is_floating_point", "is_complex", "is_nonzero"):
            return B(N_("pred", name, t))
        if name in ("conv1d", "conv2d", "conv3d", "l1_loss", "mse_loss"):
            return self.nn_fn(st, name, [x] + rest, kwargs)
        if name == "diag" and lib == "np":
            return self.fresh(st, N_("diag", t, tuple(self.ip.freeze(st, v) for v in rest)), "np")
        if name == "einsum":
            return self.fresh(st, N_("einsum", t, tuple(self.term(st, v) if isinstance(v, T) else self.ip.freeze(st, v) for v in rest)), lib)
        if name in ("index_select",):
            ix = rest[1] if len(rest) > 1 else kwargs.get("index")
            return self.fresh(st, N_("index_select", t, self.axes_arg(st, t, A["dim"]), self.ip.freeze(st, ix)), lib)
        # unknown operator: fresh result depending on everything
        if name not in SHAPEOPS and name not in NN_FUNC:
            self.ip.note_undecided(st, "operation " + name)
        return self.fresh(st, N_("tcall", name, t, tuple(self.ip.freeze(st, v) for v in rest),
                                 tuple((k, self.ip.freeze(st, v)) for k, v in sorted(kwargs.items()) if isinstance(v, V))), lib)

    def splitters(self, st, name, x, t, A, rest, kwargs):
        ax = self.axis(t, self.num(st, A["dim"])) if "dim" in A else ZERO
        L = self.dim_of(t, ax)
        if name == "unbind":
            k = L.as_int()
            if k is not None and k <= 64:
                return TUP(tuple(self.mkview(st, x, ("getitem", ((ax, ("i", const(i))),))) for i in range(k)))
        if name in ("chunk", "tensor_split"):
            n = self.num(st, A.get("chunks", rest[0] if rest else NONE)).as_int()
            if n:
                sz = neg(floordiv(neg(L), const(n)))
                return TUP(tuple(self.mkview(st, x, ("getitem", ((ax, ("s", mul(const(i), sz), mul(const(i + 1), sz), ONE)),)))
                                 for i in range(n)))
        if name == "split":
            sz = A.get("split_size", rest[0] if rest else NONE)
            if isinstance(sz, (TUP, LST)):
                s = self.as_seq(st, sz)
                if isinstance(s, TUP):
                    out, lo = [], ZERO
                    for q in s.items:
                        hi = add(lo, self.num(st, q))
                        out.append(self.mkview(st, x, ("getitem", ((ax, ("s", lo, hi, ONE)),))))
                        lo = hi
                    return TUP(tuple(out))
            else:
                p = self.num(st, sz)
                if p.as_int() and L.as_int() is not None:
                    k = -(-L.as_int() // p.as_int())
                    return TUP(tuple(self.mkview(st, x, ("getitem", ((ax, ("s", mul(const(i), p), mul(const(i + 1), p), ONE)),)))
                                     for i in range(k)))
        return self.ip.opaque(st, name, x, *rest)

    def reduction(self, st, name, x, t, A, rest, kwargs, lib):
        if name in ("max", "min", "amax", "amin"):
            o = A.get("dim")
            if isinstance(o, T):            # binary max
                return self.fresh(st, t_comm("tmax" if "max" in name else "tmin", t, self.term(st, o)), lib)
        dim = A.get("dim")
        dims = self.axes_arg(st, t, dim)
        keep = self.truth(st, A["keepdim"]) if "keepdim" in A else False
        dt = kwargs.get("dtype", NONE)
        if dims == ():
            dims = None                     # torch: an empty dim list reduces everything
        elif name == "quantile" or name == "norm":
            q = A.get("q" if name == "quantile" else "p")
            q = self.ip.freeze(st, q) if q is not None else None
            how = kwargs.get("interpolation", kwargs.get("method"))
            if name == "quantile" and how not in (None, NONE, K("linear")):
                return self.fresh(st, N_(name, t, dims, q, self.ip.freeze(st, how), keep), lib)
            return self.fresh(st, N_(name, t, dims, q, keep), lib)
        op = {"max": "amax", "min": "amin", "nanmedian": "median"}.get(name, name)
        extra = ()
        if name in ("std", "var"):
            u = A.get("unbiased", kwargs.get("correction", kwargs.get("ddof", FALSE if lib == "np" else TRUE)))
            u = TRUE if u == num(1) else FALSE if u == num(0) else u
            extra = (self.ip.freeze(st, u),)
        if lib == "torch" and name in ("max", "min", "median", "mode") and dims is not None:
            return TUP((self.fresh(st, N_(op, t, dims, *extra, keep), lib),
                        self.fresh(st, N_("arg" + op, t, dims, *extra, keep), lib)), ("values", "indices"))
        r = self.fresh(st, N_(op, t, dims, *extra, keep), lib)
        if dt != NONE:
            return self.fresh(st, self.cast_term(self.term(st, r), self.ip.freeze(st, dt), None), lib)
        return r

    # ------------------------------------------------------------ torch.nn
    def nn_fn(self, st, leaf, args, kwargs):
        import ast
        kwargs = dict(kwargs)
        if "input" in kwargs:
            args = [kwargs.pop("input")] + args
        if leaf in ("l1_loss", "mse_loss"):
            b = args[1] if len(args) > 1 else kwargs.get("target")
            return self.loss(st, leaf, args[0], b, kwargs.get("reduction", args[3] if len(args) > 3 else K("mean")))
        if leaf in ("relu", "sigmoid", "tanh", "softplus", "gelu", "softmax", "leaky_relu") and leaf != "softmax":
            return self.tensor_op(st, leaf, args, {}, "torch")
        if leaf == "pad":
            t = self.term(st, args[0])
            names = ["pad", "mode", "value"]
            d = dict(zip(names, args[1:]))
            d.update(kwargs)
            return self.fresh(st, N_("fpad", t, self.ip.freeze(st, d.get("pad", NONE)), self.ip.freeze(st, d.get("mode", K("constant"))),
                                     self.ip.freeze(st, d.get("value", NONE))))
        if leaf in ("conv1d", "conv2d", "conv3d"):
            names = ["weight", "bias", "stride", "padding", "dilation", "groups"]
            d = dict(zip(names, args[1:]))
            d.update(kwargs)
            one = lambda v, df: self.ip.freeze(st, d.get(v, df))
            b = d.get("bias", NONE)
            return self.fresh(st, N_(leaf, self.term(st, args[0]), self.term(st, d["weight"]),
                                     None if b == NONE else self.term(st, b),
                                     (one("stride", num(1)), one("padding", num(0)), one("dilation", num(1)), one("groups", num(1)))))
        if leaf in ("dropout", "rrelu"):
            return self.rng_fn(st, "dropout", args, kwargs)
        return self.tensor_op(st, leaf, args, kwargs, "torch")

    def loss(self, st, kind, a, b, red):
        d = sub(self.term(st, a), self.term(st, b))
        e = t_abs(d) if kind == "l1_loss" else powi(d, 2)
        r = red.v if isinstance(red, K) else "mean"
        if r == "none":
            return self.fresh(st, e)
        return self.fresh(st, N_("mean" if r == "mean" else "sum", e, None, False))

    def nn_new(self, st, path, leaf, args, kwargs):
        if leaf == "Parameter":
            v = args[0] if args else kwargs.get("data")
            if isinstance(v, T):
                return self.mkmaybe(st, v, self.cell_term(st, v.oid))
            return v
        cfg = (tuple(self.ip.freeze(st, a) for a in args), tuple((k, self.ip.freeze(st, v)) for k, v in sorted(kwargs.items())))
        items = None
        attrs = {}
        if leaf in ("ModuleDict", "ParameterDict"):
            items = {}
            if args and isinstance(args[0], DCT):
                items = dict(st.heap[args[0].oid].k)
        if leaf in ("ModuleList", "Sequential", "ParameterList"):
            seq = args
            if leaf != "Sequential" and args:
                kind, it = self.iterate(st, args[0])
                seq = it if kind == "known" else []
            items = {num(i): v for i, v in enumerate(seq)}
        oid = self.ip.alloc(st, "xinst", path=path, attrs=attrs, items_=items, cfg=cfg)
        x = XI(oid)
        if leaf in ("Conv1d", "Conv2d", "Conv3d"):
            names = ["in_channels", "out_channels", "kernel_size", "stride", "padding", "dilation", "groups", "bias"]
            d = dict(zip(names, args))
            d.update(kwargs)
            df = {"stride": num(1), "padding": num(0), "dilation": num(1), "groups": num(1), "bias": TRUE}
            g = lambda n: d.get(n, df.get(n, NONE))
            nd = int(leaf[4])
            w = N_("param", f"{leaf}.weight#{oid}")
            self.ip.rank[w] = const(nd + 2)
            attrs = {n: g(n) for n in names if n != "bias"}
            io, ks, gr = (g("out_channels"), g("in_channels")), g("kernel_size"), g("groups")
            if isinstance(ks, TUP) and len(ks.items) == 1:
                ks = ks.items[0]
            ks = list(ks.items) if isinstance(ks, TUP) else [ks] * nd
            if len(ks) == nd and all(isinstance(q, N) for q in list(io) + ks + [gr]):
                self.ip.rank[("shape", w)] = (io[0].p, io[1].p if gr.p == ONE else floordiv(io[1].p, gr.p)) + tuple(q.p for q in ks)
            attrs["weight"] = self.ip.cell(st, P(w))
            bt = self.truth(st, g("bias"))
            if bt is True or not isinstance(bt, bool):
                bn = N_("param", f"{leaf}.bias#{oid}")
                self.ip.rank[bn] = ONE
                bc = self.ip.cell(st, P(bn))
                attrs["bias"] = bc if bt is True else self.ip.join_val(st, bt, bc, NONE)
            else:
                attrs["bias"] = NONE
            st.heap[oid] = st.heap[oid].set(attrs=attrs)
        return x

    def call_xi(self, st, x, args, kwargs):
        r = st.heap[x.oid]
        leaf = r.path.split(".")[-1]
        if leaf in ("Conv1d", "Conv2d", "Conv3d"):
            a = r.attrs
            b = a["bias"]
            bt = None if b == NONE else self.ip.freeze(st, b)
            return self.fresh(st, N_("conv" + leaf[4:], self.term(st, args[0]), self.term(st, a["weight"]), bt,
                                     tuple(self.ip.freeze(st, a[n]) for n in ("stride", "padding", "dilation", "groups"))))
        if leaf.endswith("Pad2d"):
            cf = list(r.cfg[0]) + [v for k, v in r.cfg[1] if k == "padding"]
            p = cf[0] if cf else None
            if isinstance(p, Poly):
                p = (p,) * 4
            nm = {"ReflectionPad2d": "reflection_pad2d"}.get(leaf, leaf)
            if isinstance(p, tuple) and len(p) == 4:
                return self.fresh(st, N_(nm, self.term(st, args[0]), *p))
        if leaf in ("L1Loss", "MSELoss"):
            red = [v for k, v in r.cfg[1] if k == "reduction"]
            return self.loss(st, "l1_loss" if leaf[0] == "L" else "mse_loss", args[0], args[1] if len(args) > 1 else list(kwargs.values())[0],
                             K(red[0]) if red else K("mean"))
        if leaf == "Sequential":
            v = args[0]
            for m in r.items_.values():
                v = self.ip.call(st, m, [v], {})
            return v
        if leaf == "Identity":
            return args[0]
        if leaf.startswith("Dropout"):
            return self.rng_fn(st, "dropout", args, {})
        self.ip.note_undecided(st, "call of " + r.path)
        return self.fresh(st, N_("module", r.path, r.cfg, *[self.ip.freeze(st, a) for a in args]))

    # ------------------------------------------------------------ numpy
    def np_array(self, st, v, lib="np"):
        """np.array of a python value -> N | LST(arr) | T"""
        v = self.ip.one(st, v)
        if isinstance(v, U):
            return self.ip.lift(st, v, lambda s, x: self.np_array(s, x))
        if isinstance(v, T):
            return self.fresh(st, self.cell_term(st, v.oid), "np") if st.heap[v.oid].lib == "np" else \
                self.fresh(st, N_("numpy", self.cell_term(st, v.oid)), "np")
        if isinstance(v, (N, B)):
            return v
        if isinstance(v, LST) and st.heap[v.oid].arr:
            return LST(self.ip.alloc(st, "list", c=st.heap[v.oid].c, arr=True))
        if isinstance(v, (LST, TUP, SQ, RNG, IT)):
            c = self.as_seq(st, v)
            sh = self.const_nd(st, c)
            if sh is not None and len(sh[0]) >= 2:
                return self.fresh(st, N_("carr", sh[0], sh[1]), "np")
            if isinstance(c, SQ) and isinstance(c.elem, (N, K, B)):
                return self.ip.arr(st, c)
            if isinstance(c, TUP) and all(isinstance(x, (N, K, B)) for x in c.items):
                return self.ip.arr(st, c)
            return self.fresh(st, N_("nparray", self.ip.freeze(st, c)), "np")
        if isinstance(v, K):
            return v
        return self.fresh(st, N_("nparray", self.ip.freeze(st, v)), "np")

    def const_nd(self, st, v):
        if isinstance(v, N) and v.p.is_const:
            return (), (v.p.const,)
        if isinstance(v, T):
            at = self.cell_term(st, v.oid).as_atom()
            if at is not None and at.op == "carr":
                return at.args
            return None
        c = self.content(st, v) if isinstance(v, LST) else v
        if isinstance(c, TUP):
            subs = [self.const_nd(st, x) for x in c.items]
            if not subs or any(s is None for s in subs) or len(set(s[0] for s in subs)) != 1:
                return None
            return (len(subs),) + subs[0][0], tuple(x for s in subs for x in s[1])
        return None

    def np_prod(self, st, v):
        import ast
        if isinstance(v, T):
            return self.tensor_op(st, "prod", [v], {}, "np")
        kind, it = self.iterate(st, v)
        if kind == "known":
            r = num(1)
            for x in it:
                r = self.binop(st, ast.Mult(), r, x)
            return r
        return N(P(N_("vprod", it.len, it.var, self.ip.freeze(st, it.elem), tuple((i, self.ip.freeze(st, x)) for i, x in it.over))),
                 "int" if isinstance(it.elem, N) and it.elem.ty == "int" else None)

    def obj_array(self, st, shp, fill):
        """numpy array of objects of known shape: nested lists indexed by tuples"""
        dims = [shp] if isinstance(shp, N) else getattr(self.as_seq(st, shp), "items", None)
        if dims is None or any(not isinstance(d, N) or d.p.as_int() is None or d.p.as_int() < 0 for d in dims):
            return None
        ks = [d.p.as_int() for d in dims]
        if not ks or math.prod(ks) > 64:
            return None

        def build(k):
            if k == len(ks):
                return fill
            return LST(self.ip.alloc(st, "list", c=TUP(tuple(build(k + 1) for _ in range(ks[k]))), arr="obj"))
        return build(0)

    def obj_index(self, st, o, i):
        """(innermost list, last index) of a full or partial tuple index into an array of objects"""
        items = self.as_seq(st, i)
        if not isinstance(items, TUP) or not items.items or not all(isinstance(q, N) and q.p.as_int() is not None for q in items.items):
            return None
        for q in items.items[:-1]:
            o = self.seq_get(st, self.content(st, o), q)
            if not isinstance(o, LST) or st.heap[o.oid].arr != "obj":
                return None
        return o, items.items[-1]

    def obj_list(self, st, o):
        if isinstance(o, LST) and st.heap[o.oid].arr == "obj":
            c = self.content(st, o)
            if isinstance(c, TUP):
                return self.ip.lst(st, tuple(self.obj_list(st, x) for x in c.items))
        return o

    def np_fn(self, st, path, leaf, args, kwargs):
        if "a" in kwargs and leaf not in ("clip",):
            args = [kwargs.pop("a")] + args
        v = args[0] if args else NONE
        r = nparr.func(self, st, leaf, args, kwargs)
        if r is not None:
            return r
        if leaf in ("array", "asarray", "asanyarray", "ascontiguousarray"):
            if leaf != "array" and isinstance(v, T) and st.heap[v.oid].lib == "np":
                return v
            if leaf != "array" and isinstance(v, LST) and st.heap[v.oid].arr:
                return v
            return self.np_array(st, v)
        if leaf in ("zeros", "ones", "full", "empty"):
            shp = v if args else kwargs.get("shape", NONE)
            fill = {"zeros": num(0), "ones": num(1)}.get(leaf)
            if leaf == "full":
                fill = args[1] if len(args) > 1 else kwargs.get("fill_value")
            if leaf == "empty":
                fill = S(N_("npempty"))
            dt = kwargs.get("dtype", args[2] if leaf == "full" and len(args) > 2 else args[1] if leaf != "full" and len(args) > 1 else NONE)
            isint = dt == EXT("builtins.int")
            if isinstance(fill, N) and not isint and leaf in ("zeros", "ones"):
                fill = N(fill.p, "float")
            if isinstance(fill, N) and isint:
                fill = N(fill.p, "int")
            s = shp
            if dt == EXT("builtins.object"):
                r = self.obj_array(st, shp, NONE if leaf == "empty" else fill)
                if r is not None:
                    return r
            if not isinstance(shp, N):
                c = self.as_seq(st, shp)
                if isinstance(c, TUP) and len(c.items) == 1:
                    s = c.items[0]
                else:
                    return self.fresh(st, N_("npfull", self.ip.freeze(st, shp), self.ip.freeze(st, fill)), "np")
            return self.ip.arr(st, self.sq(self.num(st, s), IVAR, fill, (), "list"))
        if leaf == "arange":
            ps = [self.num(st, x) for x in args]
            rng = RNG(ZERO, ps[0], ONE) if len(ps) == 1 else RNG(ps[0], ps[1], ps[2] if len(ps) > 2 else ONE)
            kind, it = self.iterate(st, rng)
            return self.ip.arr(st, TUP(tuple(it)) if kind == "known" else it)
        if leaf in ("zeros_like", "ones_like", "full_like", "empty_like"):
            fill = {"zeros_like": num(0), "ones_like": num(1)}.get(leaf) or (args[1] if len(args) > 1 else num(0))
            if isinstance(v, LST):
                return self.vec_map(st, v, lambda s, x: fill)
            return self.fresh(st, N_("full_like", self.term(st, v), self.term(st, fill), None, None), "np")
        if leaf == "prod" and "axis" not in kwargs:
            return self.np_prod(st, v)
        if leaf == "argsort":
            kind, it = self.iterate(st, v)
            if kind == "known" and all(isinstance(x, N) for x in it):
                o = self.order(st, [x.p for x in it])
                if o is not None:
                    return self.ip.arr(st, [num(i) for i in o])
                self.ip.note_undecided(st, "argsort of undecided order")
                n = N_("argsort", tuple(x.p for x in it))
                return self.ip.arr(st, [N(P(N_("item", n, const(i), "int")), "int") for i in range(len(it))])
            return self.ip.opaque(st, "argsort", *args)
        if leaf in ("sum", "max", "min", "amax", "amin", "mean", "all", "any") and not isinstance(v, T) and "axis" not in kwargs and len(args) == 1:
            if isinstance(v, N):
                return v
            c = self.np_array(st, v)
            if isinstance(c, LST):
                return self.call_method(st, c, {"amax": "max", "amin": "min"}.get(leaf, leaf), [], {})
            v = c
        if leaf in ("sort",) and not isinstance(v, T):
            r = self.b_sorted(st, [v], {})
            return LST(self.ip.alloc(st, "list", c=st.heap[r.oid].c, arr=True)) if isinstance(r, LST) else r
        if leaf in ("int64", "int32", "int_", "int8", "uint8", "intp"):
            return self.b_int(st, args, kwargs)
        if leaf in ("float64", "float32", "float_"):
            return self.b_float(st, args, kwargs)
        if leaf in ("issubdtype",):
            return B(N_("pred", "issubdtype", *[self.ip.freeze(st, a) for a in args]))
        if leaf in ("isscalar",):
            return K(isinstance(v, (N, K)))
        if leaf == "ndim":
            return self.ip.getattr(st, v, "ndim") if isinstance(v, (T, LST)) else num(0)
        if leaf == "shape":
            return self.ip.getattr(st, v, "shape") if isinstance(v, T) else self.ip.opaque(st, "np.shape", v)
        if leaf in ("stack", "concatenate"):
            return self.cat(st, leaf, args, kwargs, "np")
        if leaf == "flip":
            if isinstance(v, LST):
                return self.getitem(st, v, SLC(NONE, NONE, num(-1)))
        if leaf in ("isclose", "allclose", "array_equal"):
            return B(N_("pred", leaf, *[self.ip.freeze(st, a) for a in args]))
        if leaf in ("dtype",):
            return S(N_("dtype_lit", *[self.ip.freeze(st, a) for a in args]), "dtype")
        if leaf in ("linspace", "eye", "diag", "outer", "convolve", "meshgrid", "tril", "triu", "identity", "frompyfunc", "vectorize"):
            if leaf == "diag" and isinstance(v, LST):
                v = self.vec_to_T(st, v)
            return self.fresh(st, N_("npcall", leaf, *[self.ip.freeze(st, a) for a in args],
                                     tuple((k, self.ip.freeze(st, x)) for k, x in sorted(kwargs.items()))), "np")
        if isinstance(v, T) and st.heap[v.oid].lib == "torch":
            # numpy ufunc on a torch tensor: leaves the tensor library
            t = N_("numpy", self.cell_term(st, v.oid))
            v = self.fresh(st, t, "np")
            args = [v] + args[1:]
        if isinstance(v, K) and isinstance(v.v, str):
            return self.ip.opaque(st, "numpy." + leaf, *args)
        if isinstance(v, DCT):
            self.ip.do_raise(st, "TypeError", True)
        return self.tensor_op(st, leaf, args, kwargs, "np")

    # ------------------------------------------------------------ methods
    def call_method(self, st, o, name, args, kwargs):
        if isinstance(o, U):
            return self.ip.lift(st, o, lambda s, x: self.call_method(s, x, name, args, kwargs))
        args = [a[1] if isinstance(a, tuple) else a for a in args]
        if isinstance(o, T):
            return self.lift_args(st, list(args), dict(kwargs), lambda s, a, k: self.tensor_method(s, o, name, list(a), dict(k)))
        if isinstance(o, LST):
            if st.heap[o.oid].arr:
                return self.arr_method(st, o, name, args, kwargs)
            return self.list_method(st, o, name, args, kwargs)
        if isinstance(o, DCT):
            return self.lift_args(st, list(args), dict(kwargs), lambda s, a, k: self.dict_method(s, o, name, a, k))
        if isinstance(o, K) and isinstance(o.v, str):
            return self.str_method(st, o, name, args, kwargs)
        if isinstance(o, (TUP, SQ, IT)):
            return self.tuple_method(st, o, name, args)
        if isinstance(o, NDS):
            if name == "map":
                return self.nds_map(st, o, args[0] if args else kwargs["func"])
            if name == "starmap":
                f = args[0] if args else kwargs["func"]

                def one(x):
                    kind, it = self.iterate(st, x)
                    return self.ip.call(st, f, it if kind == "known" else [x], {})
                return NDS(o.kind, tuple(one(x) for x in o.items), o.item_ndim)
            if name == "__len__":
                return self.b_len(st, [o], {})
            if name == "__getitem__":
                return self.nds_get(st, o, args[0])
            return self.nds_static(st, name, args, kwargs)
        if isinstance(o, INST):
            return self.module_method(st, o, name, args, kwargs)
        if isinstance(o, SUPER):
            if name in ("__init__", "__init_subclass__", "__setattr__", "__getattr__", "__del__"):
                if name == "__setattr__" and isinstance(args[0], K):
                    r = st.heap[o.self.oid]
                    at = dict(r.attrs)
                    at[args[0].v] = args[1]
                    st.heap[o.self.oid] = r.set(attrs=at)
                return NONE
            if name == "__new__":
                return self.ip.opaque(st, "object.__new__")
            return self.module_method(st, o.self, name, args, kwargs)
        if isinstance(o, XI):
            return self.xi_method(st, o, name, args, kwargs)
        if isinstance(o, CLS):
            if name == "__call__":
                return self.ip.call(st, o, args, kwargs)
            if name == "__init__":
                return NONE
            if name == "__subclasses__":
                return self.ip.opaque(st, "__subclasses__")
        if isinstance(o, N):
            if name in ("item", "conjugate", "tolist", "__int__", "__float__", "__index__", "copy"):
                return o
            if name == "astype":
                return self.b_int(st, [o], {}) if args and args[0] == EXT("builtins.int") else o
            if name in ("sum", "prod", "max", "min", "mean"):
                return o
            if name == "is_integer":
                return boolv(eq0(mod(o.p, ONE))) if o.ty != "int" and not is_int(o.p) else TRUE
            if name in ("all", "any"):
                return boolv(self.truth(st, o))
        if isinstance(o, (B, K)) and name in ("item", "all", "any"):
            return o
        if isinstance(o, FN) and name == "__call__":
            return self.ip.call_fn(st, o, args, kwargs)
        if isinstance(o, PARTIAL) and name == "__call__":
            return self.call_value(st, o, args, kwargs)
        if isinstance(o, SLC) and name == "indices":
            return self.slice_indices(st, o, self.num(st, args[0]))
        if isinstance(o, RNG):
            return self.tuple_method(st, self.as_seq(st, o), name, args)
        if isinstance(o, S):
            if o.ty == "rng" or o.ty == "generator":
                if name not in ("initial_seed", "get_state"):
                    self.ip.event("rng", st, fn="generator." + name, generator=o.n, site=self.ip.site())
                if name in ("manual_seed",):
                    return o
                return self.fresh(st, N_("rng", name, self.ip.site(), o.n), "np") if name not in ("initial_seed", "get_state") else S(N_("attr", o.n, name))
            if o.ty == "str" or name in ("upper", "lower", "strip", "title", "format", "join", "replace"):
                return S(N_("strm", name, o.n, *[self.ip.freeze(st, a) for a in args]), "str")
            return S(N_("mcall", name, o.n, *[self.ip.freeze(st, a) for a in args]))
        if o == NONE:
            self.ip.event("none-op", st, op="." + name)
            self.ip.do_raise(st, "AttributeError", True)
        return self.ip.opaque(st, f"method {name} of {type(o).__name__}", *args)

    def slice_indices(self, st, o, n):
        step = 1 if o.c == NONE else self.num(st, o.c).as_int()
        if step is None:
            return self.ip.opaque(st, "slice.indices")
        s = SQ(n, IVAR, N(P(IVAR), "int"))
        if step > 0:
            lo = self.bound(st, None if o.a == NONE else self.num(st, o.a), n, ZERO)
            hi = self.bound(st, None if o.b == NONE else self.num(st, o.b), n, n)
            return TUP((N(minmax("max", [ZERO, minmax("min", [lo, n])]), "int"),
                        N(minmax("max", [ZERO, minmax("min", [hi, n])]), "int"), num(step)))
        if step < 0:
            last = sub(n, ONE)
            lo = last if o.a == NONE else self.neg_bound(st, self.num(st, o.a), n)
            hi = const(-1) if o.b == NONE else self.neg_bound(st, self.num(st, o.b), n)
            if lo is not None and hi is not None:
                return TUP((N(lo, "int"), N(hi, "int"), num(step)))
        return self.ip.opaque(st, "slice.indices")

    def neg_bound(self, st, p, n):
        """start or stop of a slice with negative step"""
        k = p.as_int()
        if k is None:
            return None
        last = sub(n, ONE)
        if k < 0:
            return minmax("max", [const(-1), add(n, p)])
        return minmax("min", [p, last])

    def tensor_method(self, st, o, name, args, kwargs):
        if st.heap[o.oid].lib == "np":
            z = nparr.method(self, st, o, name, args, kwargs)
            if z is not None:
                return z
        r = st.heap[o.oid]
        lib = r.lib
        t = self.cell_term(st, o.oid)
        if name == "size":
            sh = self.shape(st, t)
            if args:
                return self.getitem(st, sh, args[0])
            if "dim" in kwargs:
                return self.getitem(st, sh, kwargs["dim"])
            return sh
        if name in ("dim", "ndimension"):
            return N(self.rank_of(t), "int")
        if name == "__len__":
            return self.b_len(st, [o], {})
        if name == "item":
            return N(P(N_("item_", t)))
        if name == "tolist":
            at = t.as_atom()
            if at is not None and at.op == "carr":
                def build(sh, fl):
                    if not sh:
                        return N(nparr.poly(fl[0]))
                    n = len(fl) // sh[0] if sh[0] else 0
                    return self.ip.lst(st, [build(sh[1:], fl[i * n:(i + 1) * n]) for i in range(sh[0])])
                return build(*at.args)
            return S(N_("tolist", t), "seq")
        if name in ("numpy", "__array__"):
            return self.mkmaybe(st, o, P(N_("numpy", t)), "np")
        if name == "astype" and lib == "np":
            return self.fresh(st, N_("cast", t, self.ip.freeze(st, args[0]), None), "np")
        if name in ("to", "type", "float", "double", "half", "bfloat16", "int", "long", "short", "bool", "type_as", "cpu",
                    "cuda"):
            d = v = None
            if name in ("float", "double", "half", "bfloat16", "int", "long", "short", "bool"):
                d = N_("ext", "torch." + name)
            elif name in ("cpu", "cuda"):
                v = N_("device_lit", name)
            elif name == "type_as":
                d, v = N_("dtype", self.term(st, args[0])), N_("device", self.term(st, args[0]))
            else:
                d, v = self.dd(st, kwargs)
                for a in args:
                    if isinstance(a, T):
                        d, v = self.prov("dtype", self.term(st, a)), self.prov("device", self.term(st, a))
                    elif isinstance(a, S) and a.ty == "dtype" or isinstance(a, EXT):
                        d = self.ip.freeze(st, a)
                    elif isinstance(a, S) and a.ty == "device":
                        v = a.n
                    elif isinstance(a, K) and isinstance(a.v, str):
                        if name == "to":
                            v = N_("device_lit", a.v)
                        else:
                            d = N_("dtype_lit", a.v)
                    elif isinstance(a, S):
                        d = a.n
                if name == "type" and not args and not kwargs:
                    return S(N_("strm", "type", N_("tref", t)), "str")
            new = self.cast_term(t, d, v)
            if new == t:
                return self.mkmaybe(st, o, t)
            if "copy" in kwargs and kwargs["copy"] == TRUE:
                return self.fresh(st, new, lib)
            return self.mkmaybe(st, o, new)
        if name in ("requires_grad_", "retain_grad"):
            return o if name != "retain_grad" else NONE
        if name in INF_FACTORY:
            kw = dict(kwargs)
            kw.setdefault("dtype", S(self.prov("dtype", t), "dtype"))
            kw.setdefault("device", S(self.prov("device", t), "device"))
            if name == "new_tensor":
                return self.mk_tensor(st, "tensor", args, kw)
            return self.factory(st, name[4:], args, kw)
        if name in ("backward", "register_hook"):
            self.ip.event("mutate", st, owner=r.owner, oid=o.oid, how="backward()", may=True)
            return NONE
        if name in ("data_ptr", "stride", "storage_offset", "element_size", "get_device"):
            return N(P(N_("meta", name, t)), "int")
        if name in ("is_contiguous", "is_floating_point", "is_complex", "is_pinned"):
            return B(N_("pred", name, t))
        if name in RNGM_:
            g = kwargs.get("generator", NONE)
            gt = None if g == NONE else self.ip.freeze(st, g)
            site = self.ip.site()
            self.ip.event("rng", st, fn="Tensor." + name, generator=gt, site=site)
            val = P(N_("rngl", name.rstrip("_"), site, gt, t, tuple(self.ip.freeze(st, a) for a in args), None, None))
            if name.endswith("_"):
                self.note_inplace(st, o, name, None)
                self.write_cell(st, o.oid, val, how=name)
                return o
            return self.fresh(st, val)
        if name in ("__getitem__",):
            return self.getitem(st, o, args[0])
        if name in ("__setitem__",):
            return self.setitem(st, o, args[0], args[1])
        if name.endswith("_") and not name.startswith("_"):
            return self.inplace_method(st, o, name, args, kwargs)
        if name == "fill" and lib == "np":
            return self.inplace_method(st, o, "fill_", args, kwargs) and NONE
        if name == "sort" and lib == "np":
            self.write_cell(st, o.oid, P(N_("sort", t, None, ())), how="sort()")
            return NONE
        if name == "where":
            kwargs = {**kwargs, "$method": True}
        return self.tensor_op(st, name, [o] + args, kwargs, lib)

    def inplace_method(self, st, o, name, args, kwargs):
        base = name[:-1]
        t = self.cell_term(st, o.oid)
        self.note_inplace(st, o, name, args[0] if args and isinstance(args[0], (T, N)) else None)
        if base == "zero":
            new = P(N_("store", t, (), ZERO))
        elif base == "fill":
            new = P(N_("store", t, (), self.term(st, args[0] if args else kwargs["value"])))
        elif base in ("copy", "set"):
            new = P(N_("store", t, (), self.term(st, args[0])))
        elif base in ("index_fill", "index_copy", "index_add", "scatter", "scatter_add", "index_put", "masked_select"):
            new = P(N_("scatter", t, base, tuple(self.ip.freeze(st, a) for a in args)))
        elif base in ("requires_grad", "retain_grad", "share_memory"):
            return o
        elif base in ("unsqueeze", "squeeze", "transpose", "t", "resize", "swapaxes", "detach"):
            v = self.tensor_op(st, base, [o] + args, kwargs) if base != "resize" else self.fresh(st, N_("view", t, self.shape_arg(st, args)))
            new = self.term(st, v)
            r = st.heap[o.oid]
            self.ip.event("mutate", st, owner=r.owner, oid=o.oid, how=name, may=False)
            if r.owner != "call" and self.ip.phase == "call":
                self.ip.mark_written(st, ("cell", o.oid))
            if r.term is not None:
                st.heap[o.oid] = r.set(term=new)
            return o
        else:
            v = self.tensor_op(st, base, [o] + args, kwargs)
            new = self.term(st, v if not isinstance(v, TUP) else v.items[0])
        self.write_cell(st, o.oid, new, how=name)
        return o

    def arr_method(self, st, o, name, args, kwargs):
        z = nparr.method(self, st, o, name, args, kwargs) if st.heap[o.oid].arr != "obj" and name not in ("tolist", "copy", "ravel", "flatten", "sum") else None
        if z is not None:
            return z
        c = self.content(st, o)
        if isinstance(c, (TUP, SQ)):
            if name == "sum" and not args and "axis" not in kwargs:
                return self.vsum(st, c)
            if name == "prod" and not args:
                return self.np_prod(st, o)
            if name in ("tolist", "copy", "flatten", "ravel", "astype", "squeeze"):
                if name == "tolist" and st.heap[o.oid].arr == "obj":
                    return self.obj_list(st, o)
                if name == "tolist":
                    return self.ip.lst(st, c)
                if name == "astype" and args and args[0] == EXT("builtins.int"):
                    return self.vec_map(st, o, lambda s, x: self.b_int(s, [x], {}))
                return LST(self.ip.alloc(st, "list", c=c, arr=True))
            if name in ("all", "any") and not args:
                return self._anyall(st, [c], name)
            if name in ("max", "min") and not args:
                return self._minmax(st, [c], {}, name)
            if name == "mean" and not args:
                import ast
                return self.binop(st, ast.Div(), self.vsum(st, c), self.b_len(st, [o], {}))
            if name == "dot" and args and isinstance(args[0], LST):
                z = self.vec_binop(st, lambda s, x, y: self.n_mul(s, x, y), o, args[0])
                if z is not None:
                    return self.vsum(st, self.content(st, z))
            if name == "argsort":
                return self.np_fn(st, "numpy.argsort", "argsort", [o] + args, kwargs)
            if name == "fill":
                self.list_touch(st, o, "fill")
                nv = self.vec_map(st, o, lambda s, x: args[0])
                st.heap[o.oid] = st.heap[o.oid].set(c=st.heap[nv.oid].c)
                return NONE
            if name == "sort":
                r = self.b_sorted(st, [o], {})
                self.list_touch(st, o, "sort")
                if isinstance(r, LST):
                    st.heap[o.oid] = st.heap[o.oid].set(c=st.heap[r.oid].c)
                return NONE
            if name == "item":
                return self.seq_get(st, c, args[0] if args else num(0))
        return self.tensor_method(st, self.vec_to_T(st, o), name, args, kwargs)

    def n_mul(self, st, x, y):
        import ast
        return self.binop(st, ast.Mult(), x, y)

    def list_method(self, st, o, name, args, kwargs):
        r = st.heap[o.oid]
        if name == "append":
            self.list_append(st, o, args[0], quiet=(r.owner == "call"))
            return NONE
        if name == "extend":
            self.list_extend(st, o, args[0])
            return NONE
        c = self.content(st, o)
        if name == "copy":
            return LST(self.ip.alloc(st, "list", c=c, arr=r.arr))
        if name in ("index", "count", "__len__", "__getitem__", "__contains__"):
            return self.tuple_method(st, c, name, args)
        if name == "insert":
            self.list_touch(st, o, "insert")
            k = self.num(st, args[0])
            if isinstance(c, TUP) and k.as_int() is not None:
                it = list(c.items)
                it.insert(k.as_int(), args[1])
                st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(it)))
                return NONE
            if k == ZERO and isinstance(c, SQ):
                st.heap[o.oid] = st.heap[o.oid].set(c=self.concat(st, TUP((args[1],)), c))
                return NONE
        if name == "pop":
            self.list_touch(st, o, "pop")
            k = self.num(st, args[0]).as_int() if args else -1
            if isinstance(c, TUP) and k is not None:
                it = list(c.items)
                if not it:
                    self.ip.do_raise(st, "IndexError", True)
                v = it.pop(k)
                st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(it)))
                return v
        if name == "reverse":
            self.list_touch(st, o, "reverse")
            if isinstance(c, TUP):
                st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(reversed(c.items))))
                return NONE
            if isinstance(c, SQ):
                st.heap[o.oid] = st.heap[o.oid].set(c=self.sq_slice(st, c, SLC(NONE, NONE, num(-1))))
                return NONE
        if name == "sort":
            v = self.b_sorted(st, [o], kwargs)
            self.list_touch(st, o, "sort")
            if isinstance(v, LST):
                st.heap[o.oid] = st.heap[o.oid].set(c=st.heap[v.oid].c)
            return NONE
        if name == "clear":
            self.list_touch(st, o, "clear")
            st.heap[o.oid] = st.heap[o.oid].set(c=TUP(()))
            return NONE
        if name == "remove":
            self.list_touch(st, o, "remove")
            if isinstance(c, TUP):
                for i, x in enumerate(c.items):
                    e = self.ip.decide(st, self.eq(st, x, args[0]))
                    if e is True:
                        st.heap[o.oid] = st.heap[o.oid].set(c=TUP(c.items[:i] + c.items[i + 1:]))
                        return NONE
                    if e is None:
                        break
        return self.ip.opaque(st, "list." + name, o, *args)

    def tuple_method(self, st, o, name, args):
        if isinstance(o, IT):
            o = TUP(o.items)
        if name == "index" and isinstance(o, TUP):
            cands = []
            for i, x in enumerate(o.items):
                c = self.eq(st, x, args[0])
                d = self.ip.decide(st, c)
                if d is True and not cands:
                    return num(i)
                if d is not False:
                    cands.append((c, num(i)))
                    if d is True:
                        break
            if not cands:
                self.ip.do_raise(st, "ValueError", True)
            r = cands[-1][1]
            for c, v in reversed(cands[:-1]):
                r = self.ip.join_val(st, c, v, r)
            return r
        if name == "count" and isinstance(o, TUP):
            ds = [self.ip.decide(st, self.eq(st, x, args[0])) for x in o.items]
            if None not in ds:
                return num(sum(1 for d in ds if d))
        if name == "numel":
            return self.np_prod(st, o)
        if name == "__len__":
            return self.b_len(st, [o], {})
        if name == "__getitem__":
            return self.getitem(st, o, args[0])
        if name == "__contains__":
            return boolv(self.contains(st, o, args[0]))
        return self.ip.opaque(st, "tuple." + name, o, *args)

    def dict_method(self, st, o, name, args, kwargs):
        r = st.heap[o.oid]
        if r.isset:
            def other(a):
                if isinstance(a, DCT):
                    return st.heap[a.oid].k
                kind, it = self.iterate(st, a)
                return {self.dkey(st, x): TRUE for x in it} if kind == "known" else {}
            if name in ("union", "intersection", "difference", "symmetric_difference"):
                k = dict(r.k)
                for a in args:
                    q = other(a)
                    if name == "union":
                        k.update(q)
                    elif name == "intersection":
                        k = {x: v for x, v in k.items() if x in q}
                    elif name == "difference":
                        k = {x: v for x, v in k.items() if x not in q}
                    else:
                        k = {**{x: v for x, v in k.items() if x not in q}, **{x: v for x, v in q.items() if x not in k}}
                return DCT(self.ip.alloc(st, "dict", k=k, isset=True))
            if name in ("issubset", "issuperset", "isdisjoint"):
                q = other(args[0])
                return K({"issubset": set(r.k) <= set(q), "issuperset": set(r.k) >= set(q),
                          "isdisjoint": not (set(r.k) & set(q))}[name])
            k = dict(r.k)
            if name == "add":
                k[self.dkey(st, args[0])] = TRUE
            elif name in ("remove", "discard"):
                if self.dkey(st, args[0]) not in k and name == "remove":
                    self.ip.do_raise(st, "KeyError", True)
                k.pop(self.dkey(st, args[0]), None)
            elif name == "update":
                for a in args:
                    k.update(other(a))
            elif name == "pop":
                if not k:
                    self.ip.do_raise(st, "KeyError", True)
                x = next(iter(k))
                k.pop(x)
                self.list_touch(st, o, name, quiet=(r.owner == "call"))
                st.heap[o.oid] = st.heap[o.oid].set(k=k)
                return x
            elif name == "clear":
                k = {}
            elif name == "copy":
                return DCT(self.ip.alloc(st, "dict", k=k, isset=True))
            else:
                return self.ip.opaque(st, "set." + name, o, *args)
            self.list_touch(st, o, name, quiet=(r.owner == "call"))
            st.heap[o.oid] = st.heap[o.oid].set(k=k)
            return NONE
        if name == "get":
            return self.dict_get(st, o, args[0], args[1] if len(args) > 1 else NONE)
        if name == "keys":
            return IT(tuple(r.k))
        if name == "values":
            return IT(tuple(r.k.values()))
        if name == "items":
            return IT(tuple(TUP((a, b)) for a, b in r.k.items()))
        if name == "copy":
            return self.ip.dct(st, r.k)
        if name == "__contains__":
            return boolv(self.contains(st, o, args[0]))
        if name == "__getitem__":
            return self.dict_get(st, o, args[0], None)
        k = dict(r.k)
        res = NONE
        if name == "update":
            for a in args:
                if isinstance(a, DCT):
                    k.update(st.heap[a.oid].k)
            for n, v in kwargs.items():
                k[K(n)] = v
        elif name == "setdefault":
            kk = self.dkey(st, args[0])
            if kk in k:
                return k[kk]
            k[kk] = args[1] if len(args) > 1 else NONE
            res = k[kk]
        elif name == "pop":
            kk = self.dkey(st, args[0])
            if kk not in k:
                if len(args) > 1:
                    return args[1]
                self.ip.do_raise(st, "KeyError", True)
            res = k.pop(kk)
        elif name == "clear":
            k = {}
        elif name == "__setitem__":
            k[self.dkey(st, args[0])] = args[1]
        else:
            return self.ip.opaque(st, "dict." + name, o, *args)
        self.list_touch(st, o, name, quiet=(r.owner == "call"))
        st.heap[o.oid] = st.heap[o.oid].set(k=k)
        return res

    def str_method(self, st, o, name, args, kwargs):
        vals = []
        for a in args:
            a = self.ip.one(st, a)
            if isinstance(a, K):
                vals.append(a.v)
            elif isinstance(a, N) and a.p.as_int() is not None:
                vals.append(a.p.as_int())
            elif isinstance(a, (TUP, LST, IT)):
                kind, it = self.iterate(st, a)
                if kind == "known" and all(isinstance(x, K) and isinstance(x.v, str) for x in it):
                    vals.append([x.v for x in it])
                else:
                    vals = None
                    break
            else:
                vals = None
                break
        if vals is not None and not kwargs:
            try:
                r = getattr(o.v, name)(*vals)
            except ValueError:
                self.ip.do_raise(st, "ValueError", True)
            except AttributeError:
                self.ip.do_raise(st, "AttributeError", True)
            except TypeError:
                self.ip.do_raise(st, "TypeError", True)
            if isinstance(r, bool):
                return K(r)
            if isinstance(r, str):
                return K(r)
            if isinstance(r, int):
                return num(r)
            if isinstance(r, list):
                return self.ip.lst(st, [K(x) for x in r])
            if isinstance(r, tuple):
                return TUP(tuple(K(x) for x in r))
        if name in ("index", "find", "count", "rindex", "rfind"):
            return N(P(N_("argint", N_("strm", name, o.v, *[self.ip.freeze(st, a) for a in args]))), "int")
        if name in ("startswith", "endswith", "isdigit"):
            return B(N_("pred", name, o.v, *[self.ip.freeze(st, a) for a in args]))
        return S(N_("strm", name, o.v, *[self.ip.freeze(st, a) for a in args]), "str")

    def module_method(self, st, o, name, args, kwargs):
        if not isinstance(o, INST):
            return NONE
        if name in ("eval", "train", "to", "cuda", "cpu", "float", "double", "half", "requires_grad_", "share_memory", "apply"):
            if self.ip.phase == "call":
                self.ip.note_undecided(st, "module method " + name)
            return o
        if name in ("register_buffer", "register_parameter", "add_module", "register_module"):
            self.ip.setattr(st, o, args[0].v if isinstance(args[0], K) else "?", args[1])
            return NONE
        if name in ("__init__", "__init_subclass__", "zero_grad", "register_forward_hook", "register_backward_hook"):
            return NONE
        if name == "__setattr__":
            return self.ip.setattr(st, o, args[0].v, args[1])
        if name in ("__call__", "forward"):
            f = self.ip.class_lookup(st, st.heap[o.oid].cls, "forward")
            if f is not None:
                return self.ip.call_fn(st, f, [o] + args, kwargs)
        if name in ("__repr__", "__str__", "extra_repr", "__format__"):
            return S(N_("repr", o.oid), "str")
        if name in ("__hash__",):
            return N(P(N_("id", o.oid)), "int")
        if name in ("parameters", "buffers", "children", "modules", "named_parameters", "state_dict", "named_children",
                    "named_modules", "named_buffers"):
            return S(N_("mcall", name, N_("inst", o.oid)))
        self.ip.event("no-attr", st, obj=st.heap[st.heap[o.oid].cls.oid].name, attr=name)
        self.ip.do_raise(st, "AttributeError", True)

    def xi_method(self, st, x, name, args, kwargs):
        r = st.heap[x.oid]
        if name in ("__call__", "forward"):
            return self.call_xi(st, x, args, kwargs)
        if r.items_ is not None:
            if name == "keys":
                return IT(tuple(r.items_))
            if name == "values":
                return IT(tuple(r.items_.values()))
            if name == "items":
                return IT(tuple(TUP((a, b)) for a, b in r.items_.items()))
            if name == "__getitem__":
                return self.getitem(st, x, args[0])
            if name == "append":
                d = dict(r.items_)
                d[num(len(d))] = args[0]
                st.heap[x.oid] = r.set(items_=d)
                return x
            if name == "update" and isinstance(args[0], DCT):
                st.heap[x.oid] = r.set(items_={**r.items_, **st.heap[args[0].oid].k})
                return NONE
        if name in ("to", "eval", "train", "float", "double", "cuda", "cpu", "requires_grad_"):
            return x
        if name in ("reset_parameters",):
            self.ip.event("rng", st, fn="reset_parameters", generator=None, site=self.ip.site())
            return NONE
        return S(N_("mcall", name, N_("xinst", x.oid)))

    # ------------------------------------------------------------ calls of values
    def call_value(self, st, f, args, kwargs):
        if isinstance(f, XI):
            return self.call_xi(st, f, args, kwargs)
        if isinstance(f, PARTIAL):
            return self.ip.call(st, f.fn, list(f.args) + list(args), {**dict(f.kw), **kwargs})
        if isinstance(f, S):
            n = N_("call", f.n, *[self.ip.freeze(st, a) for a in args], tuple((k, self.ip.freeze(st, v)) for k, v in sorted(kwargs.items())))
            if f.ty == "callable":
                # user supplied callback: documented to fill its tensor argument in place
                for a in args:
                    if isinstance(a, T):
                        self.ip.event("callback", st, oid=a.oid)
                        t = self.cell_term(st, a.oid)
                        self.write_cell(st, a.oid, P(N_("cbwrite", t, n)), how="callback")
                return S(n)
            self.ip.note_undecided(st, "call of an unknown value")
            return S(n)
        if isinstance(f, (N, K, B, TUP, LST, DCT, T)):
            self.ip.do_raise(st, "TypeError", True)
        return self.ip.opaque(st, "call of " + type(f).__name__, *args)


from .vals import _mkclass
PARTIAL = _mkclass("PARTIAL", ["fn", "args", "kw"])
RNGF_ = {"rand", "randn", "randint", "randperm", "bernoulli", "poisson", "normal", "multinomial", "rand_like",
         "randn_like", "randint_like", "rrelu"}
RNGM_ = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "geometric_", "log_normal_",
         "multinomial", "bernoulli"}


def subst_v_(v, m):
    from .models import subst_v
    return subst_v(v, m)
