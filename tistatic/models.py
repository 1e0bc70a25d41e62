"""Models of Python builtins, torch, numpy and the package's NdSpec for interp.py.

Everything here is a table of what a library operation does to the value-dependence graph
and to the aliasing of storage (fresh result, view, maybe-view, in-place).  Operations that
are not in a table default to "fresh result depending on all arguments"."""
import ast
import math
from .vals import *
from . import nparr
from .terms import *
from .terms import ge0, gt0, eq0, not_, and_, or_, phi, bphi
from . import lin
from .extmodels import ExtMixin

# name -> parameter names after self (with defaults); canonical argument order for terms
SIG = {
    "mean": [("dim", None), ("keepdim", False)], "sum": [("dim", None), ("keepdim", False)],
    "prod": [("dim", None), ("keepdim", False)], "amax": [("dim", ()), ("keepdim", False)],
    "amin": [("dim", ()), ("keepdim", False)], "max": [("dim", None), ("keepdim", False)],
    "min": [("dim", None), ("keepdim", False)], "median": [("dim", None), ("keepdim", False)],
    "std": [("dim", None), ("unbiased", True), ("keepdim", False)],
    "var": [("dim", None), ("unbiased", True), ("keepdim", False)],
    "norm": [("p", None), ("dim", None), ("keepdim", False)],
    "all": [("dim", None), ("keepdim", False)], "any": [("dim", None), ("keepdim", False)],
    "argmax": [("dim", None), ("keepdim", False)], "argmin": [("dim", None), ("keepdim", False)],
    "cumsum": [("dim", None)], "cumprod": [("dim", None)], "softmax": [("dim", None)],
    "logsumexp": [("dim", None), ("keepdim", False)],
    "sort": [("dim", -1), ("descending", False)],
    "quantile": [("q", None), ("dim", None), ("keepdim", False)],
    "flip": [("dims", None)], "roll": [("shifts", None), ("dims", None)],
    "unfold": [("dimension", None), ("size", None), ("step", None)],
    "clamp": [("min", None), ("max", None)], "clip": [("min", None), ("max", None)],
    "where": [("other", None), ("third", None)],
    "masked_fill": [("mask", None), ("value", None)], "masked_scatter": [("mask", None), ("source", None)],
    "unsqueeze": [("dim", None)], "squeeze": [("dim", None)], "narrow": [("dim", None), ("start", None), ("length", None)],
    "select": [("dim", None), ("index", None)], "index_select": [("dim", None), ("index", None)],
    "transpose": [("dim0", None), ("dim1", None)], "swapaxes": [("dim0", None), ("dim1", None)],
    "movedim": [("source", None), ("destination", None)],
    "repeat_interleave": [("repeats", None), ("dim", None)],
    "matmul": [("other", None)], "dot": [("other", None)], "mm": [("other", None)],
    "add": [("other", None), ("alpha", 1)], "sub": [("other", None), ("alpha", 1)],
    "mul": [("other", None)], "div": [("other", None), ("rounding_mode", None)], "true_divide": [("other", None)],
    "multiply": [("other", None)], "divide": [("other", None)], "subtract": [("other", None), ("alpha", 1)],
    "pow": [("exponent", None)], "float_power": [("exponent", None)],
    "addcmul": [("tensor1", None), ("tensor2", None), ("value", 1)],
    "lerp": [("end", None), ("weight", None)],
    "gather": [("dim", None), ("index", None)], "maximum": [("other", None)], "minimum": [("other", None)],
    "fmod": [("other", None)], "remainder": [("other", None)], "atan2": [("other", None)],
    "copy": [("src", None)], "fill": [("value", None)],
    "diff": [("n", 1), ("dim", -1)], "cat": [("dim", 0)], "stack": [("dim", 0)],
    "chunk": [("chunks", None), ("dim", 0)], "split": [("split_size", None), ("dim", 0)], "unbind": [("dim", 0)],
    "flatten": [("start_dim", 0), ("end_dim", -1)],
}
ALIAS_KW = {"axis": "dim", "axes": "dims", "keepdims": "keepdim", "input": "self", "a_min": "min", "a_max": "max",
            "start_idx": "start"}
VIEW = {"unsqueeze", "squeeze", "view", "expand", "expand_as", "permute", "transpose", "t", "movedim", "swapaxes",
        "narrow", "select", "unfold", "diagonal", "view_as", "broadcast_to", "swapdims", "unflatten", "moveaxis"}
MAYBE = {"reshape", "contiguous", "to", "type", "float", "double", "half", "bfloat16", "int", "long", "type_as",
         "cpu", "cuda", "flatten", "ravel", "reshape_as", "squeeze_", "asarray", "ascontiguousarray", "atleast_1d",
         "as_tensor", "from_numpy", "numpy", "require"}
IDENT = {"clone", "contiguous", "copy", "requires_grad_", "detach_copy"}
CAST = {"to", "type", "float", "double", "half", "bfloat16", "int", "long", "type_as", "cpu", "cuda", "bool", "short",
        "astype"}
FACTORY = {"zeros", "ones", "empty", "full", "arange", "linspace", "eye", "tensor", "logspace", "range",
           "zeros_like", "ones_like", "empty_like", "full_like", "scalar_tensor", "hann_window", "hamming_window"}
RNGF = {"rand", "randn", "randint", "randperm", "bernoulli", "poisson", "normal", "multinomial", "rand_like",
        "randn_like", "randint_like", "dropout", "rrelu"}
RNGM = {"normal_", "uniform_", "random_", "bernoulli_", "exponential_", "cauchy_", "geometric_", "log_normal_",
        "multinomial", "bernoulli"}
NAMEDPAIR = {"max", "min", "median", "sort", "mode", "kthvalue", "cummax", "cummin", "topk"}
SCALAR_OPS = {"sym", "isym", "fsym", "item", "dim", "rank", "len", "floordiv", "mod", "argint", "ndslen", "ivar",
              "fconst", "ceil", "trunc", "numel", "math", "argsort", "vsum", "vprod", "imu", "div0", "elem", "item_",
              "round"}
_tcache = {}
BROADCAST = {"where", "cmp", "tbin", "tmax", "tmin", "tun", "atan2"}


REDUCED = ("mean", "sum", "amax", "amin", "median", "max", "min", "prod", "var", "std")


def is_tensor_node(n):
    r = _tcache.get(n)
    if r is None:
        _tcache[n] = False
        if n.op in ("tin", "param"):
            r = True
        elif n.op in SCALAR_OPS:
            r = False
        elif n.op in ("min", "max") and all(isinstance(a, Poly) for a in n.args):
            r = False
        elif n.op in ("phi", "pow", "inv", "fn1"):
            r = any(is_tensor(a) for a in n.args if isinstance(a, (Poly, Node)))
        elif n.op == "mu":
            r = True
        elif n.op in ("stale", "opaque", "attr", "call", "unresolved", "dtype", "device"):
            r = False
        elif n.op in BOOL_OPS:
            r = False
        else:
            r = True
        _tcache[n] = r
    return r


def is_tensor(t):
    if isinstance(t, Node):
        return is_tensor_node(t)
    if isinstance(t, Poly):
        return any(is_tensor_node(a) for a in t.atoms())
    return False


def nonconst_tensor(t):
    return is_tensor(t)


def subst_v(v, m):
    """substitute inside an abstract value"""
    if isinstance(v, N):
        return N(P(subst(v.p, m)), v.ty)
    if isinstance(v, B):
        return boolv(subst(v.c, m))
    if isinstance(v, S):
        n = subst(v.n, m)
        if isinstance(n, Node):
            return S(n, v.ty)
        if isinstance(n, Poly):
            return N(n)
        return K(n)
    if isinstance(v, TUP):
        return TUP(tuple(subst_v(x, m) for x in v.items), v.names)
    if isinstance(v, SLC):
        return SLC(*[subst_v(x, m) for x in (v.a, v.b, v.c)])
    if isinstance(v, SQ):
        return SQ(P(subst(v.len, m)), v.var, subst_v(v.elem, m), tuple((P(subst(i, m)), subst_v(x, m)) for i, x in v.over), v.kind)
    if isinstance(v, U):
        return U(tuple((subst(c, m), subst_v(x, m)) for c, x in v.alts))
    return v


class Models(ExtMixin):
    SIGT = SIG
    ALIAS = ALIAS_KW

    def __init__(self, ip):
        self.ip = ip

    def canon(self, path):
        if path == "np" or path.startswith("np."):
            path = "numpy" + path[2:]
        return path

    # ================================================================ tensors: storage
    def cell_term(self, st, oid):
        r = st.heap[oid]
        if r.kind != "cell":
            return P(N_("obj", oid))
        if r.term is not None:
            return r.term
        if r.parents:
            (c, a), (_, b) = r.parents
            return phi(c, self.cell_term(st, a), self.cell_term(st, b))
        t = self.cell_term(st, r.base)
        return self.view_term(r.view, t)

    def view_term(self, view, t):
        if view[0] == "getitem":
            return P(N_("getitem", t, view[1])) if view[1] else t
        if view[0] == "id":
            return t
        return P(N_(view[0], t, *view[1:]))

    def roots(self, st, oid, seen=None):
        r = st.heap.get(oid)
        if r is None or r.kind != "cell":
            return [oid]
        out = []
        if r.term is not None:
            out.append(oid)
            for a in r.alias:
                out += self.roots(st, a)
        elif r.parents:
            for c, o in r.parents:
                if self.ip.decide(st, c) is not False:
                    out += self.roots(st, o)
        else:
            out += self.roots(st, r.base)
        return out

    def write_cell(self, st, oid, new, cond=True, how="write"):
        r = st.heap[oid]
        if r.term is not None:
            if cond is not True:
                new = phi(cond, new, r.term)
            st.heap[oid] = r.set(term=new)
            self.ip.event("mutate", st, owner=r.owner, oid=oid, how=how, may=False)
            if r.owner != "call" and self.ip.phase == "call":
                self.ip.mark_written(st, ("cell", oid))
            for a in r.alias:
                self.alias_write(st, a, how)
            return
        if r.parents:
            for c, o in r.parents:
                if self.ip.decide(st, c) is False:
                    continue
                self.write_cell(st, o, new, c if cond is True else and_(c, cond), how)
            return
        bt = self.cell_term(st, r.base)
        self.write_cell(st, r.base, self.unview(r.view, bt, new), cond, how)

    def alias_write(self, st, oid, how):
        for o in self.roots(st, oid):
            r = st.heap.get(o)
            if r is None or r.kind != "cell":
                continue
            self.ip.event("mutate", st, owner=r.owner, oid=o, how=how, may=True)
            if r.owner != "call" and self.ip.phase == "call":
                self.ip.mark_written(st, ("cell", o))
            st.heap[o] = r.set(term=phi(N_("bsym", f"mayalias{o}"), P(N_("maywrite", r.term, how)), r.term))

    def unview(self, view, bt, new):
        if view[0] == "getitem":
            return P(N_("store", bt, view[1], new))
        if view[0] == "id":
            return new
        return P(N_("wview", bt, tuple(view), new))

    def mkview(self, st, t, view, lib=None):
        r = st.heap[t.oid]
        return T(self.ip.alloc(st, "cell", term=None, base=t.oid, view=view, parents=None, alias=(),
                               lib=lib or r.lib, fresh=False))

    def mkmaybe(self, st, t, term, lib=None):
        r = st.heap[t.oid]
        return T(self.ip.alloc(st, "cell", term=term, base=None, view=None, parents=None, alias=(t.oid,),
                               lib=lib or r.lib, fresh=False))

    def fresh(self, st, term, lib="torch"):
        term = P(term)
        if st.nograd and not term.is_const:
            term = P(N_("nograd", term))
        return self.ip.cell(st, term, lib=lib)

    def term(self, st, v):
        """a term for a numeric / tensor-like value"""
        if isinstance(v, N):
            return v.p
        if isinstance(v, T):
            return self.cell_term(st, v.oid)
        if isinstance(v, K) and isinstance(v.v, bool):
            return const(int(v.v))
        if isinstance(v, B):
            return phi(v.c, ONE, ZERO)
        if isinstance(v, S):
            return P(v.n)
        f = self.ip.freeze(st, v)
        if isinstance(f, Poly):
            return f
        if isinstance(f, Node):
            return P(f)
        return P(N_("lit", f))

    # ================================================================ shapes
    def rank_of(self, t):
        if isinstance(t, Poly):
            return self.wider([self.rank_of(a) for a in t.atoms() if is_tensor_node(a)])
        n = t
        if n in self.ip.rank:
            return self.ip.rank[n]
        op, a = n.op, n.args
        if op == "getitem":
            r = self.rank_of(a[0])
            for ax, e in a[1]:
                if e[0] == "i":
                    r = sub(r, ONE)
                elif e[0] == "n":
                    r = add(r, ONE)
            return r
        if op == "unfold":
            return add(self.rank_of(a[0]), ONE)
        if op == "matmul":
            rb = self.rank_of(a[1])
            if rb == ONE:
                return sub(self.rank_of(a[0]), ONE)
            return self.rank_of(a[0])
        if op in ("vec",):
            return ONE
        if op == "carr":
            return const(len(a[0]))
        if op == "tensor":
            return self.rank_of(a[0]) if isinstance(a[0], (Node, Poly)) else ONE
        if op in ("store", "flip", "roll", "cast", "detach", "nograd", "clamp", "wview", "maywrite", "abs", "sqrt", "fn1",
                  "masked_fill", "masked_scatter", "cumsum", "softmax", "contig", "conv1d", "conv2d", "conv3d", "reflection_pad2d", "round",
                  "full_like", "expandas", "padded", "from_numpy", "numpy"):
            return self.rank_of(a[0])
        if op in ("pow", "inv"):
            return self.rank_of(a[0])
        if op == "scatter":
            return self.rank_of(a[0])
        if op == "bcast" and isinstance(a[1], tuple):
            return self.wider([self.rank_of(x) for x in a[1] if isinstance(x, (Poly, Node)) and is_tensor(x)])
        if op in BROADCAST:
            return self.wider([self.rank_of(x) for x in a if isinstance(x, (Poly, Node)) and is_tensor(x)])
        if op == "rng" and (isinstance(a[3], tuple) or isinstance(a[3], Node) and a[3].op == "vec") if len(a) > 3 else False:
            return const(len(a[3])) if isinstance(a[3], tuple) else a[3].args[0]
        if op == "rngl" and isinstance(a[3], (Poly, Node)):
            return self.rank_of(a[3])
        if op == "phi":
            for x in a[1:]:
                if is_tensor(x):
                    return self.rank_of(x)
        if op == "unsqueeze" or op == "stack":
            x = a[0][0] if isinstance(a[0], tuple) else a[0]
            return add(self.rank_of(x), ONE)
        if op == "cat":
            return self.rank_of(a[0][0])
        if op in ("empty", "full"):
            sh = a[0]
            if isinstance(sh, tuple):
                return const(len(sh))
            if isinstance(sh, Node) and sh.op == "vec":
                return sh.args[0]
        if op in ("view", "reshape", "expand"):
            sh = a[1]
            if isinstance(sh, tuple):
                return const(len(sh))
            if isinstance(sh, Node) and sh.op == "vec":
                return sh.args[0]
        if op in ("mean", "sum", "amax", "amin", "median", "max", "min", "std", "var", "prod", "all", "any", "quantile") and len(a) > 2:
            dims, keep = a[1], a[-1]
            if dims is None:
                return ZERO
            if keep is True:
                return self.rank_of(a[0])
            k = len(dims) if isinstance(dims, tuple) else 1
            return sub(self.rank_of(a[0]), const(k))
        if op in ("permute", "transpose", "movedim", "fpad", "index_select"):
            return self.rank_of(a[0])
        if op == "repeat" and isinstance(a[1], tuple):
            return const(len(a[1]))
        if op == "mu" and n in self.ip.mu_defs:
            i = self.ip.mu_defs[n][0]
            if isinstance(i, Poly) and is_tensor(i):
                return self.rank_of(i)
        if op in ("arange", "linspace", "hann_window"):
            return ONE
        return P(N_("rank", n))

    def wider(self, ranks):
        """rank of a broadcast of operands of these ranks"""
        best = None
        for r in ranks:
            if best is None or best == ZERO or (r.is_const and best.is_const and r.const > best.const) \
                    or (not r.is_const and best.is_const):
                best = r
        return best if best is not None else ZERO

    def bdim(self, ts, r, i, depth):
        """length of axis i of a broadcast of operands of rank r"""
        best = None
        und = False  # an operand of smaller rank may or may not have this axis
        for x in ts:
            rx = self.rank_of(x)
            j = i
            if rx != r and rx.is_const and r.is_const:
                j = sub(i, sub(r, rx))
                if j.is_const and j.const < 0 or rx == ZERO:
                    continue
            elif rx != r and (rx.is_const or r.is_const or self.lacks(rx, r)):
                if rx == ZERO:
                    continue
                j = sub(i, sub(r, rx))
                if not j.is_const or j.const < 0:
                    neg = None if contains(j, lambda q: q is IVAR) else self.ip.decide(self.ip.st, gt0(sub(ZERO, j)))
                    if neg is True:
                        continue
                    if neg is None:
                        und = True
                        continue
            d = self.dim_of(x, j, depth + 1)
            if best is None or best == ONE:
                best = d
        if best is None or best == ONE:
            return P(N_("bdim", tuple(P(x) for x in ts), r, i)) if und else ONE
        return best

    def lacks(self, rx, r):
        """True when one rank exceeds the other by a known positive number"""
        d = sub(r, rx)
        return d.is_const and d.const > 0

    def axis(self, t, p):
        """canonical axis poly for an index into term t"""
        k = p.as_int()
        if k is not None and k < 0:
            return add(self.rank_of(t), p)
        return p

    def dim_of(self, t, i, depth=0):
        if isinstance(t, Poly):
            return self.bdim([a for a in t.atoms() if is_tensor_node(a)], self.rank_of(t), i, depth)
        n = t
        op, a = n.op, n.args
        if depth > 60:
            return P(N_("dim", n, i))
        so = self.ip.rank.get(("shapeof", n))
        if so is not None:
            return self.dim_of(so, i, depth + 1)
        sh = self.ip.rank.get(("shape", n))
        if sh is not None:
            k = i.as_int()
            if k is not None and k < len(sh):
                return sh[k]
        D = lambda x, j=i: self.dim_of(x, j, depth + 1)
        if op in ("store", "flip", "roll", "cast", "detach", "nograd", "clamp", "wview", "maywrite", "fn1",
                  "masked_fill", "masked_scatter", "cumsum", "softmax", "contig", "pow", "inv", "full_like", "from_numpy", "numpy", "scatter"):
            return D(a[0])
        if op in BROADCAST:
            return self.bdim([x for x in a if isinstance(x, (Poly, Node)) and is_tensor(x)], self.rank_of(n), i, depth)
        if op == "bcast" and isinstance(a[1], tuple):
            return self.bdim([x for x in a[1] if isinstance(x, (Poly, Node)) and is_tensor(x)], self.rank_of(n), i, depth)
        if op == "rng" and len(a) > 3:
            r = self.shape_index(a[3], i)
            if r is not None:
                return r
        if op == "rngl" and isinstance(a[3], (Poly, Node)):
            return D(a[3])
        if op == "fpad" and isinstance(a[1], tuple) and all(isinstance(q, Poly) for q in a[1]):
            k = sub(i, self.rank_of(n))
            if k.as_int() is not None:
                q = -1 - k.as_int()
                r = D(a[0])
                return add(r, add(a[1][2 * q], a[1][2 * q + 1])) if 0 <= q < len(a[1]) // 2 else r
        if op == "repeat" and isinstance(a[1], tuple) and i.as_int() is not None and 0 <= i.as_int() < len(a[1]):
            r, q = self.rank_of(a[0]).as_int(), i.as_int()
            if r is not None:
                j = q - (len(a[1]) - r)
                return P(a[1][q]) if j < 0 else mul(P(a[1][q]), D(a[0], const(j)))
        if op == "movedim":
            j = self.moved(a[1], a[2], i)
            if j is not None:
                return D(a[0], j)
        if op == "index_select" and isinstance(a[1], tuple) and len(a[1]) == 1 and isinstance(a[2], (Poly, Node)):
            d = sub(i, P(a[1][0]))
            if d.is_const:
                return D(a[2], ZERO) if d.const == 0 else D(a[0])
        if op == "padded":
            r = D(a[0])
            for ax, (b, f), mode in zip(a[1], a[2], a[3]):
                e = self.same_axis(i, ax)
                if e is None:
                    return P(N_("dim", n, i))
                if e:
                    if mode == "periodize":
                        r = add(r, mod(r, const(2)))
                    r = add(r, add(b, f))
            return r
        if op == "getitem":
            ints = [ax for ax, e in a[1] if e[0] == "i"]
            if any(e[0] == "n" for _, e in a[1]):
                r = self.rank_of(a[0]).as_int()
                k = i.as_int()
                if r is None or k is None or any(ax.as_int() is None for ax, _ in a[1]):
                    return P(N_("dim", n, i))
                axes = []
                for q in range(r + 1):
                    axes += [None] * sum(e[0] == "n" and ax == const(q) for ax, e in a[1])
                    if q < r and not any(e[0] == "i" and ax == const(q) for ax, e in a[1]):
                        axes.append(q)
                if not 0 <= k < len(axes):
                    return P(N_("dim", n, i))
                if axes[k] is None:
                    return ONE
                for ax, e in a[1]:
                    if ax == const(axes[k]) and e[0] == "s":
                        return self.slice_len(e, D(a[0], ax))
                    if ax == const(axes[k]) and e[0] == "l":
                        return ONE if not isinstance(e[1], tuple) else const(len(e[1]))
                return D(a[0], const(axes[k]))
            j = i
            if ints:
                # sort ints by constant difference to i
                ok = True
                ds = []
                for ax in ints:
                    d = sub(ax, i)
                    if d.is_const:
                        ds.append(d.const)
                    else:
                        ok = False
                if not ok:
                    return P(N_("dim", n, i))
                ds.sort()
                for d in ds:
                    if d <= sub(j, i).const:
                        j = add(j, ONE)
            for ax, e in a[1]:
                if e[0] not in ("s", "l"):
                    continue
                q = self.same_axis(j, ax)
                if q is None:
                    return P(N_("dim", n, i))
                if q:
                    if e[0] == "s":
                        return self.slice_len(e, D(a[0], j))
                    return ONE if not isinstance(e[1], tuple) else const(len(e[1]))
            return D(a[0], j)
        if op == "unfold":
            if contains(i, lambda q: q is IVAR) and not a[1].is_const:
                return P(N_("dim", n, i))
            if i == self.rank_of(a[0]):
                return a[2]
            q = self.same_axis(i, a[1])
            if q is None:
                return P(N_("dim", n, i))
            return add(floordiv(sub(D(a[0]), a[2]), a[3]), ONE) if q else D(a[0])
        if op == "matmul":
            if self.rank_of(a[1]) == ONE:
                return D(a[0])
        if op == "phi":
            if all(is_tensor(x) for x in a[1:]):
                return phi(a[0], D(a[1]), D(a[2]))
        if op in ("empty", "full", "view", "reshape", "expand"):
            sh = a[0] if op in ("empty", "full") else a[1]
            r = self.shape_index(sh, i)
            if r == const(-1) and op != "expand":
                r = self.inferred(a[0], sh, depth)
            if r is not None:
                return r
        if op in ("mean", "sum", "amax", "amin", "median", "max", "min") and len(a) > 2 and a[-1] is True:
            dims = a[1] if isinstance(a[1], tuple) else (a[1],)
            qs = [self.same_axis(i, P(d)) for d in dims if d is not None]
            if any(q is True for q in qs):
                return ONE
            if None in qs:
                return P(N_("dim", n, i))
            return D(a[0])
        if op in REDUCED and len(a) > 1 and a[-1] is False and isinstance(a[1], tuple) and a[1]:
            j = self.kept_axis(a[0], a[1], i)
            if j is not None:
                return D(a[0], j)
        if op == "unsqueeze":
            d = sub(i, a[1])
            if d.is_const:
                if d.const == 0:
                    return ONE
                return D(a[0], i if d.const < 0 else sub(i, ONE))
        if op == "stack":
            d = sub(i, a[1])
            if d.is_const:
                if d.const == 0:
                    return const(len(a[0])) if isinstance(a[0], tuple) else P(N_("dim", n, i))
                return D(a[0][0], i if d.const < 0 else sub(i, ONE))
        if op == "cat" and isinstance(a[0], tuple):
            d = sub(i, a[1])
            if d.is_const and d.const == 0:
                r = ZERO
                for x in a[0]:
                    r = add(r, D(x))
                return r
            if d.is_const:
                return D(a[0][0])
        if op == "vec":
            return a[0]
        if op == "tensor" and isinstance(a[0], Node) and a[0].op == "vec":
            return a[0].args[0]
        if op == "tensor" and isinstance(a[0], tuple):
            return const(len(a[0]))
        if op == "carr":
            k = i.as_int()
            if k is not None and k < len(a[0]):
                return const(a[0][k])
        if op == "mu" and n in self.ip.mu_defs and str(n.args[1]).startswith("h"):
            return D(self.ip.mu_defs[n][0])  # written in place only: the shape is that before the loop
        if op in ("conv1d", "conv2d", "conv3d") and isinstance(a[3], tuple):
            r = self.rank_of(a[0])
            d = sub(i, r)
            nd = int(op[4])
            if d.is_const:
                w = a[1]
                if d.const < -nd - 1:
                    return D(a[0])
                if d.const == -nd - 1:
                    return self.dim_of(w, ZERO, depth + 1)
                q = int(d.const) + nd
                st_, pd, dl = (x if not isinstance(x, tuple) else x[q] for x in a[3][:3])
                if all(isinstance(x, Poly) for x in (st_, pd, dl)):
                    k = self.dim_of(w, const(q + 2), depth + 1)
                    return add(floordiv(sub(sub(add(D(a[0]), mul(const(2), pd)), mul(dl, sub(k, ONE))), ONE), st_), ONE)
        if op == "reflection_pad2d":
            r = self.rank_of(a[0])
            l, rr, tp, b = a[1:5]
            if i == sub(r, ONE):
                return add(D(a[0]), add(l, rr))
            if i == sub(r, const(2)):
                return add(D(a[0]), add(tp, b))
            return D(a[0])
        return P(N_("dim", n, i))

    def inferred(self, t, sh, depth):
        """length of the axis given as -1 in a view"""
        k = self.rank_of(t).as_int()
        if not isinstance(sh, tuple) or k is None:
            return None
        num, den = ONE, ONE
        for q in range(k):
            num = mul(num, self.dim_of(t, const(q), depth + 1))
        for d in sh:
            if d != const(-1):
                den = mul(den, d)
        from .access import quotient, NoAccess
        try:
            q, r = quotient(num, den)
        except NoAccess:
            q, r = None, None
        return q if r == ZERO else floordiv(num, den)

    def same_axis(self, i, ax):
        d = sub(i, ax)
        if d.is_const:
            return d.const == 0
        if contains(i, lambda q: q is IVAR):
            return None
        return self.ip.decide(self.ip.st, eq0(d))

    def shape_index(self, sh, i):
        if isinstance(sh, tuple):
            k = i.as_int()
            if k is not None and -len(sh) <= k < len(sh):
                return sh[k] if isinstance(sh[k], Poly) else None
        if isinstance(sh, Node) and sh.op == "vec":
            ln, var, el, over = sh.args
            for j, v in reversed(over):
                d = sub(j, i)
                if d == ZERO:
                    return v
                if not d.is_const:
                    c = eq0(d)
                    if self.ip.decide(self.ip.st, c) is not False:
                        return None
            return P(subst(el, {var: i}))
        return None

    def slice_len(self, e, dim):
        _, a, b, c = e
        if c != ONE:
            k = c.as_int()
            if k is not None and k > 0 and b is None:
                # ceil((dim - a)/k)
                return floordiv(add(sub(dim, a), const(k - 1)), c)
            if k is not None and k < 0 and a is None and b is None:
                return floordiv(add(dim, const(-k - 1)), const(-k))
            return P(N_("slen", dim, a, b, c))
        lo = add(dim, a) if (a.as_int() is not None and a.as_int() < 0) else a
        if b is None:
            hi = dim
        elif b.as_int() is not None and b.as_int() < 0:
            hi = add(dim, b)
        else:
            hi = b
            if dim.is_const and hi.is_const:
                hi = const(min(dim.const, hi.const))
        d = sub(hi, lo)
        return ZERO if d.is_const and d.const < 0 else d

    def shape(self, st, t):
        r = self.rank_of(t)
        k = r.as_int()
        if k is not None and 0 <= k <= 16:
            return TUP(tuple(N(self.dim_of(t, const(q)), "int") for q in range(k)))
        return self.sq(r, IVAR, N(self.dim_of_var(t), "int"), (), "size")

    def moved(self, src, dst, i):
        """source axis of axis i after moving axis src to position dst"""
        one = lambda v: v[0] if isinstance(v, tuple) and len(v) == 1 else v
        src, dst = one(src), one(dst)
        if not isinstance(src, Poly) or not isinstance(dst, Poly):
            return None
        d = sub(i, dst)
        if not d.is_const:
            return None
        if d.const == 0:
            return src
        q = i if d.const < 0 else sub(i, ONE)
        d = sub(q, src)
        if not d.is_const:
            return None
        return q if d.const < 0 else add(q, ONE)

    def kept_axis(self, t, dims, i):
        """axis of t that becomes axis i after dropping dims, or None when their order is not known"""
        r = self.rank_of(t)
        ds = []
        for d in dims:
            d = P(d) if not isinstance(d, Poly) else d
            if d.as_int() is not None and d.as_int() < 0:
                d = add(d, r)
            ds.append(d)
        last = 0
        while sub(sub(r, ONE), const(last)) in ds:
            ds.remove(sub(sub(r, ONE), const(last)))
            last += 1
        j = i
        if not ds:
            return j
        if any(not sub(d, i).is_const for d in ds):
            return None
        for d in sorted(ds, key=lambda q: sub(q, i).const):
            if sub(d, i).const <= sub(j, i).const:
                j = add(j, ONE)
        return j

    def dim_of_var(self, t):
        return self.dim_of(t, P(IVAR))

    # ================================================================ symbolic sequences
    def sq(self, ln, var, elem, over=(), kind="tuple"):
        s = SQ(ln, var, elem, tuple(over), kind)
        n = ln.as_int()
        if n is not None and 0 <= n <= 64:
            return TUP(tuple(self.sq_get(self.ip.st, s, const(k)) for k in range(n)))
        return s

    def sq_get(self, st, s, i):
        k = i.as_int()
        if k is not None and k < 0:
            i = add(s.len, i)
        amb = []
        res = None
        for j, v in reversed(s.over):
            d = sub(j, i)
            if d == ZERO:
                res = v
                break
            if d.is_const:
                continue
            c = eq0(d)
            dec = self.ip.decide(st, c)
            if dec is True:
                res = v
                break
            if dec is None:
                amb.append((c, v))
        if res is None:
            res = self.sq_default(st, s, i)
        for c, v in reversed(amb):
            res = self.ip.join_val(st, c, v, res)
        return res

    def sq_default(self, st, s, i):
        el = s.elem
        if isinstance(el, N):
            # dims of a shape at a concrete index are recomputed precisely
            at = el.p.as_atom()
            if at is not None and at.op == "dim" and at.args[1] == P(s.var):
                return N(self.dim_of(at.args[0], i), "int")
            v = subst_v(el, {s.var: i})
            if isinstance(v, N):
                m = {}
                for q in walk(v.p):
                    if q.op == "dim" and q.args[0].op not in ("tin", "param") and q not in m and not contains(q.args[1], lambda z: z is s.var):
                        x = self.dim_of(q.args[0], q.args[1])
                        if x.as_atom() is not q:
                            m[q] = x
                if m:
                    v = N(P(subst(v.p, m)), v.ty)
            return v
        return subst_v(el, {s.var: i})

    def concat(self, st, a, b):
        if isinstance(a, TUP) and isinstance(b, TUP):
            return TUP(a.items + b.items)
        if isinstance(a, TUP) and not a.items:
            return b
        if isinstance(b, TUP) and not b.items:
            return a
        if isinstance(a, SQ) and isinstance(b, TUP):
            ov = list(a.over) + [(add(a.len, const(k)), v) for k, v in enumerate(b.items)]
            return self.sq(add(a.len, const(len(b.items))), a.var, a.elem, ov, a.kind)
        if isinstance(a, TUP) and isinstance(b, SQ):
            n = const(len(a.items))
            ov = [(const(k), v) for k, v in enumerate(a.items)] + [(add(i, n), v) for i, v in b.over]
            return self.sq(add(b.len, n), b.var, subst_v(b.elem, {b.var: sub(P(b.var), n)}), ov, b.kind)
        if isinstance(a, SQ) and isinstance(b, SQ):
            eb = subst_v(b.elem, {b.var: sub(P(a.var), a.len)})
            if eb == a.elem:
                ov = list(a.over) + [(add(i, a.len), v) for i, v in b.over]
                return self.sq(add(a.len, b.len), a.var, a.elem, ov, a.kind)
            if isinstance(a.elem, N) and isinstance(eb, N):
                c = gt0(sub(a.len, P(a.var)))
                ov = list(a.over) + [(add(i, a.len), v) for i, v in b.over]
                return self.sq(add(a.len, b.len), a.var, N(phi(c, a.elem.p, eb.p)), ov, a.kind)
        return self.ip.opaque(st, "sequence concatenation")

    def bound(self, st, p, ln, default):
        """python slice bound -> poly in [0, len] (best effort)"""
        if p is None:
            return default
        k = p.as_int()
        if k is not None and k < 0:
            return add(ln, p)
        c = ge0(p)
        if self.ip.decide(st, c) is False:
            return add(ln, p)
        return p

    def sq_slice(self, st, s, sl):
        a, b, c = [None if x == NONE else self.num(st, x) for x in (sl.a, sl.b, sl.c)]
        step = 1 if c is None else c.as_int()
        L = s.len
        if step == -1 and a is None and b is None:
            f = lambda i: sub(sub(L, ONE), i)
            return SQ(L, s.var, subst_v(s.elem, {s.var: f(P(s.var))}), tuple((f(i), v) for i, v in s.over), s.kind)
        if step != 1:
            return self.ip.opaque(st, "strided slice of a symbolic sequence")
        lo = self.bound(st, a, L, ZERO)
        hi = self.bound(st, b, L, L)
        if b is not None and not (b.as_int() is not None and b.as_int() < 0):
            if self.ip.decide(st, ge0(sub(L, hi))) is not True:
                hi = minmax("min", [hi, L])
        ln = sub(hi, lo)
        if s.kind != "size" and self.ip.decide(st, ge0(ln)) is not True:
            ln = minmax("max", [ln, ZERO])
        ov = []
        for i, v in s.over:
            j = sub(i, lo)
            k = j.as_int()
            if k is not None and k < 0:
                continue
            d = sub(ln, j)
            if d.is_const and d.const <= 0:
                continue
            ov.append((j, v))
        el = s.elem if lo == ZERO else subst_v(s.elem, {s.var: add(P(s.var), lo)})
        return self.sq(ln, s.var, el, ov, s.kind)

    def num(self, st, v):
        if isinstance(v, N):
            return v.p
        if isinstance(v, K) and isinstance(v.v, bool):
            return const(int(v.v))
        if isinstance(v, B):
            return phi(v.c, ONE, ZERO)
        if isinstance(v, S):
            return P(v.n)
        if isinstance(v, T):
            return P(N_("item_", self.cell_term(st, v.oid)))
        return P(N_("lit", self.ip.freeze(st, v)))

    def content(self, st, v):
        """TUP | SQ | U of a sequence value"""
        if isinstance(v, LST):
            return self.ip.one(st, st.heap[v.oid].c)
        return v

    def iterate(self, st, v, want=None):
        v = self.ip.one(st, v)
        if isinstance(v, LST):
            v = self.content(st, v)
        if isinstance(v, U):
            al = self.ip.alts(st, v)
            if want is not None:
                al = [(c, x) for c, x in al if not isinstance(x, TUP) or len(x.items) == want]
            if len(al) == 1:
                return self.iterate(st, al[0][1], want)
            # lengths differ: over-approximate by an opaque sequence
            self.ip.note_undecided(st, "iteration over alternatives")
            n = self.ip.freeze(st, v)
            return "sym", SQ(P(N_("len", n)), IVAR, S(N_("item", n, P(IVAR))))
        if isinstance(v, (TUP, IT)):
            return "known", list(v.items)
        if isinstance(v, K) and isinstance(v.v, str):
            return "known", [K(c) for c in v.v]
        if isinstance(v, DCT):
            return "known", list(st.heap[v.oid].k)
        if isinstance(v, NDS):
            return "known", list(v.items)
        if isinstance(v, RNG):
            d = sub(v.b, v.a)
            k, s = d.as_int(), v.s.as_int()
            if k is not None and s:
                cnt = max(0, -(-k // s))
                if cnt <= 300:
                    return "known", [N(add(v.a, const(j * s)), "int") for j in range(cnt)]
            return "sym", self.rng_sq(st, v)
        if isinstance(v, SQ):
            n = v.len.as_int()
            if n is not None:
                return "known", [self.sq_get(st, v, const(k)) for k in range(max(n, 0))]
            return "sym", v
        if isinstance(v, T):
            t = self.cell_term(st, v.oid)
            if len(t.t) == 1 and t.as_atom() is not None and t.as_atom().op == "carr":
                n = t.as_atom().args[0][0]
                return "known", [self.getitem(st, v, num(k)) for k in range(n)]
            n = self.dim_of(t, ZERO)
            k = n.as_int()
            if k is not None and k <= 64:
                return "known", [self.getitem(st, v, num(j)) for j in range(k)]
            if want is not None:
                return "known", [self.getitem(st, v, num(j)) for j in range(want)]
            return "sym", SQ(n, IVAR, self.getitem(st, v, N(P(IVAR), "int")))
        if isinstance(v, INST):
            f = self.ip.class_lookup(st, st.heap[v.oid].cls, "__iter__")
            if f is not None:
                return self.iterate(st, self.ip.call_fn(st, f, [v], {}), want)
        if isinstance(v, XI):
            r = st.heap[v.oid]
            if r.items_ is not None:
                return "known", list(r.items_)
        if v == NONE:
            self.ip.event("none-op", st, op="iterate")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(v, (N, B)) or isinstance(v, K):
            self.ip.do_raise(st, "TypeError", True)
        n = self.ip.freeze(st, v)
        n = n if isinstance(n, Node) else N_("lit", n)
        if want is not None:
            return "known", [self.item_of(n, const(j)) for j in range(want)]
        return "sym", SQ(P(N_("len", n)), IVAR, S(N_("item", n, P(IVAR))))

    def item_of(self, n, i):
        return S(N_("item", n, i))

    def rng_sq(self, st, v):
        s = v.s.as_int()
        if s is None:
            return SQ(P(N_("len", N_("range", v.a, v.b, v.s))), IVAR, N(add(v.a, mul(P(IVAR), v.s)), "int"))
        if s > 0:
            ln = floordiv(add(sub(v.b, v.a), const(s - 1)), const(s))
        else:
            ln = floordiv(add(sub(v.a, v.b), const(-s - 1)), const(-s))
        if self.ip.decide(st, ge0(ln)) is not True:
            ln = minmax("max", [ln, ZERO])
        return SQ(ln, IVAR, N(add(v.a, mul(P(IVAR), const(s))), "int"))

    def as_seq(self, st, v):
        """TUP or SQ or None"""
        v = self.ip.one(st, v)
        kind, it = self.iterate(st, v)
        if kind == "known":
            return TUP(tuple(it))
        return it

    def mark_filtered(self, v, var, cnds):
        return v

    # ================================================================ lists / dicts
    def list_touch(self, st, l, how, quiet=False):
        r = st.heap[l.oid]
        if not quiet:
            self.ip.event("mutate", st, owner=r.owner, oid=l.oid, how=how, may=False)
        if r.owner != "call" and self.ip.phase == "call":
            self.ip.mark_written(st, ("cont", l.oid))

    def list_append(self, st, l, v, quiet=False):
        r = st.heap[l.oid]
        self.list_touch(st, l, "append", quiet)
        c = self.ip.one(st, r.c)
        if isinstance(c, U):
            alts = tuple((k, self.concat(st, x, TUP((v,))) if isinstance(x, (TUP, SQ)) else x) for k, x in c.alts)
            st.heap[l.oid] = r.set(c=U(alts))
            return
        if not isinstance(c, (TUP, SQ)):
            st.heap[l.oid] = r.set(c=S(N_("append", self.ip.freeze(st, c), self.ip.freeze(st, v))))
            return
        st.heap[l.oid] = r.set(c=self.concat(st, c, TUP((v,))))

    def list_extend(self, st, l, v):
        r = st.heap[l.oid]
        self.list_touch(st, l, "extend")
        c = self.content(st, l)
        s = self.as_seq(st, v)
        if isinstance(c, (TUP, SQ)) and isinstance(s, (TUP, SQ)):
            n = self.concat(st, c, s)
            if not isinstance(n, (TUP, SQ)):
                n = SQ(P(N_("len", n.n)), IVAR, S(N_("item", n.n, P(IVAR))), (), "list")
            st.heap[l.oid] = r.set(c=n)
        else:
            n = N_("extend", self.ip.freeze(st, l), self.ip.freeze(st, v))
            st.heap[l.oid] = r.set(c=SQ(P(N_("len", n)), IVAR, S(N_("item", n, P(IVAR))), (), "list"))

    def dkey(self, st, v):
        if isinstance(v, N):
            k = v.p.as_int()
            if k is not None:
                return num(k)
        if isinstance(v, TUP):
            return TUP(tuple(self.dkey(st, x) for x in v.items))
        return v

    def make_set(self, st, v):
        d = {}
        if isinstance(v, TUP):
            for x in v.items:
                d[self.dkey(st, x)] = TRUE
            return DCT(self.ip.alloc(st, "dict", k=d, isset=True))
        return self.ip.opaque(st, "set of unknown elements", v)

    # ================================================================ truth / compare
    def truth(self, st, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, N):
            return not_(eq0(v.p))
        if isinstance(v, B):
            return v.c
        if isinstance(v, (TUP, IT)):
            return len(v.items) > 0
        if isinstance(v, LST):
            return self.truth(st, self.content(st, v))
        if isinstance(v, SQ):
            return gt0(v.len)
        if isinstance(v, DCT):
            return len(st.heap[v.oid].k) > 0
        if isinstance(v, NDS):
            return v.kind == "seq" and len(v.items) > 0
        if isinstance(v, S):
            return N_("truthy", v.n)
        if isinstance(v, T):
            return N_("truthy", self.cell_term(st, v.oid))
        if isinstance(v, RNG):
            return gt0(sub(v.b, v.a))
        if isinstance(v, U):
            return or_(*[and_(c, self.truth(st, x)) for c, x in v.alts])
        if isinstance(v, INST):
            f = self.ip.class_lookup(st, st.heap[v.oid].cls, "__bool__") or \
                self.ip.class_lookup(st, st.heap[v.oid].cls, "__len__")
            if f is not None:
                return self.truth(st, self.ip.call_fn(st, f, [v], {}))
        return True

    def compare(self, st, op, a, b):
        if isinstance(a, U) and not isinstance(op, (ast.Is, ast.IsNot)):
            return self.ip.lift(st, a, lambda s, x: self.compare(s, op, x, b))
        if isinstance(b, U) and not isinstance(op, (ast.Is, ast.IsNot)):
            return self.ip.lift(st, b, lambda s, x: self.compare(s, op, a, x))
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(st, a, b)
            return boolv(c if isinstance(op, ast.Is) else not_(c))
        if isinstance(op, (ast.In, ast.NotIn)):
            c = self.contains(st, b, a)
            return boolv(c if isinstance(op, ast.In) else not_(c))
        sym = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if isinstance(a, T) or isinstance(b, T):
            if sym in ("==", "!=") and (a == NONE or b == NONE or isinstance(a, K) or isinstance(b, K)):
                if not (isinstance(a, K) and isinstance(a.v, bool) or isinstance(b, K) and isinstance(b.v, bool)):
                    return K(sym == "!=")
            return self.fresh(st, N_("cmp", sym, self.term(st, a), self.term(st, b)))
        la, lb = a, b
        if isinstance(a, LST) and st.heap[a.oid].arr or isinstance(b, LST) and st.heap[b.oid].arr:
            r = self.vec_binop(st, lambda s, x, y: self.compare(s, op, x, y), a, b)
            if r is not None:
                return r
        if sym == "==":
            return boolv(self.eq(st, a, b))
        if sym == "!=":
            return boolv(not_(self.eq(st, a, b)))
        if a == NONE or b == NONE:
            self.ip.event("none-op", st, op="compare")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
            return K({"<": a.v < b.v, "<=": a.v <= b.v, ">": a.v > b.v, ">=": a.v >= b.v}[sym])
        if isinstance(a, (TUP, LST, DCT)) or isinstance(b, (TUP, LST, DCT)):
            return B(N_("pred", sym, self.ip.freeze(st, a), self.ip.freeze(st, b)))
        x, y = self.num(st, a), self.num(st, b)
        c = {"<": lambda: gt0(sub(y, x)), "<=": lambda: ge0(sub(y, x)), ">": lambda: gt0(sub(x, y)),
             ">=": lambda: ge0(sub(x, y))}[sym]()
        return boolv(c)

    def is_(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, K) and (y.v is None or isinstance(y.v, bool) or y.v is Ellipsis):
                if isinstance(x, U):
                    return or_(*[and_(c, self.is_(st, v, y)) for c, v in x.alts])
                if isinstance(x, K):
                    return x.v is y.v
                if isinstance(x, B) and isinstance(y.v, bool):
                    return x.c if y.v else not_(x.c)
                if isinstance(x, S) and x.ty is None and y.v is None:
                    return N_("isnone", x.n)
                return False
        if isinstance(a, U) or isinstance(b, U):
            return N_("pred", "is", self.ip.freeze(st, a), self.ip.freeze(st, b))
        if isinstance(a, S) or isinstance(b, S):
            if a == b:
                return True
            return N_("pred", "is", self.ip.freeze(st, a), self.ip.freeze(st, b))
        if isinstance(a, (T, LST, DCT, INST, CLS, XI, FN, MOD, EXT)) or isinstance(b, (T, LST, DCT, INST, CLS, XI, FN)):
            if isinstance(a, T) and isinstance(b, T) and a != b:
                ra, rb = st.heap[a.oid], st.heap[b.oid]
                if not (ra.fresh or rb.fresh):
                    return N_("pred", "is", a.oid, b.oid)
            return a == b
        return self.eq(st, a, b)

    def eq(self, st, a, b):
        if isinstance(a, U):
            return or_(*[and_(c, self.eq(st, x, b)) for c, x in a.alts])
        if isinstance(b, U):
            return or_(*[and_(c, self.eq(st, a, x)) for c, x in b.alts])
        a2, b2 = self.content(st, a), self.content(st, b)
        if isinstance(a, K) and isinstance(b, K):
            return a.v == b.v
        if isinstance(a, N) and isinstance(b, N):
            return eq0(sub(a.p, b.p))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, S):
                if isinstance(y, K):
                    if y.v is None:
                        return N_("isnone", x.n) if x.ty is None else False
                    return N_("streq", x.n, y.v)
                if isinstance(y, N) and x.ty in ("str", "callable"):
                    return False
                if isinstance(y, N):
                    return eq0(sub(P(x.n), y.p))
                if isinstance(y, S):
                    return True if x.n is y.n else N_("pred", "==", *sorted((x.n, y.n)))
                if x.ty in ("str", "callable"):
                    return False
                return N_("pred", "==", x.n, self.ip.freeze(st, y))
        if isinstance(a2, TUP) and isinstance(b2, TUP):
            if isinstance(a, LST) != isinstance(b, LST):
                return False
            if len(a2.items) != len(b2.items):
                return False
            return and_(*[self.eq(st, x, y) for x, y in zip(a2.items, b2.items)])
        if isinstance(a2, (TUP, SQ)) and isinstance(b2, (TUP, SQ)):
            if isinstance(a, LST) != isinstance(b, LST):
                return False
            if a2 == b2:
                return True
            la = const(len(a2.items)) if isinstance(a2, TUP) else a2.len
            lb = const(len(b2.items)) if isinstance(b2, TUP) else b2.len
            if isinstance(a2, TUP) or isinstance(b2, TUP):
                t, q = (a2, b2) if isinstance(a2, TUP) else (b2, a2)
                return and_(eq0(sub(la, lb)), *[self.eq(st, x, self.sq_get(st, q, const(i))) for i, x in enumerate(t.items)])
            return and_(eq0(sub(la, lb)), N_("pred", "seq==", *sorted((self.ip.freeze(st, a2), self.ip.freeze(st, b2)),
                                                                    key=lambda n: n.id)))
        if isinstance(a, B) and isinstance(b, K) and isinstance(b.v, bool):
            return a.c if b.v else not_(a.c)
        if isinstance(b, B) and isinstance(a, K) and isinstance(a.v, bool):
            return b.c if a.v else not_(b.c)
        if isinstance(a, K) and isinstance(a.v, bool) and isinstance(b, N):
            return eq0(sub(const(int(a.v)), b.p))
        if isinstance(b, K) and isinstance(b.v, bool) and isinstance(a, N):
            return eq0(sub(const(int(b.v)), a.p))
        if isinstance(a, DCT) and isinstance(b, DCT):
            ka, kb = st.heap[a.oid].k, st.heap[b.oid].k
            return set(ka) == set(kb) if st.heap[a.oid].isset else a == b
        if type(a) is type(b):
            return a == b
        if isinstance(a, INST) or isinstance(b, INST):
            x = a if isinstance(a, INST) else b
            f = self.ip.class_lookup(st, st.heap[x.oid].cls, "__eq__")
            if f is not None:
                return self.truth(st, self.ip.call_fn(st, f, [x, b if x is a else a], {}))
        return False

    def contains(self, st, cont, v):
        cont = self.ip.one(st, cont)
        if isinstance(cont, U):
            return or_(*[and_(c, self.contains(st, x, v)) for c, x in cont.alts])
        if isinstance(v, U):
            return or_(*[and_(c, self.contains(st, cont, x)) for c, x in v.alts])
        if isinstance(cont, LST):
            cont = self.content(st, cont)
        if isinstance(cont, (TUP, IT)):
            return or_(*[self.eq(st, v, x) for x in cont.items])
        if isinstance(cont, DCT):
            return or_(*[self.eq(st, v, x) for x in st.heap[cont.oid].k])
        if isinstance(cont, K) and isinstance(cont.v, str):
            if isinstance(v, K) and isinstance(v.v, str):
                return v.v in cont.v
        if isinstance(cont, NDS):
            return or_(*[self.eq(st, v, x) for x in cont.items])
        if isinstance(cont, XI):
            r = st.heap[cont.oid]
            if r.items_ is not None:
                return or_(*[self.eq(st, v, x) for x in r.items_])
        if isinstance(cont, (SQ, RNG)):
            s = cont if isinstance(cont, SQ) else None
            if isinstance(cont, RNG) and cont.s == ONE and isinstance(v, N):
                return and_(ge0(sub(v.p, cont.a)), gt0(sub(cont.b, v.p)))
            if s is not None and isinstance(v, N) and isinstance(s.elem, N) and s.elem.p == P(s.var) and not s.over:
                return and_(ge0(v.p), gt0(sub(s.len, v.p)))
        if isinstance(cont, INST):
            f = self.ip.class_lookup(st, st.heap[cont.oid].cls, "__contains__")
            if f is not None:
                return self.truth(st, self.ip.call_fn(st, f, [cont, v], {}))
        if cont == NONE:
            self.ip.event("none-op", st, op="in")
            self.ip.do_raise(st, "TypeError", True)
        return N_("in", self.ip.freeze(st, v), self.ip.freeze(st, cont))

    # ================================================================ arithmetic
    def unary(self, st, op, v):
        if v == NONE:
            self.ip.event("none-op", st, op="unary")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(op, ast.USub):
            if isinstance(v, N):
                return N(neg(v.p), v.ty)
            if isinstance(v, T):
                return self.fresh(st, neg(self.term(st, v)), st.heap[v.oid].lib)
            if isinstance(v, LST) and st.heap[v.oid].arr:
                return self.vec_map(st, v, lambda s, x: self.unary(s, op, x))
            if isinstance(v, K) and isinstance(v.v, bool):
                return num(-int(v.v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, T):
                return self.fresh(st, N_("invert", self.term(st, v)), st.heap[v.oid].lib)
            return N(sub(neg(self.num(st, v)), ONE), "int")
        if isinstance(v, S):
            return N(neg(P(v.n))) if isinstance(op, ast.USub) else S(N_("unary", type(op).__name__, v.n))
        return self.ip.opaque(st, "unary " + type(op).__name__, v)

    OPN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.FloorDiv: "floordiv",
           ast.Mod: "mod", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
           ast.LShift: "shl", ast.RShift: "shr"}
    DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__"}

    def binop(self, st, op, a, b):
        if isinstance(a, U):
            return self.ip.lift(st, a, lambda s, x: self.binop(s, op, x, b))
        if isinstance(b, U):
            return self.ip.lift(st, b, lambda s, x: self.binop(s, op, a, x))
        if a == NONE or b == NONE:
            self.ip.event("none-op", st, op=self.OPN[type(op)])
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(a, LST) and isinstance(b, (LST, TUP)) and isinstance(op, ast.Add) and not st.heap[a.oid].arr \
                and not (isinstance(b, LST) and st.heap[b.oid].arr):
            ca, cb = self.content(st, a), self.content(st, b)
            if isinstance(ca, (TUP, SQ)) and isinstance(cb, (TUP, SQ)):
                return self.ip.lst(st, self.concat(st, ca, cb))
            n = N_("concat", self.ip.freeze(st, a), self.ip.freeze(st, b))
            return self.ip.lst(st, SQ(P(N_("len", n)), IVAR, S(N_("item", n, P(IVAR)))))
        if isinstance(a, (LST, T)) or isinstance(b, (LST, T)):
            r = nparr.binop(self, st, op, a, b)
            if r is not None:
                return r
        if (isinstance(a, LST) and st.heap[a.oid].arr) or (isinstance(b, LST) and st.heap[b.oid].arr):
            if not isinstance(a, T) and not isinstance(b, T) and not isinstance(op, ast.MatMult):
                r = self.vec_binop(st, lambda s, x, y: self.binop(s, op, x, y), a, b)
                if r is not None:
                    return r
            lib = "torch" if any(isinstance(x, T) and st.heap[x.oid].lib == "torch" for x in (a, b)) else "np"
            return self.fresh(st, self.t_arith(st, op, self.term(st, a), self.term(st, b)), lib)
        if isinstance(a, T) or isinstance(b, T):
            lib = "torch" if any(isinstance(x, T) and st.heap[x.oid].lib == "torch" for x in (a, b)) else "np"
            for x in (a, b):
                if isinstance(x, K) and isinstance(x.v, str) or isinstance(x, (DCT, CLS)):
                    self.ip.do_raise(st, "TypeError", True)
            t = self.t_arith(st, op, self.term(st, a), self.term(st, b))
            c = self.carr_fold(op, self.term(st, a), self.term(st, b))
            return self.fresh(st, c if c is not None else t, lib)
        if isinstance(a, (TUP, SQ)) and isinstance(b, (TUP, SQ)) and isinstance(op, ast.Add):
            return self.concat(st, a, b)
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (TUP, LST, SQ)) and isinstance(y, (N, K)):
                    return self.repeat(st, x, self.num(st, y))
        if isinstance(a, K) and isinstance(a.v, str):
            if isinstance(op, ast.Add):
                if isinstance(b, K) and isinstance(b.v, str):
                    return K(a.v + b.v)
                if isinstance(b, S):
                    return S(N_("strcat", a.v, b.n), "str")
                self.ip.do_raise(st, "TypeError", True)
            if isinstance(op, ast.Mult) and isinstance(b, N) and b.p.as_int() is not None:
                return K(a.v * b.p.as_int())
            if isinstance(op, ast.Mod):
                return S(N_("strfmt", a.v, self.ip.freeze(st, b)), "str")
        if isinstance(a, DCT) and isinstance(b, DCT):
            ra, rb = st.heap[a.oid], st.heap[b.oid]
            ka, kb = ra.k, rb.k
            if ra.isset:
                if isinstance(op, ast.BitOr):
                    k = {**ka, **kb}
                elif isinstance(op, ast.BitAnd):
                    k = {x: v for x, v in ka.items() if x in kb}
                else:
                    k = {x: v for x, v in ka.items() if x not in kb}
                return DCT(self.ip.alloc(st, "dict", k=k, isset=True))
            if isinstance(op, ast.BitOr):
                return self.ip.dct(st, {**ka, **kb})
        if isinstance(a, (B,)) or isinstance(b, (B,)) or (isinstance(a, K) and isinstance(b, K) and isinstance(a.v, bool)):
            if isinstance(op, (ast.BitAnd, ast.BitOr)):
                ca, cb = self.truth(st, a), self.truth(st, b)
                return boolv(and_(ca, cb) if isinstance(op, ast.BitAnd) else or_(ca, cb))
        if isinstance(a, INST):
            d = self.DUNDER.get(type(op))
            f = d and self.ip.class_lookup(st, st.heap[a.oid].cls, d)
            if f:
                return self.ip.call_fn(st, f, [a, b], {})
        if isinstance(a, (TUP, LST, DCT)) or isinstance(b, (TUP, LST, DCT)):
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(a, K) and isinstance(a.v, str) or isinstance(b, K) and isinstance(b.v, str):
            self.ip.do_raise(st, "TypeError", True)
        return self.n_arith(st, op, a, b)

    def repeat(self, st, x, n):
        islist = isinstance(x, LST)
        c = self.content(st, x)
        k = n.as_int()
        if isinstance(c, TUP) and k is not None:
            r = TUP(c.items * max(k, 0))
        elif isinstance(c, TUP) and len(c.items) == 1:
            r = self.sq(n, IVAR, c.items[0], (), "tuple")
        elif isinstance(c, TUP) and not c.items:
            r = c
        else:
            return self.ip.opaque(st, "sequence repetition", x)
        return self.ip.lst(st, r) if islist else r

    def n_arith(self, st, op, a, b):
        x, y = self.num(st, a), self.num(st, b)
        ty = None
        ta, tb = (getattr(a, "ty", None) if isinstance(a, N) else None), (getattr(b, "ty", None) if isinstance(b, N) else None)
        ia = ta == "int" or is_int(x)
        ib = tb == "int" or is_int(y)
        if isinstance(op, ast.Add):
            r = add(x, y)
        elif isinstance(op, ast.Sub):
            r = sub(x, y)
        elif isinstance(op, ast.Mult):
            r = mul(x, y)
        elif isinstance(op, ast.Div):
            if y.is_const and not y.const:
                self.ip.do_raise(st, "ZeroDivisionError", True)
            return N(div(x, y), "float")
        elif isinstance(op, ast.FloorDiv):
            if y.is_const and not y.const:
                self.ip.do_raise(st, "ZeroDivisionError", True)
            r = floordiv(x, y)
        elif isinstance(op, ast.Mod):
            if y.is_const and not y.const:
                self.ip.do_raise(st, "ZeroDivisionError", True)
            r = mod(x, y)
        elif isinstance(op, ast.Pow):
            r = pow_(x, y)
        elif isinstance(op, ast.LShift):
            r = mul(x, pow_(const(2), y))
        elif isinstance(op, ast.RShift):
            r = floordiv(x, pow_(const(2), y))
        else:
            if x.as_int() is not None and y.as_int() is not None:
                i, j = x.as_int(), y.as_int()
                if isinstance(op, ast.BitAnd):
                    return num(i & j)
                if isinstance(op, ast.BitOr):
                    return num(i | j)
                if isinstance(op, ast.BitXor):
                    return num(i ^ j)
            if isinstance(op, ast.BitAnd) and y == ONE:
                return N(mod(x, const(2)), "int")
            return N(P(N_("math", self.OPN[type(op)], x, y)))
        if ia and ib:
            ty = "int"
        elif ta == "float" or tb == "float":
            ty = "float"
        return N(r, ty)

    def t_arith(self, st, op, x, y):
        if isinstance(op, ast.Add):
            return add(x, y)
        if isinstance(op, ast.Sub):
            return sub(x, y)
        if isinstance(op, ast.Mult):
            return mul(x, y)
        if isinstance(op, ast.Div):
            return div(x, y)
        if isinstance(op, ast.Pow):
            return pow_(x, y)
        if isinstance(op, ast.MatMult):
            return P(N_("matmul", x, y))
        return P(N_("tbin", self.OPN[type(op)], x, y))

    def carr_fold(self, op, x, y):
        def cc(t):
            if t.is_const:
                return ((), (t.const,))
            a = t.as_atom()
            if a is not None and a.op == "carr":
                return a.args
            if len(t.t) == 1:
                (m, c), = t.t.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "carr":
                    s, f = m[0][0].args
                    return s, tuple(c * v if not isinstance(v, (Poly, Node)) else mul(const(c), nparr.poly(v)) for v in f)
        a, b = cc(x), cc(y)
        if a is None or b is None:
            return None
        if a[0] == () and b[0] == ():
            return None
        if a[0] == ():
            a = (b[0], a[1] * len(b[1]))
        if b[0] == ():
            b = (a[0], b[1] * len(a[1]))
        if a[0] != b[0] or any(isinstance(v, (Poly, Node)) for v in a[1] + b[1]):
            return None
        try:
            f = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q,
                 ast.Div: lambda p, q: p / q}[type(op)]
            return P(N_("carr", a[0], tuple(f(p, q) for p, q in zip(a[1], b[1]))))
        except (KeyError, ZeroDivisionError):
            return None

    # numeric vectors held as python-level sequences
    def vec_map(self, st, v, f):
        c = self.content(st, v)
        if isinstance(c, TUP):
            return self.ip.arr(st, TUP(tuple(f(st, x) for x in c.items)))
        if isinstance(c, SQ):
            return self.ip.arr(st, SQ(c.len, c.var, f(st, c.elem), tuple((i, f(st, x)) for i, x in c.over), c.kind))
        return None

    def vec_binop(self, st, f, a, b):
        ca = self.content(st, a) if isinstance(a, (LST, TUP, SQ)) else a
        cb = self.content(st, b) if isinstance(b, (LST, TUP, SQ)) else b
        if not isinstance(ca, (TUP, SQ, N, K, S)) or not isinstance(cb, (TUP, SQ, N, K, S)):
            return None

        def simple(c):
            if isinstance(c, TUP):
                return all(isinstance(x, (N, K, B)) for x in c.items)
            if isinstance(c, SQ):
                return isinstance(c.elem, (N, K, B)) and all(isinstance(x, (N, K, B)) for _, x in c.over)
            return True
        if not simple(ca) or not simple(cb):
            return None
        sa, sb = isinstance(ca, (TUP, SQ)), isinstance(cb, (TUP, SQ))
        if sa and sb:
            if isinstance(ca, TUP) and isinstance(cb, TUP):
                if len(ca.items) == len(cb.items):
                    return self.ip.arr(st, TUP(tuple(f(st, x, y) for x, y in zip(ca.items, cb.items))))
                return None
            if isinstance(ca, SQ) and isinstance(cb, SQ) and ca.len == cb.len:
                eb = subst_v(cb.elem, {cb.var: P(ca.var)})
                idx = []
                for i, _ in ca.over + cb.over:
                    if i not in idx:
                        idx.append(i)
                ov = tuple((i, f(st, self.sq_get(st, ca, i), self.sq_get(st, cb, i))) for i in idx)
                return self.ip.arr(st, SQ(ca.len, ca.var, f(st, ca.elem, eb), ov, ca.kind))
            return None
        if sa:
            return self.vec_map(st, a, lambda s, x: f(s, x, cb))
        if sb:
            return self.vec_map(st, b, lambda s, y: f(s, ca, y))
        return None

    def augassign(self, st, op, cur, v):
        if isinstance(cur, U):
            return self.ip.lift(st, cur, lambda s, x: self.augassign(s, op, x, v))
        if isinstance(v, U):
            return self.ip.lift(st, v, lambda s, x: self.augassign(s, op, cur, x))
        if isinstance(cur, T):
            if v == NONE:
                self.ip.event("none-op", st, op="aug")
                self.ip.do_raise(st, "TypeError", True)
            new = self.t_arith(st, op, self.term(st, cur), self.term(st, v))
            c = self.carr_fold(op, self.term(st, cur), self.term(st, v))
            self.note_inplace(st, cur, type(op).__name__, v)
            self.write_cell(st, cur.oid, c if c is not None else new, how="augmented assignment")
            return cur
        if isinstance(cur, LST):
            r = st.heap[cur.oid]
            if r.arr:
                n = self.binop(st, op, cur, v)
                self.list_touch(st, cur, "augmented assignment")
                if isinstance(n, LST):
                    st.heap[cur.oid] = st.heap[cur.oid].set(c=st.heap[n.oid].c)
                    return cur
                return n
            if isinstance(op, ast.Add):
                self.list_extend(st, cur, v)
                return cur
        if isinstance(cur, DCT) and isinstance(v, DCT) and isinstance(op, ast.BitOr):
            self.list_touch(st, cur, "augmented assignment")
            r = st.heap[cur.oid]
            st.heap[cur.oid] = r.set(k={**r.k, **st.heap[v.oid].k})
            return cur
        return self.binop(st, op, cur, v)

    def note_inplace(self, st, t, opname, v):
        self.ip.event("inplace", st, op=opname, term=self.term(st, t), other=self.term(st, v) if v is not None else None)

    # ================================================================ indexing
    def norm_index(self, st, t, idx):
        """-> (amap | None, frozen).  amap: tuple of (axis poly, entry)"""
        rank = self.rank_of(t)
        idx = self.ip.one(st, idx)
        if isinstance(idx, LST) and not st.heap[idx.oid].arr:
            c = self.content(st, idx)
            if isinstance(c, TUP) and any(isinstance(x, SLC) for x in c.items) or \
                    isinstance(c, SQ) and isinstance(c.elem, SLC):
                self.ip.event("list-index", st)
                idx = c
        if isinstance(idx, SQ):
            if idx.elem == FULL or isinstance(idx.elem, SLC):
                out = []
                if idx.elem != FULL and not self.full_default(st, t, idx):
                    return None, N_("idx", self.ip.freeze(st, idx))
                for ax, e in idx.over:
                    en = self.entry(st, e)
                    if en is None:
                        return None, N_("idx", self.ip.freeze(st, idx))
                    if en != "full":
                        out = [(a, x) for a, x in out if a != ax]
                        out.append((ax, en))
                    else:
                        out = [(a, x) for a, x in out if a != ax]
                return self.sort_amap(out), None
            return None, N_("idx", self.ip.freeze(st, idx))
        items = list(idx.items) if isinstance(idx, TUP) else [idx]
        pos = [i for i, x in enumerate(items) if x == K(Ellipsis)]
        out = []
        nlist = 0
        pre = items[:pos[0]] if pos else items
        post = items[pos[0] + 1:] if pos else []
        ax = ZERO
        for x in pre:
            if x == NONE:
                out.append((ax, ("n",)))
                continue
            en = self.entry(st, x)
            if en is None:
                return None, N_("idx", self.ip.freeze(st, TUP(tuple(items))))
            if en != "full":
                out.append((ax, en))
            ax = add(ax, ONE)
        npost = sum(1 for x in post if x != NONE)
        ax = sub(rank, const(npost))
        for x in post:
            if x == NONE:
                out.append((ax, ("n",)))
                continue
            en = self.entry(st, x)
            if en is None:
                return None, N_("idx", self.ip.freeze(st, TUP(tuple(items))))
            if en != "full":
                out.append((ax, en))
            ax = add(ax, ONE)
        return self.sort_amap(out), None

    def full_default(self, st, t, idx):
        """does the default slice of a symbolic index cover the whole axis of t?"""
        e = idx.elem
        if self.ip.one(st, e.c) not in (NONE, N(ONE, "int")) and not (isinstance(e.c, N) and e.c.p == ONE):
            return False
        if e.a != NONE and not (isinstance(e.a, N) and e.a.p == ZERO):
            return False
        if e.b == NONE:
            return True
        if not isinstance(e.b, N):
            return False
        s2 = st.clone()
        v = P(idx.var)
        s2.assume(ge0(v))
        s2.assume(gt0(sub(idx.len, v)))
        for ax, _ in idx.over:
            s2.assume(not_(eq0(sub(ax, v))))
        old, self.ip.st = self.ip.st, s2
        try:
            d = self.dim_of(t, v)
        finally:
            self.ip.st = old
        if d == e.b.p:
            return True
        return self.ip.decide(s2, ge0(sub(e.b.p, d))) is True

    def sort_amap(self, out):
        def k(ae):
            p = ae[0]
            return (tuple(sorted(tuple((a.id, e) for a, e in m) for m in p.t if m)), p.const)
        return tuple(sorted(out, key=k))

    def entry(self, st, x):
        x = self.ip.one(st, x)
        if isinstance(x, SLC):
            vs = []
            for q in (x.a, x.b, x.c):
                q = self.ip.one(st, q)
                if q == NONE:
                    vs.append(None)
                elif isinstance(q, (N, S)):
                    vs.append(self.num(st, q))
                elif isinstance(q, K) and isinstance(q.v, bool):
                    vs.append(const(int(q.v)))
                elif isinstance(q, U):
                    return None
                else:
                    vs.append(self.num(st, q))
            a, b, c = vs
            if c is None:
                c = ONE
            if a is None and c.as_int() is not None and c.as_int() > 0:
                a = ZERO
            if a == ZERO and b is None and c == ONE:
                return "full"
            return ("s", a if a is not None else None, b, c)
        if isinstance(x, N):
            return ("i", x.p)
        if isinstance(x, LST):
            c = self.content(st, x)
            if isinstance(c, TUP) and len(c.items) == 1 and isinstance(c.items[0], N):
                p = c.items[0].p
                return ("s", p, add(p, ONE), ONE)
            if isinstance(c, TUP) and c.items and all(isinstance(y, N) for y in c.items):
                return ("l", tuple(y.p for y in c.items))
        return None

    def getitem(self, st, o, i):
        o = self.ip.one(st, o)
        i = self.ip.one(st, i)
        if isinstance(o, U):
            return self.ip.lift(st, o, lambda s, x: self.getitem(s, x, i))
        if isinstance(i, U):
            return self.ip.lift(st, i, lambda s, x: self.getitem(s, o, x))
        if o == NONE:
            self.ip.event("none-op", st, op="[]")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(o, T):
            t = self.cell_term(st, o.oid)
            at = t.as_atom()
            if at is not None and at.op == "carr":
                r = self.carr_get(st, at, i)
                if r is not None:
                    return r
                y = nparr.index(self, st, nparr.as_arr(self, st, o), i) if st.heap[o.oid].lib == "np" else None
                if y is not None:
                    return y
            amap, raw = self.norm_index(st, t, i)
            if amap is None:
                return self.fresh(st, N_("gather", t, raw), st.heap[o.oid].lib)
            if any(e[0] == "l" for _, e in amap):
                return self.fresh(st, N_("getitem", t, amap), st.heap[o.oid].lib)
            return self.mkview(st, o, ("getitem", amap))
        if isinstance(o, LST):
            r = st.heap[o.oid]
            c = self.content(st, o)
            if isinstance(c, (TUP, SQ)):
                if r.arr == "obj" and isinstance(i, TUP):
                    q = self.obj_index(st, o, i)
                    if q is not None:
                        return self.getitem(st, q[0], q[1])
                if r.arr and isinstance(i, TUP):
                    x = nparr.as_arr(self, st, o)
                    y = nparr.index(self, st, x, i) if x else None
                    if y is not None:
                        return y
                    return self.getitem(st, self.vec_to_T(st, o), i)
                if r.arr and isinstance(i, (LST, T)):
                    return self.fresh(st, N_("gather", self.term(st, o), self.ip.freeze(st, i)), "np")
                v = self.seq_get(st, c, i)
                if isinstance(i, SLC):
                    if isinstance(v, (TUP, SQ)):
                        n = LST(self.ip.alloc(st, "list", c=v, arr=r.arr))
                        return n
                return v
            return self.ip.opaque(st, "list index", o, i)
        if isinstance(o, (TUP, SQ, IT)):
            if isinstance(o, IT):
                o = TUP(o.items)
            return self.seq_get(st, o, i)
        if isinstance(o, RNG):
            if isinstance(i, SLC):
                return self.seq_get(st, self.as_seq(st, o), i)
            k = self.num(st, i)
            if k.as_int() is not None and k.as_int() < 0:
                return self.seq_get(st, self.as_seq(st, o), i)
            return N(add(o.a, mul(k, o.s)), "int")
        if isinstance(o, DCT):
            return self.dict_get(st, o, i, None)
        if isinstance(o, K) and isinstance(o.v, str):
            if isinstance(i, N) and i.p.as_int() is not None:
                try:
                    return K(o.v[i.p.as_int()])
                except IndexError:
                    self.ip.do_raise(st, "IndexError", True)
            if isinstance(i, SLC):
                bs = [None if x == NONE else self.num(st, x).as_int() for x in (i.a, i.b, i.c)]
                return K(o.v[slice(*bs)])
            return S(N_("char", o.v, self.ip.freeze(st, i)), "str")
        if isinstance(o, NDS):
            return self.nds_get(st, o, i)
        if isinstance(o, XI):
            r = st.heap[o.oid]
            if r.items_ is not None:
                if i in r.items_:
                    return r.items_[i]
                vals = list(r.items_.values())
                if isinstance(i, N) and i.p.as_int() is not None and r.path.endswith(("ModuleList", "Sequential")):
                    try:
                        return vals[i.p.as_int()]
                    except IndexError:
                        pass
                if isinstance(i, K):
                    self.ip.do_raise(st, "KeyError", True)
                if isinstance(i, S) and vals:
                    return U(tuple((N_("streq", i.n, k.v), v) for k, v in r.items_.items() if isinstance(k, K)))
            return self.ip.opaque(st, "external container index", o, i)
        if isinstance(o, INST):
            f = self.ip.class_lookup(st, st.heap[o.oid].cls, "__getitem__")
            if f is not None:
                return self.ip.call_fn(st, f, [o, i], {})
        if isinstance(o, S):
            return S(N_("item", o.n, self.ip.freeze(st, i)))
        if isinstance(o, (N, B)) or isinstance(o, FN):
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(o, EXT):
            return S(N_("ext", o.path))
        return self.ip.opaque(st, "index of " + type(o).__name__, o, i)

    def vec_to_T(self, st, v):
        r = st.heap[v.oid] if isinstance(v, LST) else None
        oid = self.ip.alloc(st, "cell", term=self.term(st, v), base=None, view=None, parents=None, alias=(),
                            lib="np", fresh=True)
        return T(oid)

    def carr_get(self, st, at, i):
        shape, flat = at.args
        if isinstance(i, N) and i.p.as_int() is not None:
            k = i.p.as_int()
            if not -shape[0] <= k < shape[0]:
                self.ip.do_raise(st, "IndexError", True)
            k %= shape[0]
            if len(shape) == 1:
                return N(nparr.poly(flat[k]))
            n = 1
            for s in shape[1:]:
                n *= s
            return nparr.mk(self, st, shape[1:], [nparr.poly(x) for x in flat[k * n:(k + 1) * n]])
        if isinstance(i, TUP) and len(i.items) == len(shape) and all(
                isinstance(x, N) and x.p.as_int() is not None for x in i.items):
            off = 0
            for x, s in zip(i.items, shape):
                k = x.p.as_int()
                if not -s <= k < s:
                    self.ip.do_raise(st, "IndexError", True)
                off = off * s + k % s
            return N(nparr.poly(flat[off]))
        # constant slices
        items = list(i.items) if isinstance(i, TUP) else [i]
        if len(items) <= len(shape) and all(isinstance(x, SLC) and all(
                y == NONE or (isinstance(y, N) and y.p.as_int() is not None) for y in (x.a, x.b, x.c)) for x in items):
            rngs = []
            for k, s in enumerate(shape):
                if k < len(items):
                    x = items[k]
                    rngs.append(list(range(s))[slice(*[None if y == NONE else y.p.as_int() for y in (x.a, x.b, x.c)])])
                else:
                    rngs.append(list(range(s)))
            import itertools
            strides = [1] * len(shape)
            for k in range(len(shape) - 2, -1, -1):
                strides[k] = strides[k + 1] * shape[k + 1]
            fl = tuple(flat[sum(p * q for p, q in zip(ix, strides))] for ix in itertools.product(*rngs))
            return self.fresh(st, N_("carr", tuple(len(r) for r in rngs), fl), "np")
        return None

    def seq_get(self, st, c, i):
        if isinstance(i, SLC):
            if isinstance(c, TUP):
                bs = [NONE if x == NONE else self.ip.one(st, x) for x in (i.a, i.b, i.c)]
                ks = [None if x == NONE else self.num(st, x).as_int() for x in bs]
                if all(x == NONE or k is not None for x, k in zip(bs, ks)):
                    return TUP(c.items[slice(*ks)])
                if all(isinstance(x, N) for x in c.items):
                    sq = self.tup_to_sq(c)
                    if sq is not None:
                        return self.sq_slice(st, sq, SLC(*bs))
                n = self.ip.freeze(st, c)
                m = N_("slice", n, self.ip.freeze(st, i))
                if c.items and not any(isinstance(x, (T, LST, INST, FN)) for x in c.items):
                    return SQ(P(N_("len", m)), IVAR, S(N_("item", m, P(IVAR))))
                return SQ(P(N_("len", m)), IVAR, U(tuple((N_("bsym", f"sl{k}:{m.id}"), x) for k, x in enumerate(c.items))))
            return self.sq_slice(st, c, i)
        if isinstance(i, K) and isinstance(i.v, bool):
            i = num(int(i.v))
        if isinstance(i, K):
            self.ip.do_raise(st, "TypeError", True)
        p = self.num(st, i)
        if isinstance(c, TUP):
            k = p.as_int()
            if k is not None:
                if -len(c.items) <= k < len(c.items):
                    return c.items[k]
                self.ip.event("index-error", st, index=k, length=len(c.items))
                self.ip.do_raise(st, "IndexError", True)
            if not c.items:
                self.ip.do_raise(st, "IndexError", True)
            # symbolic index into a known tuple
            cands = []
            for j, v in enumerate(c.items):
                cond = eq0(sub(p, const(j)))
                cn = eq0(sub(p, const(j - len(c.items))))
                cc = or_(cond, cn)
                d = self.ip.decide(st, cc)
                if d is True:
                    return v
                if d is None:
                    cands.append((cc, v))
            if not cands:
                self.ip.do_raise(st, "IndexError", True)
            res = cands[-1][1]
            for cc, v in reversed(cands[:-1]):
                res = self.ip.join_val(st, cc, v, res)
            return res
        return self.sq_get(st, c, p)

    def tup_to_sq(self, c):
        n = N_("vec", const(len(c.items)), IVAR, P(N_("lit", tuple(x.p for x in c.items))), ())
        return SQ(const(len(c.items)), IVAR, N(P(N_("elem", n, P(IVAR)))), tuple((const(k), v) for k, v in enumerate(c.items)))

    def dict_get(self, st, o, i, default):
        r = st.heap[o.oid]
        k = self.dkey(st, i)
        if k in r.k:
            v = r.k[k]
            return self.ip.chk_missing(st, v, "key")
        if isinstance(k, (S,)) or isinstance(k, N) and k.p.as_int() is None or isinstance(k, TUP):
            cands = []
            for kk, v in r.k.items():
                c = self.eq(st, k, kk)
                if c is not False and self.ip.decide(st, c) is not False:
                    cands.append((c, v))
            miss = and_(*[not_(c) for c, _ in cands]) if cands else True
            if self.ip.decide(st, miss) is False:
                res, cands = cands[-1][1], cands[:-1]
            elif default is not None:
                res = default
            else:
                if not cands:
                    self.ip.do_raise(st, "KeyError", True)
                s2 = st.clone()
                s2.assume(miss)
                self.ip.event("raise", s2, exc="KeyError", implicit=True)
                self.ip.catch(s2, "KeyError")
                st.assume(not_(miss))
                res, cands = cands[-1][1], cands[:-1]
            for c, v in reversed(cands):
                res = self.ip.join_val(st, c, v, res)
            return res
        if default is not None:
            return default
        self.ip.do_raise(st, "KeyError", True)

    def setitem(self, st, o, i, v, aug=False):
        o = self.ip.one(st, o)
        i = self.ip.one(st, i)
        if isinstance(o, U):
            self.ip.lift(st, o, lambda s, x: self.setitem(s, x, i, v, aug) or NONE)
            return NONE
        if o == NONE:
            self.ip.event("none-op", st, op="[]=")
            self.ip.do_raise(st, "TypeError", True)
        if isinstance(o, T):
            t = self.cell_term(st, o.oid)
            if aug and isinstance(v, T):
                r = st.heap[v.oid]
                if r.base is not None and r.base == o.oid:
                    return NONE          # x[i] op= v : already written through the view
            v = self.ip.one(st, v)
            if isinstance(v, U):
                self.ip.lift(st, v, lambda s, x: self.setitem(s, o, i, x) or NONE)
                return NONE
            if v == NONE:
                self.ip.event("none-op", st, op="store")
                self.ip.do_raise(st, "TypeError", True)
            amap, raw = self.norm_index(st, t, i)
            vt = self.term(st, v)
            if amap is None:
                new = P(N_("scatter", t, raw, vt))
            else:
                new = P(N_("store", t, amap, vt))
            self.write_cell(st, o.oid, new, how="index assignment")
            return NONE
        if isinstance(o, LST):
            r = st.heap[o.oid]
            self.list_touch(st, o, "item assignment", quiet=(r.owner == "call"))
            if r.arr == "obj" and isinstance(i, TUP):
                q = self.obj_index(st, o, i)
                if q is not None:
                    o, i = q
            c = self.content(st, o)
            if isinstance(c, TUP) and isinstance(i, N):
                k = i.p.as_int()
                if k is not None:
                    if not -len(c.items) <= k < len(c.items):
                        self.ip.do_raise(st, "IndexError", True)
                    items = list(c.items)
                    items[k] = v
                    st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(items)))
                    return NONE
                items = []
                for j, x in enumerate(c.items):
                    cc = or_(eq0(sub(i.p, const(j))), eq0(sub(i.p, const(j - len(c.items)))))
                    d = self.ip.decide(st, cc)
                    items.append(v if d is True else x if d is False else self.ip.join_val(st, cc, v, x))
                st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(items)))
                return NONE
            if isinstance(c, SQ) and isinstance(i, N):
                p = i.p
                if p.as_int() is not None and p.as_int() < 0:
                    p = add(c.len, p)
                ov = tuple((j, x) for j, x in c.over if j != p) + ((p, v),)
                st.heap[o.oid] = st.heap[o.oid].set(c=SQ(c.len, c.var, c.elem, ov, c.kind))
                return NONE
            if isinstance(i, SLC) and isinstance(c, TUP) and all(
                    x == NONE or isinstance(x, N) and x.p.as_int() is not None for x in (i.a, i.b, i.c)):
                sl = slice(*[None if x == NONE else x.p.as_int() for x in (i.a, i.b, i.c)])
                s = self.as_seq(st, v)
                if isinstance(s, TUP):
                    items = list(c.items)
                    items[sl] = list(s.items)
                    st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(items)))
                    return NONE
            n = N_("listset", self.ip.freeze(st, o), self.ip.freeze(st, i), self.ip.freeze(st, v))
            self.ip.note_undecided(st, "list item assignment")
            st.heap[o.oid] = st.heap[o.oid].set(c=SQ(P(N_("len", n)), IVAR, S(N_("item", n, P(IVAR)))))
            return NONE
        if isinstance(o, DCT):
            r = st.heap[o.oid]
            self.list_touch(st, o, "item assignment", quiet=(r.owner == "call"))
            k = dict(r.k)
            k[self.dkey(st, i)] = v
            st.heap[o.oid] = st.heap[o.oid].set(k=k)
            return NONE
        if isinstance(o, XI):
            r = st.heap[o.oid]
            if r.items_ is not None:
                d = dict(r.items_)
                d[self.dkey(st, i)] = v
                if r.owner != "call" and self.ip.phase == "call":
                    self.ip.mark_written(st, ("cont", o.oid))
                st.heap[o.oid] = r.set(items_=d)
            return NONE
        if isinstance(o, INST):
            f = self.ip.class_lookup(st, st.heap[o.oid].cls, "__setitem__")
            if f is not None:
                self.ip.call_fn(st, f, [o, i, v], {})
                return NONE
        if isinstance(o, (TUP, K, N)):
            self.ip.do_raise(st, "TypeError", True)
        self.ip.note_undecided(st, "item assignment on " + type(o).__name__)
        return NONE

    def delitem(self, st, o, i):
        if isinstance(o, DCT):
            self.list_touch(st, o, "del")
            r = st.heap[o.oid]
            k = dict(r.k)
            k.pop(self.dkey(st, i), None)
            st.heap[o.oid] = r.set(k=k)
        elif isinstance(o, LST):
            self.list_touch(st, o, "del")
            c = self.content(st, o)
            if isinstance(c, TUP) and isinstance(i, N) and i.p.as_int() is not None:
                items = list(c.items)
                del items[i.p.as_int()]
                st.heap[o.oid] = st.heap[o.oid].set(c=TUP(tuple(items)))
        return NONE

    # ================================================================ NdSpec intrinsic
    def depth(self, st, v):
        if isinstance(v, (TUP, LST, SQ)):
            c = self.content(st, v)
            if isinstance(c, TUP):
                ds = set(self.depth(st, x) for x in c.items)
                if len(ds) == 1:
                    return 1 + ds.pop()
                return 1
            if isinstance(c, SQ):
                return 1 + self.depth(st, c.elem)
            return 1
        if isinstance(v, T):
            r = self.rank_of(self.cell_term(st, v.oid)).as_int()
            return r if r is not None else 1
        if isinstance(v, S):
            return {"seq": 1}.get(v.ty, 0)
        return 0

    def mk_nds(self, st, args, kwargs):
        data = args[0] if args else kwargs.get("data")
        data = self.ip.one(st, data)
        if isinstance(data, U):
            return self.ip.lift(st, data, lambda s, x: self.mk_nds(s, [x] + list(args[1:]), {k: v for k, v in kwargs.items() if k != "data"}))
        if isinstance(data, NDS):
            return data
        ish = kwargs.get("item_shape", TUP(()))
        idx = kwargs.get("index_shape", NONE)
        if idx != NONE:
            s = self.as_seq(st, idx)
            n = len(s.items) if isinstance(s, TUP) else 0
            if n == 0:
                return NDS("item", (data,), self.depth(st, data))
            d = self.as_seq(st, data)
            return NDS("seq", d.items, self.depth(st, data) - 1) if isinstance(d, TUP) else self.ip.opaque(st, "NdSpec", data)
        shp = self.as_seq(st, ish)
        dims = [self.num(st, x).as_int() for x in shp.items]
        nd = len(dims)
        d = self.depth(st, data)

        def expand(v, dims):
            dv = self.depth(st, v)
            if dv < len(dims):
                inner = expand(v, dims[1:])
                k = 1 if dims[0] == -1 else dims[0]
                return TUP((inner,) * k)
            if not dims:
                return v
            c = self.content(st, v)
            if isinstance(c, TUP):
                items = [expand(x, dims[1:]) for x in c.items] if len(dims) > 1 else list(c.items)
                if dims[0] not in (-1, len(items)):
                    if len(items) == 1:
                        items = items * dims[0]
                    elif len(items) != dims[0] and dims[0] != 0:
                        self.ip.do_raise(st, "ValueError", True)
                if len(dims) == 1 and (dims[0] == -1):
                    return v
                return TUP(tuple(items))
            return v
        if d <= nd:
            if d == nd and nd >= 1 or d < nd or nd == 0:
                return NDS("item", (expand(data, dims),), nd)
        s = self.as_seq(st, data)
        if isinstance(s, TUP):
            return NDS("seq", tuple(expand(x, dims) for x in s.items), nd)
        return self.ip.opaque(st, "NdSpec of unknown structure", data)

    def nds_get(self, st, o, i):
        if o.kind == "item":
            return o.items[0]
        if isinstance(i, TUP) and len(i.items) == 1:
            i = i.items[0]
        return self.seq_get(st, TUP(o.items), i)

    def nds_map(self, st, o, f):
        return NDS(o.kind, tuple(self.ip.call(st, f, [x], {}) for x in o.items), o.item_ndim)

    def nds_agg(self, st, args):
        n = None
        for a in args:
            if not isinstance(a, NDS):
                if isinstance(a, (S, U)):
                    return None
                self.ip.do_raise(st, "ValueError", True)
            if a.kind == "seq":
                if n is not None and n != len(a.items):
                    self.ip.event("nds-mismatch", st)
                    self.ip.do_raise(st, "ValueError", True)
                n = len(a.items)
        return n if n is not None else ()

    def nds_static(self, st, name, args, kwargs):
        if name == "apply":
            f, specs = args[0], [self.ip.one(st, a) for a in args[1:]]
            for k, a in enumerate(specs):
                if isinstance(a, U):
                    return self.ip.lift(st, a, lambda s, x: self.nds_static(s, name, [f] + specs[:k] + [x] + specs[k + 1:], kwargs))
            n = self.nds_agg(st, specs)
            if n is None:
                return self.ip.opaque(st, "NdSpec.apply", *specs)
            if n == ():
                return NDS("item", (self.ip.call(st, f, [a.items[0] for a in specs], {}),), 0)
            return NDS("seq", tuple(self.ip.call(st, f, [self.nds_get(st, a, num(i)) for a in specs], {})
                                    for i in range(n)), 0)
        if name == "zip":
            specs = args
            n = self.nds_agg(st, specs)
            if n is None:
                return self.ip.opaque(st, "NdSpec.zip", *specs)
            if n == ():
                return NDS("item", (TUP(tuple(a.items[0] for a in specs)),), 1)
            return NDS("seq", tuple(TUP(tuple(self.nds_get(st, a, num(i)) for a in specs)) for i in range(n)), 1)
        if name in ("agg_index_len", "agg_index_shape"):
            args = [self.ip.one(st, a) for a in args]
            for k, a in enumerate(args):
                if isinstance(a, U):
                    return self.ip.lift(st, a, lambda s, x: self.nds_static(s, name, args[:k] + [x] + args[k + 1:], kwargs))
            n = self.nds_agg(st, args)
            if n is None:
                return N(P(N_("ndslen", *[self.ip.freeze(st, a) for a in args])), "int")
            if name == "agg_index_len":
                return num(0 if n == () else n)
            return TUP(()) if n == () else TUP((num(n),))
        return self.ip.opaque(st, "NdSpec." + name)

    def install_ndspec(self):
        v = self.ip.lookup("torchimage.utils.NdSpec")
        if not isinstance(v, CLS):
            return False
        r = self.ip.st.heap[v.oid]
        self.nds_cls = v
        self.ip.intrinsics[(r.mod, r.name)] = lambda st, cls, a, k: self.mk_nds(st, a, k)
        for n in ("apply", "zip", "agg_index_len", "agg_index_shape"):
            self.ip.intrinsics[(r.mod, r.name + "." + n)] = \
                (lambda nm: lambda st, fn, a, k: self.nds_static(st, nm, a, k))(n)
        return True

    nds_cls = None

    # ================================================================ attributes of values
    def value_attr(self, st, o, name):
        if isinstance(o, T):
            t = self.cell_term(st, o.oid)
            lib = st.heap[o.oid].lib
            if name == "shape":
                return self.shape(st, t)
            if name == "ndim":
                return N(self.rank_of(t), "int")
            if name == "dtype":
                return S(self.prov("dtype", t), "dtype")
            if name == "device":
                return S(self.prov("device", t), "device")
            if name in ("T", "mT", "H"):
                at = t.as_atom()
                if at is not None and at.op == "carr" and len(at.args[0]) == 2:
                    (h, w), f = at.args
                    return self.fresh(st, N_("carr", (w, h), tuple(f[i * w + j] for j in range(w) for i in range(h))), "np")
                return self.mkview(st, o, (name,))
            if name == "data":
                return self.mkview(st, o, ("detach",))
            if name in ("real", "imag"):
                return self.mkview(st, o, (name,))
            if name in ("grad",):
                return S(N_("attr", N_("tref", t), name))
            if name in ("requires_grad", "is_cuda", "is_leaf", "is_complex"):
                return B(N_("pred", name, t))
            if name == "size" and lib == "np":
                return N(P(N_("numel", t)), "int")
            return XM(o, name)
        if isinstance(o, TUP) and o.names and name in o.names:
            return o.items[o.names.index(name)]
        if isinstance(o, SLC) and name in ("start", "stop", "step"):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        if isinstance(o, NDS):
            if name == "data":
                return o.items[0] if o.kind == "item" else TUP(o.items)
            if name == "is_item":
                return K(o.kind == "item")
            if name == "index_shape":
                return TUP(()) if o.kind == "item" else TUP((num(len(o.items)),))
            if name in ("index_ndim", "index_pos"):
                return num(0 if o.kind == "item" else 1)
            if name == "item_ndim":
                return num(o.item_ndim)
            if name in ("item_shape", "shape"):
                return S(N_("ndsattr", name, self.ip.freeze(st, o)))
            if name == "ndim":
                return num(o.item_ndim + (o.kind == "seq"))
            if name in ("map", "starmap", "apply", "zip", "agg_index_len", "agg_index_shape", "__len__", "__getitem__"):
                return XM(o, name)
            # other members of the class: interpret them with self bound to the intrinsic value
            if self.nds_cls is not None:
                v = self.ip.class_lookup(st, self.nds_cls, name)
                if v is not None:
                    return self.ip.bind(st, v, o, self.nds_cls)
            self.ip.do_raise(st, "AttributeError", True)
        if isinstance(o, LST) and st.heap[o.oid].arr:
            c = self.content(st, o)
            n = const(len(c.items)) if isinstance(c, TUP) else c.len
            if name == "shape":
                return TUP((N(n, "int"),))
            if name == "ndim":
                return num(1)
            if name == "size":
                return N(n, "int")
            if name == "T":
                return o
            if name == "dtype":
                return S(N_("sym", "np-dtype"), "dtype")
        if isinstance(o, XI):
            r = st.heap[o.oid]
            if name in r.attrs:
                return r.attrs[name]
            return XM(o, name)
        if isinstance(o, S):
            if o.ty in ("dtype", "device", "generator"):
                return S(N_("attr", o.n, name))
            return S(N_("attr", o.n, name))
        if isinstance(o, FN):
            if name in ("__name__", "__qualname__"):
                return K(o.qual.split(".")[-1])
            if name == "__doc__":
                return S(N_("sym", "doc"), "str")
            return XM(o, name)
        if isinstance(o, BM) and name == "__func__":
            return o.fn
        if isinstance(o, N) and name in ("real",):
            return o
        if isinstance(o, (N, B)) or isinstance(o, K) and not isinstance(o.v, str):
            return XM(o, name)
        return XM(o, name)

    PROV_FIRST = frozenset(["store", "getitem", "gather", "scatter", "unfold", "flip", "detach", "view", "reshape", "unsqueeze", "clamp",
                            "expand", "wview", "permute", "transpose", "squeeze", "mean", "sum", "amax", "amin", "median", "fn1",
                            "reflection_pad2d", "roll", "bcast", "inv", "empty_like", "full_like", "flatten"])

    def prov(self, kind, t):
        """dtype / device of a term, kept as a symbolic query on the tensor it comes from"""
        r = self.prov_root(kind, P(t) if isinstance(t, Node) else t, 0)
        return r if r is not None else N_(kind, t)

    def prov_root(self, kind, t, d):
        """query node, or None when the operands disagree"""
        if d > 200:
            return None
        memo = self.__dict__.setdefault("_provmemo", {})
        key = (kind, t)
        if key in memo:
            return memo[key]
        memo[key] = None
        out = None
        good = True
        for a in t.atoms():
            if not is_tensor_node(a):
                continue
            r = self.prov_node(kind, a, d + 1)
            if r is None or out is not None and r is not out:
                good = False
                break
            out = r
        out = out if good else None
        memo[key] = out
        return out

    def prov_node(self, kind, a, d):
        op = a.op
        if op in self.PROV_FIRST and isinstance(a.args[0], Poly):
            if op in ("empty_like", "full_like") and a.args[2 if kind == "dtype" else 3] is not None:
                return None
            return self.prov_root(kind, a.args[0], d)
        if op == "phi" and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
            x, y = self.prov_root(kind, a.args[1], d), self.prov_root(kind, a.args[2], d)
            return x if x is y else None
        if op == "matmul":
            x, y = self.prov_root(kind, a.args[0], d), self.prov_root(kind, a.args[1], d)
            return x if x is y else None
        if op in ("empty", "full", "tensor", "arange", "linspace", "cast"):
            s = a.args[-2] if kind == "dtype" else a.args[-1]
            if s is None and op == "cast":
                return self.prov_root(kind, a.args[0], d)
            if isinstance(s, Node) and s.op == kind:
                return s
            return N_(kind, P(a))
        if op == "mu" and len(a.args) > 1 and str(a.args[1]).startswith("('h'"):
            dd = self.ip.mu_defs.get(a)
            if dd is not None and isinstance(dd[0], Poly):
                return self.prov_root(kind, dd[0], d)
        return N_(kind, P(a))

    def set_value_attr(self, st, o, name, v):
        if isinstance(o, XI):
            r = st.heap[o.oid]
            at = dict(r.attrs)
            at[name] = v
            st.heap[o.oid] = r.set(attrs=at)
            if r.owner != "call" and self.ip.phase == "call":
                self.ip.mark_written(st, ("attr", o.oid, name))
            return
        if isinstance(o, T):
            if name == "data":
                self.write_cell(st, o.oid, self.term(st, v), how=".data assignment")
                return
            r = st.heap[o.oid]
            self.ip.event("mutate", st, owner=r.owner, oid=o.oid, how="." + name + " assignment", may=False)
            return
        if isinstance(o, FN):
            self.ip.note_undecided(st, "function attribute")
            return
        self.ip.note_undecided(st, "attribute assignment on " + type(o).__name__)

    def ext_attr(self, st, o, name):
        p = o.path + "." + name
        if p in ("math.pi", "numpy.pi"):
            return N(P(N_("fsym", "pi")), "float")
        if p in ("math.e", "numpy.e"):
            return N(P(N_("fsym", "e")), "float")
        if p in ("math.inf", "numpy.inf", "torch.inf"):
            return N(P(N_("fconst", "inf")), "float")
        if p in ("math.nan", "numpy.nan", "torch.nan"):
            return N(P(N_("fconst", "nan")), "float")
        if p in ("numpy.newaxis",):
            return NONE
        return EXT(p)
