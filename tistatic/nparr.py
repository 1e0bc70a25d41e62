"""Small numpy arrays of known shape, folded elementwise: the value of a kernel computation, not its program."""
import ast
import itertools
from fractions import Fraction
from .vals import *
from .terms import *

LIMIT = 4096


def elem(x):
    """array entry as stored in a carr node: a number, or a polynomial"""
    if isinstance(x, Poly) and x.is_const:
        return x.const
    return x


def poly(x):
    return x if isinstance(x, Poly) else P(x) if isinstance(x, Node) else const(x)


def as_arr(m, st, v):
    """(shape, entries) of a python value, or None"""
    if isinstance(v, N):
        return (), (v.p,)
    if isinstance(v, LST) and st.heap[v.oid].arr:
        c = m.content(st, v)
        if isinstance(c, TUP) and all(isinstance(x, N) for x in c.items):
            return (len(c.items),), tuple(x.p for x in c.items)
        return None
    if isinstance(v, T) and st.heap[v.oid].lib == "np":
        t = m.cell_term(st, v.oid)
        if len(t.t) != 1:
            return None
        (mono, c), = t.t.items()
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "carr":
            s, f = mono[0][0].args[:2]
            return s, tuple(mul(const(c), poly(x)) for x in f)
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "lit" and isinstance(mono[0][0].args[0], tuple) \
                and all(isinstance(x, (Poly, int, float, Fraction)) for x in mono[0][0].args[0]):
            f = mono[0][0].args[0]
            return (len(f),), tuple(mul(const(c), poly(x)) for x in f)
    return None


def mk(m, st, shape, data):
    data = tuple(data)
    if shape == ():
        return N(data[0], "float")
    if len(shape) == 1:
        return m.ip.arr(st, TUP(tuple(N(x, "float") for x in data)))
    return m.fresh(st, N_("carr", tuple(shape), tuple(elem(x) for x in data)), "np")


def size(s):
    n = 1
    for k in s:
        n *= k
    return n


def bcast(a, b):
    """broadcast shape and the two entry lists"""
    (s, x), (t, y) = a, b
    n = max(len(s), len(t))
    s2, t2 = (1,) * (n - len(s)) + tuple(s), (1,) * (n - len(t)) + tuple(t)
    out = []
    for p, q in zip(s2, t2):
        if p != q and p != 1 and q != 1:
            return None
        out.append(q if p == 1 else p)
    if size(out) > LIMIT:
        return None

    def pick(sh, d, ix):
        o = 0
        for k, i in zip(sh, ix):
            o = o * k + (0 if k == 1 else i)
        return d[o]
    ix = list(itertools.product(*[range(k) for k in out]))
    return tuple(out), [pick(s2, x, i) for i in ix], [pick(t2, y, i) for i in ix]


def binop(m, st, op, a, b):
    """folded result, or None when the operands are not known arrays"""
    x, y = as_arr(m, st, a), as_arr(m, st, b)
    if x is None or y is None or x[0] == () and y[0] == ():
        return None
    if isinstance(op, ast.MatMult):
        return matmul(m, st, x, y)
    if not isinstance(op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)):
        return None
    r = bcast(x, y)
    if r is None:
        return None
    sh, p, q = r
    res = []
    for u, v in zip(p, q):
        if isinstance(op, ast.Pow) and not v.is_const and not u.is_const:
            return None
        if isinstance(op, ast.Div) and v == ZERO:
            return None
        z = m.n_arith(st, op, N(u, "float"), N(v, "float") if not (isinstance(op, ast.Pow) and v.as_int() is not None) else N(v, "int"))
        if not isinstance(z, N):
            return None
        res.append(z.p)
    return mk(m, st, sh, res)


def matmul(m, st, x, y):
    (s, p), (t, q) = x, y
    if not s or not t or len(s) > 2 or len(t) > 2:
        return None
    a = s if len(s) == 2 else (1,) + tuple(s)
    b = t if len(t) == 2 else tuple(t) + (1,)
    if a[1] != b[0] or a[0] * b[1] > LIMIT:
        return None
    res = []
    for i in range(a[0]):
        for j in range(b[1]):
            acc = ZERO
            for k in range(a[1]):
                acc = add(acc, mul(p[i * a[1] + k], q[k * b[1] + j]))
            res.append(acc)
    sh = ((a[0],) if len(s) == 2 else ()) + ((b[1],) if len(t) == 2 else ())
    return mk(m, st, sh, res)


def diag(m, st, x, k):
    s, p = x
    if len(s) == 1:
        n = s[0] + abs(k)
        res = [ZERO] * (n * n)
        for i, v in enumerate(p):
            r, c = (i, i + k) if k >= 0 else (i - k, i)
            res[r * n + c] = v
        return mk(m, st, (n, n), res)
    if len(s) == 2:
        res = [p[r * s[1] + r + k] for r in range(s[0]) if 0 <= r + k < s[1]]
        return mk(m, st, (len(res),), res)
    return None


def transpose(m, st, x):
    s, p = x
    if len(s) != 2:
        return mk(m, st, s, p) if len(s) < 2 else None
    return mk(m, st, (s[1], s[0]), [p[i * s[1] + j] for j in range(s[1]) for i in range(s[0])])


def index(m, st, x, i):
    """basic indexing with constants, full or constant slices, and new axes"""
    s, p = x
    items = list(i.items) if isinstance(i, TUP) else [i]
    n = sum(1 for q in items if q != NONE and not (isinstance(q, K) and q.v is Ellipsis))
    full = SLC(NONE, NONE, NONE)
    if any(isinstance(q, K) and q.v is Ellipsis for q in items):
        k = next(j for j, q in enumerate(items) if isinstance(q, K) and q.v is Ellipsis)
        items = items[:k] + [full] * (len(s) - n) + items[k + 1:]
    else:
        items += [full] * (len(s) - n)
    ax, sel, sh = 0, [], []
    for q in items:
        if q == NONE:
            sh.append(1)
            continue
        if ax >= len(s):
            return None
        if isinstance(q, N) and q.p.as_int() is not None:
            j = q.p.as_int()
            if not -s[ax] <= j < s[ax]:
                return None
            sel.append([j % s[ax]])
        elif isinstance(q, SLC) and all(z == NONE or isinstance(z, N) and z.p.as_int() is not None for z in (q.a, q.b, q.c)):
            r = list(range(s[ax]))[slice(*[None if z == NONE else z.p.as_int() for z in (q.a, q.b, q.c)])]
            sel.append(r)
            sh.append(len(r))
        else:
            return None
        ax += 1
    res = []
    for ix in itertools.product(*sel):
        o = 0
        for k, j in zip(s, ix):
            o = o * k + j
        res.append(p[o])
    return mk(m, st, tuple(sh), res)


def reduce_sum(m, st, x, axis=None):
    s, p = x
    if axis is None:
        acc = ZERO
        for v in p:
            acc = add(acc, v)
        return mk(m, st, (), [acc])
    axis %= len(s)
    out = tuple(k for i, k in enumerate(s) if i != axis)
    res = []
    for ix in itertools.product(*[range(k) for k in out]):
        acc = ZERO
        for j in range(s[axis]):
            full = list(ix)
            full.insert(axis, j)
            o = 0
            for k, q in zip(s, full):
                o = o * k + q
            acc = add(acc, p[o])
        res.append(acc)
    return mk(m, st, out, res)


def reshape(m, st, x, sh):
    s, p = x
    sh = list(sh)
    if sh.count(-1) == 1:
        k = 1
        for q in sh:
            k *= q if q != -1 else 1
        if not k or len(p) % k:
            return None
        sh[sh.index(-1)] = len(p) // k
    if size(sh) != len(p):
        return None
    return mk(m, st, tuple(sh), p)


def nested(m, st, x):
    """tolist()"""
    s, p = x
    if len(s) == 1:
        return m.ip.lst(st, TUP(tuple(N(v, "float") for v in p)))
    k = size(s[1:])
    return m.ip.lst(st, TUP(tuple(nested(m, st, (s[1:], p[i * k:(i + 1) * k])) for i in range(s[0]))))


def method(m, st, o, name, args, kwargs):
    """folded method of a known array, or None"""
    x = as_arr(m, st, o)
    if x is None or not x[0]:
        return None
    ints = lambda vs: [v.p.as_int() for v in vs] if all(isinstance(v, N) and v.p.as_int() is not None for v in vs) else None
    if name in ("dot", "matmul", "__matmul__") and len(args) == 1 and not kwargs:
        y = as_arr(m, st, args[0])
        if y is None:
            return None
        return matmul(m, st, x, y) if y[0] else binop(m, st, ast.Mult(), o, args[0])
    if name == "transpose" and not args and not kwargs:
        return transpose(m, st, x)
    if name == "sum" and len(x[0]) > 1:
        a = args[0] if args else kwargs.get("axis", NONE)
        if set(kwargs) - {"axis"} or len(args) > 1:
            return None
        if a == NONE:
            return reduce_sum(m, st, x)
        if isinstance(a, N) and a.p.as_int() is not None:
            return reduce_sum(m, st, x, a.p.as_int())
        return None
    if name == "reshape" and not kwargs:
        vs = args
        if len(args) == 1 and isinstance(args[0], TUP):
            vs = args[0].items
        k = ints(vs)
        return reshape(m, st, x, k) if k is not None else None
    if name in ("ravel", "flatten") and not args and not kwargs:
        return mk(m, st, (len(x[1]),), x[1])
    if name in ("copy",) and len(x[0]) > 1:
        return mk(m, st, *x)
    if name == "tolist" and len(x[0]) > 1:
        return nested(m, st, x)
    return None


def func(m, st, leaf, args, kwargs):
    """folded numpy function on known arrays, or None"""
    def seq(v):
        if isinstance(v, (TUP, LST)) and not (isinstance(v, LST) and st.heap[v.oid].arr):
            r = m.np_array(st, v)
            return as_arr(m, st, r)
        return as_arr(m, st, v)
    if leaf in ("dot", "matmul") and len(args) == 2 and not kwargs:
        x, y = seq(args[0]), seq(args[1])
        if x and y and x[0] and y[0]:
            return matmul(m, st, x, y)
        return None
    if leaf == "diag" and args and not set(kwargs) - {"k"}:
        x = seq(args[0])
        k = args[1] if len(args) > 1 else kwargs.get("k", N(ZERO, "int"))
        if x and x[0] and isinstance(k, N) and k.p.as_int() is not None:
            return diag(m, st, x, k.p.as_int())
        return None
    if leaf in ("eye", "identity") and len(args) == 1 and not kwargs and isinstance(args[0], N) and args[0].p.as_int() is not None:
        n = args[0].p.as_int()
        if 0 < n <= 32:
            return mk(m, st, (n, n), [ONE if i == j else ZERO for i in range(n) for j in range(n)])
        return None
    if leaf == "outer" and len(args) == 2 and not kwargs:
        x, y = seq(args[0]), seq(args[1])
        if x and y and len(x[1]) * len(y[1]) <= LIMIT:
            return mk(m, st, (len(x[1]), len(y[1])), [mul(p, q) for p in x[1] for q in y[1]])
        return None
    if leaf == "vander" and len(args) in (1, 2):
        x = seq(args[0])
        n = args[1] if len(args) == 2 else kwargs.get("N")
        inc = kwargs.get("increasing", K(False))
        if x and len(x[0]) == 1 and isinstance(n, N) and n.p.as_int() and isinstance(inc, (K, B)) and not set(kwargs) - {"N", "increasing"}:
            k = n.p.as_int()
            es = list(range(k)) if inc == K(True) or getattr(inc, "v", False) is True else list(range(k - 1, -1, -1))
            res = []
            for v in x[1]:
                for e in es:
                    z = m.n_arith(st, ast.Pow(), N(v, "float"), N(const(e), "int"))
                    res.append(z.p)
            return mk(m, st, (len(x[1]), k), res)
        return None
    return None
