"""Hash-consed terms of the value-dependence graph.

Node : an interned operator applied to arguments (Node / Poly / python constants / tuples)
Poly : a multivariate polynomial with rational coefficients over Nodes ("atoms").
       Integer powers may be negative, which is how division by a single atom is kept.

Everything numeric or tensor-valued in the analysed program is a Poly; booleans are
Python bools or boolean Nodes.  Arithmetic is exact, so the normal form identifies
expressions that differ only by how they are written.
"""
from fractions import Fraction
import math

_table = {}
_serial = [0]


class Node:
    __slots__ = ("op", "args", "id", "_h", "__weakref__")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def N_(op, *args):
    """raw interned node"""
    k = (op, tuple((type(a), a) if isinstance(a, (bool, int, float, Fraction)) else a for a in args))
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op, n.args = op, args
        _serial[0] += 1
        n.id = _serial[0]
        n._h = hash(n.id)
        _table[k] = n
    return n


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __repr__(self):
        return show(self)

    # -- queries
    @property
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    @property
    def const(self):
        return self.t.get((), Fraction(0))

    def as_int(self):
        if self.is_const and self.const.denominator == 1:
            return int(self.const)
        return None

    def atoms(self):
        s = []
        seen = set()
        for m in self.t:
            for a, _ in m:
                if a not in seen:
                    seen.add(a)
                    s.append(a)
        return s

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return m[0][0]
        return None


def const(c):
    if isinstance(c, Poly):
        return c
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float):
        if math.isnan(c) or math.isinf(c):
            return P(N_("fconst", repr(c)))
        c = Fraction(repr(c))
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


def P(a):
    if isinstance(a, Poly):
        return a
    if isinstance(a, Node):
        return Poly({((a, 1),): Fraction(1)})
    return const(a)


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return Poly(t)


def neg(a):
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def _mm(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def mul(a, b):
    if a.is_const:
        c = a.const
        return Poly({m: c * v for m, v in b.t.items()}) if c else ZERO
    if b.is_const:
        return mul(b, a)
    # cancel  inv(D) * (c*D)
    for x, y in ((a, b), (b, a)):
        if len(x.t) == 1 and len(y.t) > 1:
            (m, c), = x.t.items()
            for at, e in m:
                if at.op == "inv" and e >= 1:
                    k = ratio(y, at.args[0])
                    if k is not None:
                        m2 = tuple((p, q) if p is not at else (p, q - 1) for p, q in m)
                        m2 = tuple((p, q) for p, q in m2 if q)
                        return Poly({m2: c * k})
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = _mm(m1, m2)
            v = t.get(m, 0) + c1 * c2
            if v:
                t[m] = v
            else:
                t.pop(m, None)
    return Poly(t)


def ratio(a, b):
    """c such that a == c*b, else None"""
    if len(a.t) != len(b.t) or not b.t:
        return None
    k = None
    for m, c in a.t.items():
        d = b.t.get(m)
        if d is None:
            return None
        if k is None:
            k = c / d
        elif c / d != k:
            return None
    return k


def div(a, b):
    if b.is_const:
        if not b.const:
            return P(N_("div0", a))
        return mul(const(1 / b.const), a)
    k = ratio(a, b)
    if k is not None:
        return const(k)
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return mul(a, Poly({tuple((x, -e) for x, e in m): 1 / c}))
    low = {}
    for m in b.t:
        for x, e in m:
            if e < 0:
                low[x] = max(low.get(x, 0), -e)
    if low:         # clear negative powers: 1 / (1 - 1/n) = n / (n - 1)
        k = P(ONE)
        for x, e in low.items():
            k = mul(k, powi(P(x), e))
        return div(mul(a, k), mul(b, k))
    # normalise leading coefficient so that inv(2D) = inv(D)/2
    lead = max(b.t.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[1]
    d = mul(const(1 / lead), b)
    return mul(mul(const(1 / lead), P(N_("inv", d))), a)


def powi(a, n):
    if n < 0:
        return div(ONE, powi(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def pow_(a, b):
    n = b.as_int()
    if n is not None and (abs(n) <= 4 or len(a.t) <= 1 and abs(n) <= 64):
        return powi(a, n)
    if a.is_const and b.is_const:
        if a.const == 1:
            return ONE
        try:
            return const(float(a.const) ** float(b.const))
        except Exception:
            pass
    if a == ONE:
        return ONE
    return P(N_("pow", a, b))


# ------------------------------------------------------------------ integers
INT_OPS = {"imu", "dim", "rank", "floordiv", "mod", "min", "max", "len", "isym", "ceil", "floor", "ndslen", "argint"}


def node_is_int(n):
    if n.op in ("floordiv", "mod", "min", "max"):
        return all(is_int(a) for a in n.args)
    if n.op == "phi":
        return all(isinstance(a, Poly) and is_int(a) for a in n.args[1:])
    if n.op == "item":
        return len(n.args) > 2 and n.args[2] == "int"
    return n.op in INT_OPS


def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or not node_is_int(a):
                return False
    return True


def _lead(p):
    """sign of the coefficient of the earliest monomial"""
    return min((tuple(sorted((x.id, e) for x, e in m)), c) for m, c in p.t.items() if m)[1]


def floordiv(a, b):
    if a.is_const and b.is_const and b.const:
        return const(math.floor(a.const / b.const))
    k = b.as_int()
    if k == 1 and is_int(a):
        return a
    if k and is_int(a):
        # split the exactly divisible part
        q, r = {}, {}
        for m, c in a.t.items():
            if c % k == 0:
                q[m] = c / k
            elif m == ():
                fl = math.floor(c / k)
                if fl:
                    q[m] = Fraction(fl)
                if c - fl * k:
                    r[m] = c - fl * k
            else:
                r[m] = c
        q, r = Poly(q), Poly(r)
        if r.is_const:
            return add(q, const(math.floor(r.const / k)))
        if k > 0 and _lead(r) < 0:
            # floor(-x/k) = -ceil(x/k)
            return sub(q, floordiv(add(neg(r), const(k - 1)), b))
        return add(q, P(N_("floordiv", r, b)))
    if a == b:
        return ONE
    if not a.t:
        return ZERO
    at = b.as_atom()
    if at is not None and is_int(a) and is_int(b):
        q, r = {}, {}
        for m, c in a.t.items():
            e = dict(m)
            if e.get(at, 0) >= 1 and Fraction(c).denominator == 1:
                e[at] -= 1
                q[tuple((x, k) for x, k in m if x is not at) if not e[at] else tuple((x, e[x]) for x, _ in m)] = c
            else:
                r[m] = c
        if q:
            return add(Poly(q), floordiv(Poly(r), b))
    return P(N_("floordiv", a, b))


def mod(a, b):
    if a.is_const and b.is_const and b.const:
        return const(a.const - b.const * math.floor(a.const / b.const))
    k = b.as_int()
    if k and is_int(a):
        r = {}
        for m, c in a.t.items():
            if c % k:
                r[m] = c % k
        r = Poly(r)
        if r.is_const:
            return r
        return P(N_("mod", r, b))
    if a == b or not a.t:
        return ZERO
    return P(N_("mod", a, b))


def _flat(op, args):
    out = []
    for a in args:
        at = a.as_atom()
        if at is not None and at.op == op:
            out.extend(at.args)
        else:
            out.append(a)
    return out


def minmax(op, args):
    args = _flat(op, [P(a) for a in args])
    consts = [a.const for a in args if a.is_const]
    rest = []
    for a in args:
        if not a.is_const and a not in rest:
            rest.append(a)
    if consts:
        rest.append(const((min if op == "min" else max)(consts)))
    # drop args dominated by constant difference
    keep = []
    for i, a in enumerate(rest):
        dom = False
        for j, b in enumerate(rest):
            if i == j:
                continue
            d = sub(a, b)
            if d.is_const and ((op == "min" and d.const > 0) or (op == "max" and d.const < 0)):
                dom = True
        if not dom:
            keep.append(a)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda p: tuple(sorted(((tuple((x.id, e) for x, e in m)), c) for m, c in p.t.items())))
    return P(N_(op, *keep))


def ceil_(a):
    if a.is_const:
        return const(math.ceil(a.const))
    if is_int(a):
        return a
    # ceil(N / s) with N integer, s a positive constant -> (N + s - 1) // s
    s = 1
    for c in a.t.values():
        s = math.lcm(s, Fraction(c).denominator)
    if s > 1:
        n = mul(a, const(s))
        if is_int(n):
            return floordiv(add(n, const(s - 1)), const(s))
    # ceil(N * inv(b)) with N, b integer -> -((-N)//b)
    if len(a.t) >= 1:
        den = None
        for m in a.t:
            negs = tuple((x, e) for x, e in m if e < 0)
            if den is None:
                den = negs
            elif den != negs:
                den = False
                break
        if den:
            d = Poly({tuple((x, -e) for x, e in den): Fraction(1)})
            num = mul(a, d)
            if is_int(num) and is_int(d):
                return neg(floordiv(neg(num), d))
    return P(N_("ceil", a))


def floor_(a):
    return neg(ceil_(neg(a)))


# ------------------------------------------------------------------ booleans
def ge0(p):
    """condition p >= 0"""
    if p.is_const:
        return p.const >= 0
    if is_int(p):
        g = 0
        for m, c in p.t.items():
            if m:
                g = math.gcd(g, int(c))
        if g > 1:
            t = {m: c / g for m, c in p.t.items() if m}
            k = math.floor(p.const / g)
            if k:
                t[()] = Fraction(k)
            p = Poly(t)
    return N_("ge0", p)


def gt0(p):
    if p.is_const:
        return p.const > 0
    if is_int(p):
        return ge0(sub(p, ONE))
    return N_("gt0", p)


def eq0(p):
    if p.is_const:
        return p.const == 0
    lead = min(p.t.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]) if mc[0] else ((1 << 60,),))[1]
    p = mul(const(1 / lead), p)
    return N_("eq0", p)


_notc = {}


def not_(c):
    if isinstance(c, bool):
        return not c
    r = _notc.get(c)
    if r is None:
        r = _notc[c] = _not(c)
    return r


def _not(c):
    if c.op == "not":
        return c.args[0]
    if c.op == "ge0":
        return gt0(neg(c.args[0]))
    if c.op == "gt0":
        return ge0(neg(c.args[0]))
    if c.op == "and":
        return or_(*[not_(a) for a in c.args])
    if c.op == "or":
        return and_(*[not_(a) for a in c.args])
    return N_("not", c)


def _bool(op, args, unit):
    out = []
    for a in args:
        if isinstance(a, bool):
            if a != unit:
                return a
            continue
        if a.op == op:
            xs = a.args
        else:
            xs = (a,)
        for x in xs:
            if x not in out:
                out.append(x)
    for x in out:
        if not_(x) in out:
            return not unit
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda n: n.id)
    return N_(op, *out)


def and_(*a):
    return _bool("and", a, True)


def or_(*a):
    return _bool("or", a, False)


BOOL_OPS = {"ge0", "gt0", "eq0", "not", "and", "or", "isnone", "isinst", "streq", "truthy", "pred", "bsym", "bmu",
            "all", "any", "in", "raises", "iscallable"}


def bphi(c, a, b):
    """phi of two conditions"""
    if isinstance(c, bool):
        return a if c else b
    if a is b or a == b and type(a) is type(b):
        return a
    if a is False:
        return and_(not_(c), b)
    if a is True:
        return or_(c, b)
    if b is False:
        return and_(c, a)
    if b is True:
        return or_(not_(c), a)
    return or_(and_(c, a), and_(not_(c), b))


def _meta_eqs(c):
    """[(u, v)] when c is a conjunction of equalities between dtypes / devices"""
    cs = c.args if c.op == "and" else (c,)
    out = []
    for x in cs:
        if x.op != "pred" or x.args[0] != "==" or len(x.args) != 3:
            return None
        u, v = x.args[1:]
        if not (isinstance(u, Node) and isinstance(v, Node) and u.op == v.op and u.op in ("dtype", "device")):
            return None
        out.append((u, v))
    return out


def phi(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a == b and type(a) is type(b):
        return a
    if isinstance(c, Node) and c.op == "not":
        c, a, b = c.args[0], b, a
    if isinstance(c, Node) and c.op in ("pred", "and", "or"):
        # branches that agree wherever the condition (an equality of dtypes/devices) allows them to differ
        for cc, r in ((c, b), (not_(c), a)):
            eqs = _meta_eqs(cc)
            if eqs:
                m = {}
                for u, v in eqs:
                    m[u] = m.get(v, v)
                if subst(a, m) == subst(b, m):
                    return r
    if isinstance(c, Node) and c.op in ("ge0", "gt0") and isinstance(a, Poly) and isinstance(b, Poly) and isinstance(c.args[0], Poly):
        # (a if a > b else b) and its variants
        d, e = sub(a, b), c.args[0]
        for q, op in ((d, "max"), (neg(d), "min")):
            if q == e or c.op == "ge0" and is_int(q) and sub(q, ONE) == e:
                return minmax(op, [a, b])
    r = N_("phi", c, a, b)
    if isinstance(a, Poly) or isinstance(b, Poly):
        return P(r)
    return r


# ------------------------------------------------------------------ rebuild / subst
SMART = {}


def mk(op, *args):
    f = SMART.get(op)
    if f is not None:
        return f(*args)
    return N_(op, *args)


SMART["min"] = lambda *a: minmax("min", a)
SMART["max"] = lambda *a: minmax("max", a)
SMART["floordiv"] = lambda a, b: floordiv(P(a), P(b))
SMART["mod"] = lambda a, b: mod(P(a), P(b))
SMART["pow"] = lambda a, b: pow_(P(a), P(b))
SMART["inv"] = lambda a: div(ONE, P(a))
SMART["ceil"] = lambda a: ceil_(P(a))
SMART["ge0"] = lambda a: ge0(P(a))
SMART["gt0"] = lambda a: gt0(P(a))
SMART["eq0"] = lambda a: eq0(P(a))
SMART["not"] = lambda a: not_(a)
SMART["and"] = lambda *a: and_(*a)
SMART["or"] = lambda *a: or_(*a)
SMART["phi"] = lambda c, a, b: phi(c, a, b)


def subst(x, m, memo=None, f=None):
    """Replace nodes (m: Node -> Node/Poly/const), rebuilding bottom-up with the smart
    constructors.  f(node) may return a replacement for a node *after* its arguments
    were rebuilt."""
    if memo is None:
        memo = {}

    def go(v):
        if isinstance(v, Node):
            if v in memo:
                return memo[v]
            if v in m:
                r = m[v]
            else:
                na = tuple(go(a) for a in v.args)
                r = v if all(p is q for p, q in zip(na, v.args)) else mk(v.op, *na)
                if f is not None and isinstance(r, (Node, Poly)):
                    at = r if isinstance(r, Node) else r.as_atom()
                    if at is not None:
                        rr = f(at)
                        if rr is not None:
                            r = rr
            memo[v] = r
            return r
        if isinstance(v, Poly):
            k = ("p", v)
            if k in memo:
                return memo[k]
            res = ZERO
            changed = False
            parts = []
            for mono, c in v.t.items():
                fs = []
                for a, e in mono:
                    na = go(a)
                    if na is not a:
                        changed = True
                    fs.append((na, e))
                parts.append((c, fs))
            if not changed:
                res = v
            else:
                for c, fs in parts:
                    num, den = const(c), ONE
                    for na, e in fs:
                        if e > 0:
                            num = mul(num, powi(P(na), e))
                        else:
                            den = mul(den, powi(P(na), -e))
                    if den != ONE:
                        num = div(num, den)
                    res = add(res, num)
            memo[k] = res
            return res
        if isinstance(v, tuple):
            nt = tuple(go(a) for a in v)
            return v if all(p is q for p, q in zip(nt, v)) else nt
        return v
    return go(x)


def walk(x, seen=None):
    """all Nodes reachable from x"""
    if seen is None:
        seen = set()
    stack = [x]
    while stack:
        v = stack.pop()
        if isinstance(v, Node):
            if v in seen:
                continue
            seen.add(v)
            yield v
            stack.extend(v.args)
        elif isinstance(v, Poly):
            for mono in v.t:
                for a, _ in mono:
                    stack.append(a)
        elif isinstance(v, tuple):
            stack.extend(v)


def contains(x, pred):
    return any(pred(n) for n in walk(x))


# ------------------------------------------------------------------ printing
def show(x, depth=6):
    if depth <= 0:
        return "…"
    if isinstance(x, Poly):
        if not x.t:
            return "0"
        out = []
        for m, c in sorted(x.t.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a, _ in mc[0]))):
            f = "*".join(show(a, depth - 1) + (f"^{e}" if e != 1 else "") for a, e in m)
            if not m:
                out.append(str(c) if c.denominator < 1000 else f"{float(c):.6g}")
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append((str(c) if c.denominator < 1000 else f"{float(c):.6g}") + "*" + f)
            if len(out) > 12:
                out.append("…")
                break
        s = " + ".join(out).replace("+ -", "- ")
        return s if len(x.t) == 1 else f"({s})"
    if isinstance(x, Node):
        if x.op in ("sym", "isym", "tin", "fsym"):
            return str(x.args[0])
        return f"{x.op}({', '.join(show(a, depth - 1) for a in x.args)})"
    if isinstance(x, tuple):
        return "(" + ", ".join(show(a, depth - 1) for a in x[:8]) + (", …" if len(x) > 8 else "") + ")"
    return repr(x)
