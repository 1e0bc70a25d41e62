"""Comparison of access relations: piecewise normal forms of two value graphs.

Two results agree when on every pair of pieces with compatible conditions the cell values are equal, modulo the
linear facts of the pieces.  A pair that cannot be shown equal is evaluated, as an expression over uninterpreted
cells, at sizes that satisfy its conditions (polynomial identity testing of the normal forms); only a difference
found there is reported as a definite disagreement."""
import hashlib
import math
import random
import time
from fractions import Fraction
from .access import *
from .access import Access, NoAccess, NeedSplit, NoEval, conj, redc, ksum, powx
from .terms import *
from .terms import powi, ratio
from . import lin

BOUND = ("κ", "ρ")


class Pads:
    """padded tensors: leaves identified when their input, axes, widths, modes and parameters agree"""

    def __init__(self):
        self.ids = {}      # node -> id
        self.ent = []      # (node, access)

    def get(self, acc, n):
        k = canon_mu(acc.ip, n)
        if k in self.ids:
            return self.ids[k]
        for i, (m, _) in enumerate(self.ent):
            if self.same(acc, m, n):
                self.ids[k] = i
                return i
        self.ent.append((n, acc))
        self.ids[k] = len(self.ent) - 1
        return self.ids[k]

    def same(self, acc, a, b):
        if a.args[3] != b.args[3] or len(a.args[1]) != len(b.args[1]):
            return False
        for x, y in zip(a.args[1], b.args[1]):
            if x != y and not acc.equal(x, y, ()):
                return False
        for i in (2, 4):
            for p, q, mode in zip(a.args[i], b.args[i], a.args[3]):
                if i == 2 and mode != "linear_ramp":
                    continue
                if len(p) != len(q):
                    return False
                for x, y in zip(p, q):
                    if (x is None) != (y is None) or x is not None and x != y and not acc.equal(x, y, ()):
                        return False
        s, t = a.args[0], b.args[0]
        if s == t:
            return True
        keys = [sub(x, acc.m.rank_of(a)) for x in a.args[1]]
        r = acc.m.rank_of(a)
        if r.as_int() is not None:
            keys = [const(i - r.as_int()) for i in range(r.as_int())]
        else:
            for q in acc.tracked:
                if not any(acc.holds((), eq0(sub(q, k))) for k in keys):
                    keys.append(q)
        g = {q: P(N_("isym", f"γ{i}")) for i, q in enumerate(keys)}
        fs = []
        for q, v in g.items():
            d, e = acc.dim(s, add(q, r)), acc.dim(t, add(q, r))
            if d != e and not acc.equal(d, e, ()):
                return False
            fs += [ge0(v), gt0(sub(d, v))]
        fs = tuple(f for f in fs if f is not True)
        try:
            return not acc.disagree(acc.cell(s, g, fs), acc.cell(t, g, fs), fs)
        except NoAccess:
            return False


_cm = {}


def canon_mu(ip, t):
    """t with loop variables named by their definitions instead of their position in the program"""
    key = (id(ip), t)
    if key in _cm:
        return _cm[key]
    mus = [n for n in walk(t) if n.op in ("mu", "imu", "bmu")]
    seen = set()
    todo = list(mus)
    allm = []
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        allm.append(n)
        d = ip.mu_defs.get(n)
        for x in (d or ()):
            if isinstance(x, (Poly, Node)):
                todo += [q for q in walk(x) if q.op in ("mu", "imu", "bmu")]
    loops = {}
    for n in allm:
        loops.setdefault(n.args[0], []).append(n)
    # iterate: name each loop by its definitions with loop names replaced by current class
    names = {l: "L" for l in loops}
    for _ in range(len(loops) + 2):
        m = {n: N_(n.op, names[n.args[0]], *n.args[1:]) for n in allm}
        new = {}
        for l, ns in loops.items():
            sig = tuple((n.op, n.args[1:], tuple(subst(x, m) if isinstance(x, (Poly, Node)) else x for x in (ip.mu_defs.get(n) or ())))
                        for n in sorted(ns, key=lambda q: repr(q.args[1:])))
            new[l] = hashlib.md5(repr([(a, b, [show(x, 60) if isinstance(x, (Poly, Node)) else repr(x) for x in c]) for a, b, c in sig]).encode()).hexdigest()[:12]
        if len(set(new.values())) == len(set(names.values())) and _ > 0:
            names = new
            break
        names = new
    m = {n: N_(n.op, names[n.args[0]], *n.args[1:]) for n in allm}
    r = subst(t, m)
    _cm[key] = r
    return r


class NF(Access):
    sums = True

    def __init__(self, ip, facts, pads=None, rng=None, limit=400):
        Access.__init__(self, ip, facts, limit=limit)
        self.pads = pads if pads is not None else Pads()
        self.rng = rng or {}
        self.tracked = []

    def m_axis(self, a):
        return a.as_int() if a.as_int() is not None else a

    # ------------------------------------------------ leaves
    def n_padded(self, n, idx, facts):
        """cells are addressed relative to the original content, so that the padding widths only shift indices"""
        for k in idx:
            if k not in self.tracked:
                self.tracked.append(k)
        r = self.m.rank_of(n)
        new = dict(idx)
        for ax, (before, _) in zip(n.args[1], n.args[2]):
            kk = self.find(new, sub(ax, r), facts)
            if kk is None:
                raise NoAccess("padded axis untracked")
            new[kk] = sub(new[kk], before)
        i = self.pads.get(self, n)
        ent = tuple((add(k, r), new[k]) for k in sorted(new, key=lambda k: repr(show(k))))
        return [(facts, P(N_("cell", N_("padid", i), ent)))]

    def n_reflection_pad2d(self, n, idx, facts):
        t, l, r_, tp, b = n.args[:5]
        r = self.m.rank_of(t)
        m = N_("padded", t, (sub(r, const(2)), sub(r, ONE)), ((P(tp), P(b)), (P(l), P(r_))), ("reflect", "reflect"), ((), ()))
        self.ip.rank.setdefault(m, r)
        return self.n_padded(m, idx, facts)

    def n_rng(self, n, idx, facts):
        site = n.args[1]
        k = self.rng.setdefault(site, len(self.rng))
        m = N_("draw", n.args[0], k, n.args[2])
        self.ip.rank.setdefault(m, self.m.rank_of(n))
        c = self.leafcell(n, idx)
        par = ()
        if n.op == "rngl" and isinstance(n.args[3], (Poly, Node)):
            ps = self.cell(n.args[3], idx, facts)
            return [(f, P(N_("cell", m, c.args[1], v))) for f, v in ps]
        return [(facts, P(N_("cell", m, c.args[1])))]

    n_rngl = n_rng

    def n_mu(self, n, idx, facts):
        if n in self.laws:
            return self.laws[n](idx, facts)
        c = canon_mu(self.ip, n)
        self.ip.rank.setdefault(c, self.m.rank_of(n))
        l = self.leafcell(n, idx)
        return [(facts, P(N_("cell", c, l.args[1])))]

    # ------------------------------------------------ equality
    def roots(self, v, facts):
        """(m^2)^(1/2) = m for a monomial m that is not negative"""
        m = {}
        for n in walk(v):
            if n.op == "pow" and P(n.args[1]) == const(Fraction(1, 2)) and len(P(n.args[0]).t) == 1:
                (mono, c), = P(n.args[0]).t.items()
                k = Fraction(c)
                a, b = math.isqrt(abs(k.numerator)), math.isqrt(k.denominator)
                if k <= 0 or a * a != k.numerator or b * b != k.denominator or any(e % 2 for _, e in mono):
                    continue
                r = Poly({tuple((x, e // 2) for x, e in mono): Fraction(a, b)})
                if all((e // 2) % 2 == 0 or self.holds(tuple(facts), ge0(P(x))) for x, e in mono):
                    m[n] = r
        return P(subst(v, m)) if m else v

    def simp(self, v, facts):
        v = self.roots(v, facts)
        m = {}
        fs = tuple(self.base) + tuple(facts)
        for f in fs:
            if isinstance(f, Node) and f.op == "eq0":
                p = subst(f.args[0], m) if m else f.args[0]
                for mono, c in sorted(p.t.items(), key=lambda q: repr(q)):
                    if len(mono) == 1 and mono[0][1] == 1 and (abs(c) == 1 or mono[0][0].op in ("sym", "elem")) and mono[0][0].op in ("dim", "isym", "mod", "sym", "elem", "floordiv", "ceil"):
                        a = mono[0][0]
                        rest = mul(const(-1 / Fraction(c)), sub(p, mul(const(c), P(a))))
                        if not contains(rest, lambda q: q is a):
                            m = {k: subst(x, {a: rest}) for k, x in m.items()}
                            m[a] = rest
                            break
        if not m:
            return v
        v = P(subst(v, m))
        if self.roll > 64:
            v = unroll(v)
        w = P(subst(v, m))
        return w

    def undecided_case(self, vs, facts):
        """(atom, condition, values) of a conditional inside the values, decided ones first"""
        seen = set()
        for v in vs:
            for n in walk(v, seen):
                if n.op == "phi" and isinstance(n.args[0], Node) and n.args[0].op in ("ge0", "gt0", "eq0", "not", "and", "or") and not bound(n.args[0]):
                    return n, n.args[0], n.args[1], n.args[2]
                if n.op in ("min", "max") and len(n.args) >= 2 and not bound(n):
                    x, y = n.args[0], n.args[1] if len(n.args) == 2 else P(N_(n.op, *n.args[1:]))
                    c = ge0(sub(y, x)) if n.op == "min" else ge0(sub(x, y))
                    if isinstance(c, Node):
                        return n, c, x, y
        return None

    def equal(self, a, b, facts, depth=8):
        if a == b:
            return True
        a, b = self.simp(a, facts), self.simp(b, facts)
        if a == b:
            return True
        u = self.undecided_case((a, b), facts) if depth > 0 else None
        if u is not None:
            n, c, x, y = u
            for cc, v in ((c, x), (not_(c), y)):
                fs = self.split(facts, conj(cc))
                if fs is None:
                    continue
                if not isinstance(v, (Poly, Node)):
                    return False
                if not self.equal(P(subst(a, {n: v})), P(subst(b, {n: v})), fs, depth - 1):
                    return False
            return True
        # index expressions that are equal under the facts
        A = {n for n in walk(a) if n.op in ("cell", "elem", "redc", "ksum")}
        B = {n for n in walk(b) if n.op in ("cell", "elem", "redc", "ksum")}
        m = {}
        for x in A - B:
            for y in B - A:
                if x.op == y.op and x is not y and not bound(x) and not bound(y) and self.unify(x, y, facts):
                    m[x] = P(y)
                    break
        if m:
            a = P(subst(a, m))
            if a == b:
                return True
        if rat_equal(a, b):
            return True
        if depth > 0 and self.args_equal(a, b, facts, depth):
            return True
        if is_int(a) and is_int(b) and any(n.op == "floordiv" for n in walk(sub(a, b))) and self.int_equal(a, b, facts):
            return True
        fs = [f.args[0] for f in tuple(self.base) + tuple(facts) if isinstance(f, Node) and f.op == "eq0" and not is_int(f.args[0])]
        return bool(fs) and modulo(a, b, fs)

    def int_equal(self, a, b, facts):
        """equal by the bounds of integer divisions; only facts about the same lengths matter"""
        ds = {n for n in walk(sub(a, b)) if n.op in ("dim", "isym", "len")}
        fs = [f for f in tuple(self.base) + tuple(facts) if isinstance(f, Node) and {n for n in walk(f) if n.op in ("dim", "isym", "len")} <= ds]
        return entails(fs, eq0(sub(a, b)))

    def args_equal(self, a, b, facts, depth):
        """equal after identifying function values whose arguments are equal"""
        ops = ("pow", "fnc", "math", "inv", "redc", "ksum")
        A = [n for n in a.atoms() if n.op in ops]
        B = [n for n in b.atoms() if n.op in ops]
        m = {}
        for x in A:
            if x in B:
                continue
            for y in B:
                if x.op != y.op or y in A or len(x.args) != len(y.args):
                    continue
                if x.op in ("redc", "ksum"):
                    if self.sums_equal(x, y, facts, depth):
                        m[x] = P(y)
                        break
                    continue
                if all(p == q or isinstance(p, Poly) and isinstance(q, Poly) and self.equal(p, q, facts, depth - 1)
                        for p, q in zip(x.args, y.args)):
                    m[x] = P(y)
                    break
        return bool(m) and P(subst(a, m)) == b

    def sums_equal(self, x, y, facts, depth):
        """reductions over the same ranges whose bodies are equal expressions"""
        if x.op == "ksum":
            lx, ly = ((x.args[1], x.args[0]),), ((y.args[1], y.args[0]),)
            bx, by, ex, ey = x.args[2], y.args[2], (), ()
        else:
            if x.args[0] != y.args[0]:
                return False
            (lx, bx), (ly, by) = x.args[1:3], y.args[1:3]
            ex, ey = x.args[3:], y.args[3:]
        if ex != ey or len(lx) != len(ly) or any(not isinstance(v, Node) for v, _ in lx + ly):
            return False
        fs, m = tuple(facts), {}
        for (v, n), (u, k) in zip(lx, ly):
            if n != k and not self.holds(facts, eq0(sub(P(n), P(k)))):
                return False
            if v is not u:
                m[u] = P(v)
            fs += (ge0(P(v)), gt0(sub(P(n), P(v))))
        return self.equal(P(bx), P(subst(by, m)) if m else P(by), tuple(f for f in fs if f is not True), depth - 1)

    def padsame(self, i, j, facts):
        if i == j:
            return True
        k = (i, j, tuple(facts))
        c = self.pads.__dict__.setdefault("under", {})
        if k not in c:
            c[k] = False
            (n1, _), (n2, _) = self.pads.ent[i], self.pads.ent[j]
            acc = NF(self.ip, tuple(self.base) + tuple(facts), self.pads, self.rng)
            acc.tracked = list(dict.fromkeys(list(self.pads.ent[i][1].tracked) + list(self.tracked)))
            try:
                c[k] = self.pads.same(acc, n1, n2)
            except NoAccess:
                pass
        return c[k]

    def unify(self, x, y, facts):
        def go(p, q):
            if p is q or p == q:
                return True
            if isinstance(p, tuple) and isinstance(q, tuple):
                return len(p) == len(q) and all(go(s, t) for s, t in zip(p, q))
            if isinstance(p, Poly) and isinstance(q, Poly):
                if is_int(p) and is_int(q):
                    return self.holds(facts, eq0(sub(p, q)))
                x_, y_ = p.as_atom(), q.as_atom()
                if x_ is not None and y_ is not None and x_.op == y_.op and x_.op in ("cell", "elem"):
                    return go(x_.args, y_.args)
                return False
            if isinstance(p, Node) and isinstance(q, Node) and p.op == q.op == "padid":
                return self.padsame(p.args[0], q.args[0], facts)
            return False
        return go(x.args, y.args)

    def disagree(self, ps, qs, facts):
        """[(facts, a, b)]: pairs of pieces not shown equal"""
        out = []
        for fa, va in ps:
            for fb, vb in qs:
                fs = self.split(tuple(facts) + tuple(fa), fb)
                if fs is None or any(absurd(f) for f in fs):
                    continue
                if not self.equal(va, vb, fs):
                    out.append((fs, va, vb))
        return out


def absurd(f):
    """a/b == 0 where a is a non-zero constant"""
    if not (isinstance(f, Node) and f.op == "eq0" and contains(f.args[0], lambda q: q.op == "inv")):
        return False
    try:
        num = rat(f.args[0])[0]
    except TooBig:
        return False
    return num.is_const and num != ZERO


def unroll(v):
    """sums of known length written out"""
    for _ in range(6):
        ks = [n for n in walk(v) if n.op == "ksum" and n.args[0].as_int() is not None and n.args[0].as_int() <= 32]
        if not ks:
            return v
        inner = [n for n in ks if not any(q.op == "ksum" and q is not n and q in ks for q in walk(n.args[2]))]
        m = {}
        for n in inner:
            acc = ZERO
            for i in range(n.args[0].as_int()):
                acc = add(acc, P(subst(n.args[2], {n.args[1]: const(i)})))
            m[n] = acc
        v = resum(P(subst(v, m)))
    return v


def resum(v):
    """sums distributed over their terms again"""
    def f(n):
        if n.op == "ksum" and isinstance(n.args[2], Poly) and (len(n.args[2].t) != 1 or n.args[2].as_atom() is None):
            return ksum(n.args[0], n.args[1], n.args[2])
        return None
    return P(subst(v, {}, None, f))


RAT_LIMIT = 60000


def rat(p, memo=None):
    """p as a quotient of polynomials without reciprocals of sums"""
    if not any(a.op in ("inv", "pow", "fnc") for a in p.atoms()):
        return p, ONE
    groups = {}
    for mono, c in p.t.items():
        n, d = const(c), {}
        for a, e in mono:
            if a.op == "inv":
                x, y = rat(a.args[0])
                n = mul(n, powi(y, e))
                lead = max(x.t.items(), key=lambda mc: tuple((z.id, k) for z, k in mc[0]))[1]
                x = mul(const(1 / lead), x)
                n = mul(n, powi(const(1 / lead), e))
                d[x] = d.get(x, 0) + e
            elif a.op == "pow" and isinstance(a.args[0], Poly) and any(q.op == "inv" for q in walk(a.args[0])):
                x, y = rat(a.args[0])
                n = mul(n, powi(P(N_("pow", *rnorm(x, y), a.args[1])), e))
            else:
                n = mul(n, Poly({((a, e),): Fraction(1)}))
            if len(n.t) > RAT_LIMIT:
                raise TooBig()
        k = tuple(sorted(d.items(), key=lambda q: repr(q[0].t)))
        groups[k] = add(groups.get(k, ZERO), n)
    lcm = {}
    for k in groups:
        for x, e in k:
            lcm[x] = max(lcm.get(x, 0), e)
    num, den = ZERO, ONE
    for x, e in lcm.items():
        if len(den.t) * len(x.t) ** e > RAT_LIMIT:
            raise TooBig()
        den = mul(den, powi(x, e))
    for k, n in groups.items():
        h = dict(k)
        for x, e in lcm.items():
            r = e - h.get(x, 0)
            if r:
                if len(n.t) * len(x.t) ** r > RAT_LIMIT:
                    raise TooBig()
                n = mul(n, powi(x, r))
        num = add(num, n)
    return num, den


class TooBig(Exception):
    pass


def rnorm(x, y):
    """a quotient inside another function, as a pair of polynomials scaled to a leading coefficient of one"""
    for a, b in ((x, y),):
        lead = max(b.t.items(), key=lambda mc: tuple((z.id, e) for z, e in mc[0]))[1]
        return mul(const(1 / lead), a), mul(const(1 / lead), b)


def powi_(a, n):
    return powi(a, n)


def rat_equal(a, b):
    """equality of rational expressions by cross-multiplication"""
    if not any(q.op == "inv" for x in (a, b) for q in walk(x)):
        return False
    try:
        (x, d), (y, e) = rat(a), rat(b)
        if len(x.t) * len(e.t) > RAT_LIMIT or len(y.t) * len(d.t) > RAT_LIMIT:
            return False
        if mul(x, e) == mul(y, d):
            return True
        # powers of quotients that agree: pow(x, d, e) atoms on both sides
        A = [q for q in walk(x) if q.op == "pow" and len(q.args) == 3]
        B = [q for q in walk(y) if q.op == "pow" and len(q.args) == 3]
        m = {}
        for p in A:
            for q in B:
                if p is not q and p.args[2] == q.args[2] and mul(p.args[0], q.args[1]) == mul(q.args[0], p.args[1]):
                    m[p] = P(q)
                    break
        return bool(m) and mul(P(subst(x, m)), e) == mul(y, d)
    except TooBig:
        return False


def clear(p):
    """p times a monomial, without negative powers"""
    low = {}
    for mono in p.t:
        for a, e in mono:
            low[a] = min(low.get(a, 0), e)
    f = tuple(sorted(((a, -e) for a, e in low.items() if e < 0), key=lambda q: q[0].id))
    return mul(p, Poly({f: Fraction(1)})) if f else p


def divides(f, g):
    """g is a polynomial multiple of f (lexicographic division)"""
    def lex(p):
        return max(p.t, key=lambda m: tuple(dict(m).get(a, 0) for a in ats))
    ats = sorted({a for p in (f, g) for m in p.t for a, _ in m}, key=lambda a: a.id)
    lf = lex(f)
    cf = f.t[lf]
    for _ in range(200):
        if not g.t:
            return True
        lg = lex(g)
        d = dict(lg)
        for a, e in lf:
            d[a] = d.get(a, 0) - e
        if any(e < 0 for e in d.values()):
            return False
        q = Poly({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda z: z[0].id)): g.t[lg] / cf})
        g = sub(g, mul(q, f))
    return False


def modulo(a, b, facts):
    """a equals b when the given (real) expressions are zero"""
    try:
        (x, d), (y, e) = rat(a), rat(b)
        if len(x.t) * len(e.t) > RAT_LIMIT or len(y.t) * len(d.t) > RAT_LIMIT:
            return False
        g = sub(mul(x, e), mul(y, d))
        fs = [clear(rat(f)[0]) for f in facts]
    except TooBig:
        return False
    parts = {}
    for mono, c in g.t.items():
        cells = tuple((q, k) for q, k in mono if q.op in ("cell", "ksum", "redc"))
        rest = tuple((q, k) for q, k in mono if q.op not in ("cell", "ksum", "redc"))
        parts.setdefault(cells, {})[rest] = c
    if len(parts) > 300:
        return False
    for t in parts.values():
        p = clear(Poly(t))
        if not any(f.t and divides(f, p) for f in fs):
            return False
    return True


def bound(n):
    return contains(n, lambda q: q.op == "isym" and isinstance(q.args[0], str) and q.args[0][:1] in BOUND)


# ------------------------------------------------------------------ evaluation of normal forms
class Skip(Exception):
    """undefined at this point (division by zero, domain of a function)"""


def h01(*key):
    d = hashlib.md5(repr(key).encode()).digest()
    return int.from_bytes(d[:6], "big") / float(1 << 48)


class Undefined(Skip):
    """a power that is not a number"""


GRID = (-2.0, -1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.0)


class Num:
    """values of normal forms; positive: True for positive reals, False for any, None for a coarse grid with 0"""

    def __init__(self, pads, env, axes, seed, positive, reals=()):
        self.pads, self.env, self.axes, self.seed, self.positive = pads, env, axes, seed, positive
        self.reals = dict(reals)          # real symbols determined by the facts
        self.memo = {}
        self.peak = 0.0                   # largest inexact intermediate value

    def ax(self, p):
        return P(subst(p, self.axes)) if self.axes else p

    def real(self, *key):
        u = h01(self.seed, *key)
        if isinstance(self.positive, tuple):        # exact values of mixed size
            v = self.positive[1][int(u * 9973) % len(self.positive[1])]
            return -v if not self.positive[0] and h01(self.seed, "sign", *key) < 0.5 else v
        if self.positive is None:
            return GRID[int(u * len(GRID))]
        return 0.3 + 1.7 * u if self.positive else 4 * u - 2

    def val(self, p):
        if isinstance(p, (int, float, Fraction)):
            return float(p)
        if isinstance(p, Node):
            return self.atom(p)
        r = 0
        for mono, c in p.t.items():
            v = c
            for a, e in mono:
                x = self.atom(a)
                if isinstance(x, bool):
                    x = int(x)
                if e < 0 and x == 0:
                    raise Skip("division by zero")
                if isinstance(x, (int, Fraction)):
                    v = v * x ** e if e > 0 else v * Fraction(x) ** e if isinstance(self.positive, tuple) else float(v) * float(x) ** e
                else:
                    if isinstance(self.positive, tuple) and e < 0 and abs(x) < 1e-5:
                        raise Skip("inexact small divisor")
                    v = float(v) * float(x) ** e
            if isinstance(v, float):
                self.peak = max(self.peak, abs(v))
            r = r + v
        return r

    def int(self, p):
        v = self.val(p)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise Skip("fractional index")
            v = round(v)
        if isinstance(v, Fraction):
            if v.denominator != 1:
                raise Skip("fractional index")
        return int(v)

    def atom(self, n):
        if n in self.env:
            return self.env[n]
        if n in self.memo:
            return self.memo[n]
        f = getattr(self, "v_" + n.op, None)
        if f is None:
            raise NoEval(n.op)
        v = f(n)
        if isinstance(v, float) and (v != v or abs(v) > 1e150):
            raise Skip("not a number")
        if not contains(n, lambda q: q.op == "isym" and q.args[0][:1] in BOUND or q.op == "ivar"):
            self.memo[n] = v
        return v

    def cond(self, c):
        if isinstance(c, bool):
            return c
        if c in self.env:
            return bool(self.env[c])
        if c.op in ("ge0", "gt0", "eq0"):
            v = self.val(c.args[0])
            if isinstance(v, float) and abs(v) < 1e-12:
                v = 0
            return v >= 0 if c.op == "ge0" else v > 0 if c.op == "gt0" else v == 0
        if c.op == "not":
            return not self.cond(c.args[0])
        if c.op == "and":
            return all(self.cond(a) for a in c.args)
        if c.op == "or":
            return any(self.cond(a) for a in c.args)
        if c.op == "truthy" and len(c.args) == 1:
            return self.all_cells(c.args[0])
        raise NoEval("condition " + c.op)

    def all_cells(self, t):
        """truth of any() or all() of a mask of known rank: its cells one by one"""
        n = P(t).as_atom() if isinstance(t, (Poly, Node)) else None
        acc = getattr(self.pads, "acc", None)
        if n is None or n.op not in ("any", "all") or n.args[1] is not None or acc is None:
            raise NoEval("condition truthy")
        m = n.args[0]
        r = acc.m.rank_of(m).as_int()
        if r is None:
            raise NoEval("rank of a mask")
        dims = [self.int(acc.dim(m, const(i))) for i in range(r)]
        if math.prod(dims) > 64:
            raise Skip("large mask")
        vs = [N_("isym", f"γ{i}") for i in range(r)]
        ck = ("mask", m)
        bc = self.pads.__dict__.setdefault("bc", {})
        if ck not in bc:
            fs = []
            for i in range(r):
                fs += [ge0(P(vs[i])), gt0(sub(acc.dim(m, const(i)), P(vs[i])))]
            try:
                bc[ck] = acc.pred(m, acc.fit(m, {const(i - r): P(v) for i, v in enumerate(vs)}, fs), tuple(f for f in fs if f is not True))
            except (NoAccess, NeedSplit) as e:
                bc[ck] = e
        if isinstance(bc[ck], Exception):
            raise NoEval(f"mask: {bc[ck]}")
        from itertools import product
        vals = []
        for pos in product(*[range(d) for d in dims]):
            q = Num(self.pads, {**self.env, **dict(zip(vs, pos))}, self.axes, self.seed, self.positive, self.reals)
            for fs, c in bc[ck]:
                if all(q.cond(f) for f in fs):
                    vals.append(q.cond(c))
                    break
            else:
                raise Skip("outside the mask")
        return any(vals) if n.op == "any" else all(vals)

    # symbols
    def v_isym(self, n):
        raise NoEval("unassigned " + str(n.args[0]))

    def v_dim(self, n):
        m = N_("dim", n.args[0], self.ax(n.args[1]))
        if m in self.env:
            return self.env[m]
        raise NoEval("unassigned size")

    def v_sym(self, n):
        if n in self.reals:
            return self.val(self.reals[n])
        return self.real("sym", n.args[0])

    def v_fconst(self, n):
        return self.real("fconst", repr(n.args))

    def v_uninit(self, n):
        """memory nobody wrote: any value at all"""
        return self.real("uninit", show(n, 6)) + 12345

    def v_finfo(self, n):
        return 1e-3

    def v_elem(self, n):
        at = tuple(self.int(q) for q in n.args[1:])
        for k, v in self.reals.items():
            if k.op == "elem" and k.args[0] == n.args[0] and (k is n or tuple(self.int(q) for q in k.args[1:]) == at):
                return self.val(v)
        return self.real("elem", n.args[0], at)

    def v_cell(self, n):
        leaf, ent = n.args[0], n.args[1]
        pos = sorted((self.int(self.ax(a)), self.int(i)) for a, i in ent)
        if leaf.op == "padid":
            return self.padcell(leaf.args[0], n.args[1])
        if leaf.op in ("tin", "param"):
            name = leaf.args[0]
        elif leaf.op == "draw":
            name = (leaf.args[0], leaf.args[1], show(leaf.args[2], 4)) + tuple(round(float(self.val(x)), 9) for x in n.args[2:])
        else:
            raise NoEval("contents of " + leaf.op)
        return self.real("cell", name, tuple(pos))

    def padcell(self, i, ent):
        """documented extension of the padded tensor at a concrete index (C09)"""
        n, acc = self.pads.ent[i]
        pos = {self.int(self.ax(a)): self.int(q) for a, q in ent}
        axes = [self.int(self.ax(a)) for a in n.args[1]]
        key = ("pad", i, self.axkey(), tuple(sorted(pos.items())))
        if key in self.memo:
            return self.memo[key]
        v = self.memo[key] = self.pad(n, acc, axes, len(axes), pos)
        return v

    def axkey(self):
        return tuple(sorted((show(k), show(v)) for k, v in self.axes.items())) if self.axes else ()

    def base(self, n, acc, pos):
        r = acc.m.rank_of(n)
        rr = self.int(self.ax(r))
        g = {const(a - rr): const(q) for a, q in pos.items()}
        key = ("base", n, tuple(sorted(pos.items())))
        if key in self.memo:
            return self.memo[key]
        # symbolic axes are already fixed in the index; the tensor expression is read at concrete keys
        ck = ("basecell", n, tuple(sorted(pos)))
        sym = {const(a - rr): P(N_("isym", f"γ{j}")) for j, a in enumerate(sorted(pos))}
        keys = {}
        for a in sorted(pos):
            k = const(a - rr)
            for q in acc.tracked + [sub(x, r) for x in n.args[1]]:
                if self.int(self.ax(add(q, r))) == a:
                    k = q
                    break
            keys[k] = sym[const(a - rr)]
        if ck not in self.pads.__dict__.setdefault("bc", {}):
            fs = []
            for k, v in keys.items():
                fs += [ge0(v), gt0(sub(acc.dim(n.args[0], add(k, r)), v))]
            try:
                self.pads.bc[ck] = acc.cell(n.args[0], keys, tuple(f for f in fs if f is not True))
            except NoAccess as e:
                self.pads.bc[ck] = e
        ps = self.pads.bc[ck]
        if isinstance(ps, Exception):
            raise NoEval(f"contents of a padded tensor: {ps}")
        env = dict(self.env)
        for j, a in enumerate(sorted(pos)):
            env[N_("isym", f"γ{j}")] = pos[a]
        sub_ = Num(self.pads, env, self.axes, self.seed, self.positive, self.reals)
        for fs, v in ps:
            if all(sub_.cond(subst(f, self.axes) if self.axes else f) for f in fs):
                r = self.memo[key] = sub_.val(P(subst(v, self.axes)) if self.axes else v)
                return r
        raise Skip("outside the tensor")

    def pad(self, n, acc, axes, k, pos):
        if k == 0:
            return self.base(n, acc, pos)
        a = axes[k - 1]
        if a not in pos:
            raise NoEval("padded axis untracked")
        mode, par = n.args[3][k - 1], n.args[4][k - 1]
        L = self.int(self.ax(acc.dim(n.args[0], self.axsym(n, acc, a))))
        if L < 1:
            raise Skip("empty axis")
        i = pos[a]
        at = lambda j: self.pad(n, acc, axes, k - 1, {**pos, a: j})
        if 0 <= i < L:
            return at(i)
        if mode == "zeros":
            return 0.0
        if mode == "constant":
            return float(self.val(par[0 if i < 0 else 1]))
        if mode == "replicate":
            return at(0 if i < 0 else L - 1)
        if mode == "circular":
            return at(i % L)
        if mode == "periodize":
            j = i % (L + L % 2)
            return at(min(j, L - 1))
        if mode in ("symmetric", "antisymmetric"):
            j = i % (2 * L)
            v = at(j) if j < L else at(2 * L - 1 - j)
            return -v if mode[0] == "a" and j >= L else v
        if mode == "reflect":
            if L == 1:
                return at(0)
            j = i % (2 * L - 2)
            return at(j if j < L else 2 * L - 2 - j)
        raise NoEval("padding mode " + mode)

    def axsym(self, n, acc, a):
        r = acc.m.rank_of(n)
        for x in list(n.args[1]) + [add(q, r) for q in acc.tracked]:
            if self.int(self.ax(x)) == a:
                return x
        return const(a)

    # integer operations
    def v_min(self, n):
        return min(self.val(a) for a in n.args)

    def v_max(self, n):
        return max(self.val(a) for a in n.args)

    def v_floordiv(self, n):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if b == 0:
            raise Skip("division by zero")
        return math.floor(Fraction(a) / Fraction(b)) if not isinstance(a, float) and not isinstance(b, float) else math.floor(a / b)

    def v_mod(self, n):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if b == 0:
            raise Skip("division by zero")
        return a - b * (math.floor(Fraction(a) / Fraction(b)) if not isinstance(a, float) and not isinstance(b, float) else math.floor(a / b))

    def v_trunc(self, n):
        return math.trunc(self.val(n.args[0]))

    def v_ceil(self, n):
        return math.ceil(self.val(n.args[0]))

    def v_floor(self, n):
        return math.floor(self.val(n.args[0]))

    def v_inv(self, n):
        v = self.val(n.args[0])
        if v == 0:
            raise Skip("division by zero")
        return 1.0 / float(v)

    def v_div0(self, n):
        raise Undefined("division by zero")

    def v_phi(self, n):
        return self.val(n.args[1] if self.cond(n.args[0]) else n.args[2])

    def v_pow(self, n):
        a, b = float(self.val(n.args[0])), float(self.val(n.args[1]))
        if isinstance(n.args[0], Poly) and abs(a) < 1e-9 * sum(abs(float(self.val(Poly({q: c})))) for q, c in n.args[0].t.items()):
            a = 0.0          # what is left is rounding
        if a < 0 and b != int(b) or a == 0 and b < 0:
            raise Undefined("power")
        try:
            return a ** b
        except OverflowError:
            raise Skip("power")

    v_powc = v_pow

    def fn(self, name, x):
        if name == "abs":
            return abs(x)
        x = float(x)
        try:
            if name in ("exp", "sqrt", "log", "log10", "log2", "floor", "ceil", "sin", "cos", "tanh", "log1p", "expm1", "erf"):
                return float(getattr(math, name)(x))
            if name == "abs":
                return abs(x)
            if name == "sign":
                return float((x > 0) - (x < 0))
            if name == "relu":
                return max(x, 0.0)
            if name == "square":
                return x * x
            if name == "neg":
                return -x
            if name == "rsqrt":
                return 1 / math.sqrt(x)
            if name == "reciprocal":
                return 1 / x
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip(name)
        raise NoEval("function " + str(name))

    def v_math(self, n):
        if len(n.args) != 2:
            raise NoEval("math")
        return self.fn(n.args[0], self.val(n.args[1]))

    def v_fnc(self, n):
        k, a = n.args[0], n.args[1:]
        if k == "clamp":
            v = self.val(a[0])
            if a[1] is not None:
                v = max(v, self.val(a[1]))
            if a[2] is not None:
                v = min(v, self.val(a[2]))
            return v if isinstance(self.positive, tuple) else float(v)
        if k == "where":
            return self.val(a[1]) if self.truth(a[0]) else self.val(a[2])
        if k == "cmp":
            x, y = float(self.val(a[1])), float(self.val(a[2]))
            return int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[a[0]])
        if k == "boolop":
            p, q = self.truth(a[1]), self.truth(a[2])
            return int({"and": p and q, "or": p or q, "xor": p != q}[a[0]])
        if k == "not":
            return int(not self.truth(a[0]))
        if len(a) == 1:
            return self.fn(k, self.val(a[0]))
        raise NoEval("function " + str(k))

    def truth(self, p):
        return bool(self.val(p))

    def v_tab(self, n):
        return float(self.val(n.args[0][self.int(n.args[1])]))

    def v_ksum(self, n):
        ln, var, body = n.args
        r = 0.0
        k = self.int(ln)
        if k > 40:
            raise Skip("long sum")
        old = self.env.get(var)
        for i in range(k):
            self.env[var] = i
            r += float(self.val(body))
        self.unbind(var, old)
        return r

    def unbind(self, var, old):
        if old is None:
            self.env.pop(var, None)
        else:
            self.env[var] = old

    def v_redc(self, n):
        op, lens, body = n.args[:3]
        if lens and lens[0][0] == "all":
            raise NoEval("reduction over all axes")
        if op not in ("mean", "sum", "amax", "max", "amin", "min", "prod", "median", "var", "quantile"):
            raise NoEval("reduction " + op)
        vals = []
        olds = [self.env.get(v) for v, _ in lens]

        def go(i):
            if i == len(lens):
                vals.append(float(self.val(body)))
                if len(vals) > 500:
                    raise Skip("long reduction")
                return
            for q in range(self.int(lens[i][1])):
                self.env[lens[i][0]] = q
                go(i + 1)
        go(0)
        for (v, _), o in zip(lens, olds):
            self.unbind(v, o)
        if not vals and op == "sum":
            return 0.0
        if not vals:
            raise Skip("empty reduction")
        if op == "mean":
            return sum(vals) / len(vals)
        if op == "sum":
            return sum(vals)
        if op in ("amax", "max"):
            return max(vals)
        if op in ("amin", "min"):
            return min(vals)
        if op == "prod":
            return math.prod(vals)
        if op == "median":
            return sorted(vals)[(len(vals) - 1) // 2]
        if op == "var":
            k = len(vals) - (1 if len(n.args) > 3 and n.args[3] in (True, 1, ONE) else 0)
            if k <= 0:
                raise Skip("variance of one value")
            mu = sum(vals) / len(vals)
            return sum((v - mu) ** 2 for v in vals) / k
        if op == "quantile":
            q = float(self.val(n.args[3])) * (len(vals) - 1)
            vals.sort()
            how = n.args[4] if len(n.args) > 4 else "linear"
            if how != "linear":
                lo, hi = vals[math.floor(q)], vals[math.ceil(q)]
                if how in ("lower", "higher"):
                    return lo if how == "lower" else hi
                if how == "midpoint":
                    return (lo + hi) / 2
                if how == "nearest":
                    return vals[round(q)]
                raise NoEval(f"quantile {show(how)}")
            i = min(int(q), len(vals) - 2) if len(vals) > 1 else 0
            return vals[i] + (q - i) * (vals[i + 1] - vals[i]) if len(vals) > 1 else vals[0]
        raise NoEval("reduction " + op)


INTS = ("isym", "dim", "len", "imu", "rank", "ndslen")


def search(pads, facts, a, b, axsyms=(), tries=60, seed=1, maxint=6, found=None):
    """values of the symbols where a and b differ although all facts hold -> text, or None"""
    rnd = random.Random(seed)
    tested = 0
    noeval = None
    end = time.time() + 20
    for axes in assignments(axsyms, rnd):
        fs = [f for f in (subst(f, axes) if axes else f for f in facts) if f is not True]
        if any(f is False for f in fs):
            continue
        va, vb = (P(subst(x, axes)) if axes else x for x in (a, b))
        fs = pinch(fs)
        fs, va, vb, reals = solve_reals(fs, va, vb)
        if any(f is False for f in fs):
            continue
        extra = []
        for i in used_pads(pads, (va, vb)):
            node, acc = pads.ent[i]
            for x in node.args[2:]:
                for y in walk_polys(x):
                    extra.append(subst(y, axes))
            r = acc.m.rank_of(node)
            for x in list(node.args[1]) + [add(q, r) for q in acc.tracked]:
                extra.append(P(subst(acc.dim(node.args[0], x), axes)))
            extra += [P(q) for q in walk(node.args[0]) if q.op in INTS and q.op != "isym"]
        acc_ = getattr(pads, "acc", None)

        def masked(x):
            """sizes of the masks a condition quantifies over"""
            out = []
            for q in walk(x) if acc_ is not None else ():
                r_ = acc_.m.rank_of(q.args[0]).as_int() if q.op in ("any", "all") and len(q.args) > 1 and q.args[1] is None else None
                if r_ is not None:
                    out += [P(acc_.dim(q.args[0], const(i))) for i in range(r_)]
            return out
        for x in list(fs) + [va, vb]:
            extra += masked(x)
        syms = []
        for x in list(fs) + [va, vb] + extra:
            for n in walk(x):
                if n.op == "dim" and not (isinstance(n.args[0], Node) and n.args[0].op in ("tin", "param")):
                    raise NoEval("length of an intermediate result")
                if n.op == "len" and isinstance(n.args[0], Node) and n.args[0].op not in ("tin", "param", "sym", "isym", "elem"):
                    raise NoEval("length of an intermediate result")
                if n.op in INTS and n not in syms and not (n.op == "isym" and isinstance(n.args[0], str) and n.args[0][:1] in BOUND + ("γ",)):
                    syms.append(n)
        need = []
        for f in fs:
            need.append((f, {n for g in [f] + masked(f) for n in walk(g) if n in syms}))
        mixed = mixed_values(list(fs) + [va, vb])
        has_cases = any(n.op in ("cell", "sym", "elem") for f in fs for n in walk(f))
        exact = 0
        for t in range(2 * tries):
            if time.time() > end:
                break
            if t >= tries or tested >= 6:
                exact += 1
                pos = (exact % 3 > 0, mixed)
                if exact > 40:
                    break
            else:
                pos = (True, None, False, None)[t % 4] if has_cases else t % 2 == 0
            num = Num(pads, {}, axes, (seed, t), pos, reals)
            try:
                env = assign(syms, need, num, rnd, maxint)
            except NoEval as e:
                noeval = e
                break
            if env is None:
                continue
            try:
                num.memo.clear()
                num.peak = 0.0
                x, y = maybe(num, va), maybe(num, vb)
            except Skip:
                continue
            except NoEval as e:
                noeval = e
                break
            tested += 1
            if x != x and y != y:
                continue
            if x != x or y != y or abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y), num.peak if exact else 0):
                at = ", ".join(f"{show(s)}={num.env[s]}" for s in syms if s in num.env)
                if found is not None:
                    found.update({k: P(v) for k, v in axes.items()})
                    found.update({s: P(const(num.env[s])) for s in syms if s in num.env})
                ax = ", ".join(f"{show(k)}={show(v)}" for k, v in axes.items())
                return f"{x:.6g} instead of {y:.6g} at " + "; ".join(q for q in (ax, at) if q)
        if tested >= 6:
            break
    if noeval is not None and not tested:
        raise noeval
    return None


def mixed_values(vs):
    """exact values of different sizes, on both sides of the constants that conditions compare with"""
    base = [Fraction(1, 1000000007), Fraction(1, 1024), Fraction(1, 2), Fraction(5, 2), Fraction(37, 4), Fraction(1025), Fraction(10 ** 7 + 1, 2)]
    out = []
    for v in vs:
        for n in walk(v):
            if n.op in ("ge0", "gt0", "eq0"):
                p = n.args[0]
                cs = [abs(c) for m, c in p.t.items() if m == ()]
                ks = [abs(c) for m, c in p.t.items() if m != ()]
                out += [Fraction(c) / Fraction(k) for c in cs for k in ks[:2]]
            elif n.op in ("min", "max", "fnc"):
                for a in n.args:
                    if isinstance(a, Poly) and a.is_const and a.t:
                        out.append(abs(Fraction(next(iter(a.t.values())))))
    for c in list(dict.fromkeys(c for c in out if c))[:6]:
        base += [c, c * Fraction(7, 8), c * Fraction(9, 8), c * 100, c / 100]
    return base


def maybe(num, v):
    try:
        return float(num.val(v))
    except Undefined:
        return math.nan


def pinch(fs):
    """p >= 0 and p <= 0 say p = 0"""
    ge = {f.args[0] for f in fs if isinstance(f, Node) and f.op == "ge0"}
    return list(fs) + [eq0(p) for p in ge if neg(p) in ge]


def solve_reals(fs, va, vb):
    """equalities between real symbols are substituted, so that sampled values satisfy them"""
    reals = {}
    for _ in range(8):
        m = {}
        for f in fs:
            if isinstance(f, Node) and f.op == "eq0":
                p = f.args[0]
                for mono, c in sorted(p.t.items(), key=lambda q: repr(q)):
                    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op in ("sym", "elem") and not bound(mono[0][0]):
                        a = mono[0][0]
                        rest = mul(const(-1 / Fraction(c)), sub(p, mul(const(c), P(a))))
                        if not contains(rest, lambda q: q is a):
                            m = {a: rest}
                            break
            if m:
                break
        if not m:
            break
        fs = [g for g in (subst(g, m) for g in fs) if g is not True]
        va, vb = P(subst(va, m)), P(subst(vb, m))
        reals = {**{k: P(subst(v, m)) for k, v in reals.items()}, **m}
    return fs, va, vb, reals


def walk_polys(x):
    if isinstance(x, (Poly, Node)):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from walk_polys(y)


def used_pads(pads, vs):
    out, todo = [], list(vs)
    while todo:
        for n in walk(todo.pop()):
            if n.op == "padid" and n.args[0] not in out:
                out.append(n.args[0])
    return out


def assignments(axsyms, rnd):
    """axsyms: symbols of axes; the rank is fixed to 4 and axes to distinct values"""
    if not axsyms:
        yield {}
        return
    import itertools
    rank = N_("isym", "n")
    names = [a for a in axsyms if a is not rank]
    combos = list(itertools.permutations(range(4), len(names)))
    rnd.shuffle(combos)
    for c in combos[:24]:
        m = {a: const(v) for a, v in zip(names, c)}
        m[rank] = const(4)
        yield m


def assign(syms, need, num, rnd, maxint):
    env = num.env
    order = sorted(syms, key=lambda s: (s.op != "dim", -sum(s in q for _, q in need)))
    lo = {s: 1 if s.op == "dim" else 0 for s in order}
    budget = [3000]
    unknown = []

    def go(i):
        if budget[0] <= 0:
            return False
        if i == len(order):
            return True
        s = order[i]
        c = list(range(lo[s], maxint + 1))
        rnd.shuffle(c)
        if s.op == "dim":
            c += [maxint + 3, maxint + 6]
        if s.op == "isym":
            c += [maxint + 1, maxint + 2]
        for v in c:
            env[s] = v
            if okfor(s) and go(i + 1):
                return True
            del env[s]
        return False

    def okfor(s):
        for f, q in need:
            if s in q and all(x in env for x in q):
                budget[0] -= 1
                num.memo.clear()
                try:
                    if not num.cond(f):
                        return False
                except Skip:
                    return False
                except NoEval as e:
                    unknown.append(e)
        return True
    for f, q in need:
        if not q:
            num.memo.clear()
            try:
                if not num.cond(f):
                    return None
            except Skip:
                return None
            except NoEval as e:
                unknown.append(e)
    out = env if go(0) else None
    if out is not None and unknown:
        raise unknown[0]          # the assumptions of this case could not be confirmed for the sample
    return out
