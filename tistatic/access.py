"""Access relations: which input cells an output cell is computed from.

cell(t, idx) pushes a symbolic output index down the value graph of a tensor.  Slicing, flipping, padding,
unfolding, concatenation, transposition ... become affine index arithmetic; indexed assignments, conditionals
and concatenations become pieces guarded by linear inequalities; contractions become sums over a bound index.
The result is a list of pieces (facts, value) whose value is a polynomial over cells of the inputs, i.e. a
normal form that does not depend on which tensor operations were used to write the program."""
from itertools import product
from .terms import *
from .lin import entails, unsat
from . import lin


class NoAccess(Exception):
    """construct outside the access domain"""


class NeedSplit(NoAccess):
    """a condition has to be decided before the index arithmetic can go on"""

    def __init__(self, c, text):
        NoAccess.__init__(self, text)
        self.c = c


SCALARS = {"sym", "isym", "dim", "rank", "len", "math", "elem", "lit", "ivar", "imu", "floordiv", "mod", "ceil", "floor", "slen",
           "vsum", "vprod", "fconst", "numel", "ndslen", "item_", "finfo", "cell", "ksum", "redc", "fnc", "tab", "powc", "uninit", "casec",
           "rngc", "pcell", "slen"}
SAME = {"from_numpy", "numpy", "cast", "contig", "contiguous", "alias", "wview", "detach", "nograd"}
REDS = {"mean", "sum", "amax", "amin", "median", "prod", "std", "var", "norm", "quantile"}


class Access:
    sums = False    # means become sums, and sums over cases are split
    roll = 65     # sums of at least this many terms are kept as sums over a table of coefficients

    def __init__(self, ip, facts=(), leaf=None, limit=400):
        self.ip, self.m = ip, ip.m
        self.leaf = leaf or (lambda n: n.op in ("tin", "param"))
        self.limit = limit
        self.laws = {}
        self.depth = 0
        self.splits = 0
        self.checks = []      # ("read"/"range", facts, condition, text)
        self.base = tuple(f for f in facts if f is not True)

    # ------------------------------------------------------------ facts
    def rel(self, facts, goal=None):
        """facts relevant to the goal (sharing atoms transitively)"""
        if goal is None:
            return list(facts)
        at = catoms
        have = set(at(goal))
        fs = [(f, at(f)) for f in facts]
        out = []
        ch = True
        while ch:
            ch = False
            for f, s in list(fs):
                if s & have:
                    out.append(f)
                    have |= s
                    fs.remove((f, s))
                    ch = True
        return out

    def holds(self, facts, c):
        if isinstance(c, bool):
            return c
        fs = tuple(self.base) + tuple(facts)
        if c in fs:
            return True
        return entails(self.rel(fs, c), c)

    def feasible(self, facts, extra=None):
        fs = tuple(self.base) + tuple(facts)
        if any(f is False for f in fs):
            return False
        return not unsat(self.rel(fs, extra) + ([extra] if extra is not None and extra is not True else []))

    def split(self, facts, cs):
        """facts extended by conditions cs, or None when infeasible"""
        out = list(facts)
        for c in cs:
            if c is True:
                continue
            if c is False:
                return None
            if self.holds(out, c):
                continue
            if not self.feasible(out, c):
                return None
            out.append(c)
            if c.op == "not" and c.args[0].op == "eq0" and is_int(c.args[0].args[0]):
                p = c.args[0].args[0]
                for q in (p, neg(p)):
                    if self.holds(out, ge0(q)):
                        out.append(ge0(sub(q, ONE)))
        return tuple(out)

    def same(self, facts, a, b):
        d = sub(a, b)
        if d.is_const:
            return d.const == 0
        c = eq0(d)
        fs = tuple(self.base) + tuple(facts)
        if not_(c) in fs:
            return False
        if self.holds(facts, gt0(d)) or self.holds(facts, gt0(neg(d))):
            return False
        if self.holds(facts, c):
            return True
        raise NoAccess(f"cannot compare axes {show(a)} and {show(b)}")

    # ------------------------------------------------------------ index helpers
    def key(self, t, axis):
        return sub(axis, self.m.rank_of(t))

    def find(self, idx, k, facts):
        """tracked entry with (negative) axis key k"""
        for kk in idx:
            if kk == k:
                return kk
        for kk in idx:
            if self.same(facts, kk, k):
                return kk
        return None

    def dim(self, t, axis):
        return self.m.dim_of(t, axis)

    def norm_bound(self, facts, p, dim, what):
        """python slice bound -> offset from the start"""
        p = self.resolve(facts, p)
        k = p.as_int()
        if k is not None:
            return p if k >= 0 else add(dim, p)
        if self.holds(facts, ge0(p)):
            return p
        if self.holds(facts, gt0(neg(p))):
            return add(dim, p)
        raise NeedSplit(ge0(p), f"sign of slice bound {show(p)} unknown ({what})")

    def resolve(self, facts, p):
        """index expression without case distinctions"""
        for _ in range(40):
            for a in p.atoms():
                if a.op == "phi" and all(isinstance(v, Poly) for v in a.args[1:]):
                    c = a.args[0]
                    if self.holds(facts, c):
                        p = subst(p, {a: a.args[1]})
                        break
                    if self.holds(facts, not_(c)) or not self.feasible(facts, c):
                        p = subst(p, {a: a.args[2]})
                        break
                    raise NeedSplit(c, "case distinction in an index")
            else:
                return p
        return p

    # ------------------------------------------------------------ values
    def is_scalar(self, n):
        return n.op in SCALARS or n.op == "phi" and not self.m_is_tensor(n) or n.op in ("min", "max", "inv", "pow") and not self.m_is_tensor(n)

    def m_is_tensor(self, n):
        from .models import is_tensor_node
        return is_tensor_node(n)

    def cell(self, t, idx, facts=()):
        """pieces [(facts, value)] of tensor expression t at index idx {axis-rank: index}"""
        if isinstance(t, Node):
            return self.node(t, idx, facts)
        if not isinstance(t, Poly):
            return [(facts, const(t))]
        out = [(facts, ZERO)]
        cache = {}
        for mono, c in t.t.items():
            part = []
            for fs, acc in out:
                ps = [(fs, const(c))]
                for a, e in mono:
                    nx = []
                    for f2, v2 in ps:
                        if self.is_scalar(a):
                            nx.append((f2, mul(v2, powx(P(a), e))))
                            continue
                        kk = (a, f2)
                        if kk not in cache:
                            cache[kk] = self.node(a, idx, f2)
                        for f3, v3 in cache[kk]:
                            nx.append((f3, mul(v2, powx(v3, e))))
                    ps = nx
                for f2, v2 in ps:
                    part.append((f2, add(acc, v2)))
            out = part
            if len(out) > self.limit:
                raise NoAccess("too many cases")
        return out

    def node(self, n, idx, facts):
        if self.leaf(n):
            return [(facts, P(self.leafcell(n, idx)))]
        f = getattr(self, "n_" + n.op, None)
        if f is None:
            if n.op in SAME:
                return self.cell(n.args[0], idx, facts)
            if n.op in REDS:
                f = self.reduction
            elif self.is_scalar(n):
                return [(facts, P(n))]
            else:
                raise NoAccess(f"operation {n.op}")
        self.depth += 1
        if self.depth > 200:
            self.depth = 0
            raise NoAccess("nesting too deep")
        d0 = self.depth
        try:
            return f(n, idx, facts)
        except NeedSplit as e:
            self.depth = d0
            self.splits += 1
            if self.splits > 400:
                raise NoAccess(str(e))
            out = []
            for c in (e.c, not_(e.c)):
                fs = self.split(facts, conj(c))
                if fs is not None:
                    if fs == tuple(facts):
                        if self.holds(facts, c):
                            raise NoAccess(str(e))
                        fs = tuple(facts) + (c,)
                    out += self.node(n, idx, fs)
            return out
        finally:
            self.depth -= 1

    def leafcell(self, n, idx):
        r = self.m.rank_of(n)
        ent = []
        for k, v in idx.items():
            ki = k.as_int()
            ri = r.as_int()
            if ki is not None and ri is not None and -ki > ri:
                continue    # broadcast over a missing leading axis
            d = self.dim(n, add(k, r))
            ent.append((add(k, r), ZERO if d == ONE else v))
        ent.sort(key=lambda e: tuple(sorted(tuple((a.id, x) for a, x in m) for m in e[0].t if m)) + (e[0].const,))
        return N_("cell", n, tuple(ent))

    def n_phi(self, n, idx, facts):
        c, a, b = n.args
        out = []
        for cc, v in ((c, a), (not_(c), b)):
            fs = self.split(facts, conj(cc))
            if fs is not None:
                for f2 in self.none_of(cc, idx, fs):
                    out += self.cell(v, idx, f2)
        return out

    def none_of(self, c, idx, facts):
        """facts about this cell that follow from a condition on all cells of a mask"""
        cs = conj(c)
        out = [tuple(facts)]
        for x in cs:
            neg_ = isinstance(x, Node) and x.op == "not"
            y = x.args[0] if neg_ else x
            if not (isinstance(y, Node) and y.op == "truthy" and len(y.args) == 1):
                continue
            a = atom_of(y.args[0])
            if not (isinstance(a, Node) and a.op in ("any", "all") and a.args[1] is None):
                continue
            try:
                nx = []
                zero = self.m.rank_of(a.args[0]) == ZERO
                if not zero and neg_ != (a.op == "any"):
                    continue
                for fs in out:
                    for f2, p in self.pred(a.args[0], self.fit(a.args[0], self.shrink(a.args[0], idx), fs), fs):
                        p = not_(p) if neg_ and not isinstance(p, bool) else (not p) if neg_ else p
                        for part in cases_of(p) if p is not False else []:
                            f3 = self.split(f2, part)
                            if f3 is not None:
                                nx.append(f3)
                out = nx
            except NeedSplit:
                raise
            except NoAccess:
                pass
        return out

    def n_mu(self, n, idx, facts):
        if n in self.laws:
            return self.laws[n](idx, facts)
        return [(facts, P(self.leafcell(n, idx)))]

    def n_empty(self, n, idx, facts):
        return [(facts, P(N_("uninit", n)))]

    n_empty_like = n_empty

    def n_full(self, n, idx, facts):
        return self.cell(n.args[1], {}, facts)

    def n_full_like(self, n, idx, facts):
        return self.cell(n.args[1], {}, facts)

    def n_rng(self, n, idx, facts):
        return [(facts, P(self.leafcell(n, idx)))]

    n_rngl = n_rng

    def n_getitem(self, n, idx, facts):
        t, amap = n.args
        rt = self.m.rank_of(t)
        new = {}
        drop = [ax for ax, e in amap if e[0] == "i"]
        ins = [ax for ax, e in amap if e[0] == "n"]
        # base axis -> result axis: fewer axes by the dropped ones on its left, keys shift on the left side only
        rank_n = self.m.rank_of(n)
        if ins:
            return self.newaxis(n, idx, facts)
        shift_keys = {}
        for k, v in idx.items():
            ra = add(k, rank_n)         # axis in the result
            ba = ra
            for d in sorted(drop, key=lambda p: p.const):
                # the base axis is >= result axis; walk over dropped positions
                dd = sub(d, ba)
                if dd.is_const:
                    if dd.const <= 0:
                        ba = add(ba, ONE)
                elif self.holds(facts, ge0(neg(dd))):
                    ba = add(ba, ONE)
                elif not self.holds(facts, gt0(dd)):
                    raise NoAccess("cannot order axes")
            new[sub(ba, rt)] = v
        for ax, e in amap:
            k = sub(ax, rt)
            d = self.dim(t, ax)
            if e[0] == "i":
                new[k] = self.norm_bound(facts, e[1], d, "index")
            elif e[0] == "s":
                kk = self.find(new, k, facts)
                if kk is None:
                    if rt.as_int() is not None and rank_n == rt and k.as_int() is not None:
                        raise NoAccess(f"slice of untracked axis {show(ax)}")
                    raise NoAccess(f"slice of untracked axis {show(ax)}")
                _, a, b, c = e
                c = ONE if c is None else c
                ci = c.as_int()
                if ci is None and not self.holds(facts, gt0(c)):
                    raise NoAccess("slice step")
                if ci is not None and ci < 0:
                    if a is not None or b is not None:
                        raise NoAccess("negative step")
                    new[kk] = add(sub(d, ONE), mul(c, new[kk]))
                    continue
                lo = self.norm_bound(facts, ZERO if a is None else a, d, "start")
                ln = self.m.slice_len(e, d)
                if ln == ONE or ln.is_const and ln.const == 1:
                    new[kk] = lo
                else:
                    hi = d if b is None else self.norm_bound(facts, b, d, "stop")
                    self.checks.append(("range", facts, and_(ge0(sub(hi, lo)), ge0(sub(d, hi))), n))
                    new[kk] = add(lo, mul(c, new[kk]))
            elif e[0] == "l":
                kk = self.find(new, k, facts)
                if kk is None:
                    raise NoAccess("list index of untracked axis")
                j = new[kk].as_int()
                if j is None:
                    out = []
                    for q, p in enumerate(e[1]):
                        fs = self.split(facts, [eq0(sub(new[kk], const(q)))])
                        if fs is not None:
                            m2 = dict(new)
                            m2[kk] = self.norm_bound(facts, p, d, "list index")
                            out += self.cell(t, m2, fs)
                    return out
                new[kk] = self.norm_bound(facts, e[1][j], d, "list index")
        return self.cell(t, new, facts)

    def newaxis(self, n, idx, facts):
        t, amap = n.args
        if any(e[0] not in ("n", "s", "i") for _, e in amap) or any(e[0] != "n" for _, e in amap):
            raise NoAccess("mixed newaxis index")
        rt, rn = self.m.rank_of(t), self.m.rank_of(n)
        pos = sorted(((ax.as_int(), i) for i, (ax, e) in enumerate(amap)), key=lambda x: x[0] if x[0] is not None else -1)
        if any(p is None for p, _ in pos) or rt.as_int() is None:
            raise NoAccess("newaxis at symbolic position")
        # amap axes count base axes; several inserted before the same base axis keep order
        layout = []
        for b in range(rt.as_int() + 1):
            layout += ["n"] * sum(1 for p, _ in pos if p == b)
            if b < rt.as_int():
                layout.append(b)
        new = {}
        for k, v in idx.items():
            r = add(k, rn).as_int()
            if r is None or not 0 <= r < len(layout):
                raise NoAccess("newaxis with symbolic axis")
            if layout[r] != "n":
                new[const(layout[r] - rt.as_int())] = v
        return self.cell(t, new, facts)

    def region(self, t, amap, idx, facts):
        """[(key, lo, hi, step, kind)] of an indexed assignment"""
        rt = self.m.rank_of(t)
        out = []
        for ax, e in amap:
            kk = self.find(idx, sub(ax, rt), facts)
            if kk is None:
                raise NoAccess(f"assignment restricted on untracked axis {show(ax)}")
            d = self.dim(t, ax)
            if e[0] == "i":
                lo = self.norm_bound(facts, e[1], d, "index")
                out.append((kk, lo, add(lo, ONE), ONE, "i"))
            elif e[0] == "s":
                _, a, b, c = e
                c = ONE if c is None else c
                lo = self.norm_bound(facts, ZERO if a is None else a, d, "start")
                hi = d if b is None else self.norm_bound(facts, b, d, "stop")
                out.append((kk, lo, hi, c, "s"))
            else:
                raise NoAccess("assignment through index " + e[0])
        return out

    def n_store(self, n, idx, facts):
        t, amap, v = n.args
        if not isinstance(amap, tuple):
            raise NoAccess("assignment through a mask")
        reg = self.region(t, amap, idx, facts)
        out = []
        inside = []
        new = dict(idx)
        drop = []
        for kk, lo, hi, c, kind in reg:
            j = idx[kk]
            ins = [ge0(sub(j, lo)), gt0(sub(hi, j))]
            ci = c.as_int()
            if ci is None:
                raise NoAccess("assignment step")
            if ci != 1:
                md = mod(sub(j, lo), c)
                if not md.is_const:
                    z = eq0(md)
                    if self.holds(facts, z):
                        pass
                    elif self.holds(facts, not_(z)):
                        ins = [False]
                    else:
                        raise NeedSplit(z, "assignment with step")
                elif md.const:
                    ins = [False]
            inside += ins
            if kind == "i":
                drop.append(kk)
            else:
                d = sub(hi, lo)
                new[kk] = ZERO if d == ONE else div_exact(sub(j, lo), ci)
        fs = self.split(facts, inside)
        if fs is not None:
            vidx = new
            if drop:
                vidx = {}
                for k, x in new.items():
                    if k in drop:
                        continue
                    s = k
                    for dk in drop:
                        dd = sub(dk, k)
                        if dd.is_const and dd.const > 0 or not dd.is_const and self.holds(facts, gt0(dd)):
                            s = add(s, ONE)
                    vidx[s] = x
            out += self.cell(v, self.fit(v, vidx, fs), fs)
        acc = facts
        for c in inside:
            if c is True:
                continue
            f2 = self.split(acc, [not_(c)] if not isinstance(c, bool) else [not c])
            if f2 is not None:
                out += self.cell(t, idx, f2)
            if c is False:
                break
            acc2 = self.split(acc, [c])
            if acc2 is None:
                break
            acc = acc2
        return out

    def fit(self, v, idx, facts):
        """drop entries of axes that v does not have (right aligned broadcasting)"""
        if isinstance(v, (int, float)):
            return {}
        r = self.m.rank_of(v)
        if r == ZERO:
            return {}
        out = {}
        for k, x in idx.items():
            a = add(k, r)
            if a.is_const and a.const < 0:
                continue
            out[k] = x
        return out

    def n_flip(self, n, idx, facts):
        t, axes = n.args
        r = self.m.rank_of(t)
        new = dict(idx)
        for a in (axes if isinstance(axes, tuple) else (axes,)):
            a = P(a)
            if a.as_int() is not None and a.as_int() < 0:
                a = add(r, a)
            kk = self.find(new, sub(a, r), facts)
            if kk is None:
                raise NoAccess("flip of untracked axis")
            new[kk] = sub(sub(self.dim(t, a), ONE), new[kk])
        return self.cell(t, new, facts)

    def n_unfold(self, n, idx, facts):
        t, axis, size, step = n.args
        r = self.m.rank_of(t)
        new = {}
        tap = None
        for k, v in idx.items():
            if k == const(-1):
                tap = v
            else:
                new[add(k, ONE)] = v
        if tap is None:
            raise NoAccess("window axis untracked")
        kk = self.find(new, sub(axis, r), facts)
        if kk is None:
            raise NoAccess("unfold of untracked axis")
        new[kk] = add(mul(step, new[kk]), tap)
        return self.cell(t, new, facts)

    def n_matmul(self, n, idx, facts):
        a, b = n.args
        if self.m.rank_of(b) != ONE:
            raise NoAccess("matrix product")
        ra = self.m.rank_of(a)
        ln = self.dim(a, sub(ra, ONE))
        lb = self.dim(b, ZERO)
        new = {sub(k, ONE): v for k, v in idx.items()}
        k = lb.as_int() if lb.as_int() is not None else ln.as_int()
        if k is not None and k >= self.roll:
            tab = []
            for i in range(k):
                c = self.cell(b, {const(-1): const(i)}, facts)
                if len(c) != 1 or any(q.op in ("cell", "ksum", "redc") for q in walk(c[0][1])):
                    tab = None
                    break
                tab.append(c[0][1])
            if tab is not None:
                var = N_("isym", f"tap{self.depth}")
                new[const(-1)] = P(var)
                wt = tab[0] if all(v == tab[0] for v in tab) else P(N_("tab", tuple(tab), P(var)))
                fs = tuple(facts) + (ge0(P(var)), gt0(sub(const(k), P(var))))
                out = [(f2, mul(va, wt)) for f2, va in self.cell(a, new, fs)]
                return [(f2, ksum(const(k), var, v)) for f2, v in self.uniform(out, fs, facts, [var])]
        if k is not None and k <= 64:
            out = [(facts, ZERO)]
            for i in range(k):
                nx = []
                for fs, acc in out:
                    for f2, bv in self.cell(b, {const(-1): const(i)}, fs):
                        if bv == ZERO:
                            nx.append((f2, acc))
                            continue
                        new[const(-1)] = const(i)
                        for f3, av in self.cell(a, new, f2):
                            nx.append((f3, add(acc, mul(av, bv))))
                out = nx
                if len(out) > self.limit:
                    raise NoAccess("too many cases")
            return out
        ln = lb
        var = N_("isym", f"tap{self.depth}")
        new[const(-1)] = P(var)
        fs = tuple(facts) + (ge0(P(var)), gt0(sub(ln, P(var))))
        out = []
        for f1, vb in self.cell(b, {const(-1): P(var)}, fs):
            for f2, va in self.cell(a, new, f1):
                out.append((f2, mul(va, vb)))
        return [(f2, ksum(ln, var, v)) for f2, v in self.uniform(out, fs, facts, [var])]

    def n_tensor(self, n, idx, facts):
        data = n.args[0]
        if isinstance(data, (Poly, int, float)):
            return self.cell(data, {}, facts) if not isinstance(data, Poly) else [(facts, data)]
        if isinstance(data, Fraction):
            return [(facts, const(data))]
        r = self.m.rank_of(n)
        if isinstance(data, tuple):
            keys = sorted((k for k in idx), key=lambda k: k.const)
            cur = data
            depth = 0
            x = data
            while isinstance(x, tuple):
                depth += 1
                x = x[0] if x else None
            for q in range(depth):
                k = const(q - depth)
                j = idx.get(k)
                if j is None:
                    raise NoAccess("table axis untracked")
                ji = j.as_int()
                if len(cur) == 1:
                    ji = 0
                if ji is None:
                    out = []
                    for c in range(len(cur)):
                        fs = self.split(facts, [eq0(sub(j, const(c)))])
                        if fs is not None:
                            m2 = dict(idx)
                            m2[k] = const(c)
                            out += self.n_tensor(n, m2, fs)
                    return out
                if not 0 <= ji < len(cur):
                    raise NoAccess("table index")
                cur = cur[ji]
            return [(facts, P(cur) if isinstance(cur, (Node, Poly)) else const(cur))]
        if isinstance(data, Node) and data.op == "vec":
            return self.n_vec(data, idx, facts)
        raise NoAccess("tensor of " + (data.op if isinstance(data, Node) else type(data).__name__))

    def n_vec(self, n, idx, facts):
        ln, var, el, over = n.args
        j = idx.get(const(-1))
        if j is None:
            raise NoAccess("sequence axis untracked")
        for p, v in reversed(over):
            if self.same(facts, p, j):
                return [(facts, P(v))]
        v = subst(el, {var: j})
        if not isinstance(v, (Poly, Node, int, float, Fraction)):
            raise NoAccess("sequence of non-numbers")
        return [(facts, P(v))]

    def n_linspace(self, n, idx, facts):
        a, b, steps = n.args[:3]
        j = idx.get(const(-1))
        if j is None:
            raise NoAccess("linspace axis untracked")
        return [(facts, add(P(a), div(mul(sub(P(b), P(a)), j), sub(P(steps), ONE))))]

    def n_arange(self, n, idx, facts):
        a, b, c = n.args[:3]
        j = idx.get(const(-1))
        if j is None:
            raise NoAccess("arange axis untracked")
        return [(facts, add(P(a), mul(P(c), j)))]

    def n_view(self, n, idx, facts):
        t, sh = n.args[:2]
        rt, rn = self.m.rank_of(t), self.m.rank_of(n)
        if isinstance(sh, Node) and sh.op == "vec" and rt == ONE:
            ln, var, el, over = sh.args
            if P(el) == ONE and len(over) == 1 and isinstance(over[0][1], (int, Poly)) and P(over[0][1]) == const(-1):
                k = sub(over[0][0], rn)
                kk = self.find(idx, k, facts)
                if kk is None:
                    raise NoAccess("view axis untracked")
                return self.cell(t, {const(-1): idx[kk]}, facts)
        if isinstance(sh, tuple) and rt.as_int() is not None:
            # only unit axes added or removed
            src = [self.dim(t, const(i)) for i in range(rt.as_int())]
            s2 = [i for i, d in enumerate(src) if d != ONE]
            dst = [P(x) for x in sh]
            d2 = [i for i, d in enumerate(dst) if d != ONE]
            if len(s2) == len(d2) and all(src[i] == dst[j] or dst[j] == const(-1) for i, j in zip(s2, d2)):
                new = {}
                for i, j in zip(s2, d2):
                    v = idx.get(const(j - len(dst)))
                    if v is None:
                        raise NoAccess("view axis untracked")
                    new[const(i - len(src))] = v
                for i, d in enumerate(src):
                    if d == ONE:
                        new[const(i - len(src))] = ZERO
                return self.cell(t, new, facts)
        if rt.as_int() is not None and rn.as_int() is not None:
            return self.reindex(n, t, rt.as_int(), rn.as_int(), idx, facts)
        raise NoAccess("view")

    def reindex(self, n, t, rt, rn, idx, facts):
        """row-major position of the result split into the axes of the operand, by groups of axes of equal volume"""
        ends_n = self.volumes([self.dim(n, const(q)) for q in range(rn)])
        ends_t = self.volumes([self.dim(t, const(q)) for q in range(rt)])
        new = {}
        hn = ht = 0                                     # axes consumed from the right
        while hn < rn or ht < rt:
            a, b = hn, ht
            best = None
            for x in range(hn + 1 if hn < rn else hn, rn + 1):
                for y in range(ht + 1 if ht < rt else ht, rt + 1):
                    if ends_n[x] == ends_t[y]:
                        best = (x, y)
                        break
                if best:
                    break
            if best is None:
                raise NoAccess("view")
            hn, ht = best
            flat, stride = ZERO, ONE
            for q in range(a, hn):
                k = const(-1 - q)
                d = self.dim(n, const(rn - 1 - q))
                if d != ONE:
                    if k not in idx:
                        raise NoAccess("view axis untracked")
                    flat = add(flat, mul(stride, idx[k]))
                stride = mul(stride, d)
            real = [q for q in range(b, ht) if self.dim(t, const(rt - 1 - q)) != ONE]
            for q in range(b, ht):
                new[const(-1 - q)] = ZERO
            if len(real) == 1:
                new[const(-1 - real[0])] = flat
                continue
            flat = self.resolve(facts, flat)
            strides, st = {}, ONE
            for q in range(b, ht):
                strides[q] = st
                st = mul(st, self.dim(t, const(rt - 1 - q)))
            rest = flat
            for q in reversed(real):
                d = self.dim(t, const(rt - 1 - q))
                if strides[q] == ONE:
                    v, rest = rest, ZERO
                else:
                    v, rest = quotient(rest, strides[q])
                if not self.holds(facts, ge0(v)) or not self.holds(facts, gt0(sub(d, v))):
                    raise NoAccess("view")
                new[const(-1 - q)] = v
        return self.cell(t, new, facts)

    @staticmethod
    def volumes(dims):
        out = [ONE]
        for d in reversed(dims):
            out.append(mul(out[-1], d))
        return out

    n_reshape = n_view

    def n_unsqueeze(self, n, idx, facts):
        t, ax = n.args
        rn = self.m.rank_of(n)
        new = {}
        k0 = sub(P(ax), rn)
        for k, v in idx.items():
            d = sub(k, k0)
            if not d.is_const:
                raise NoAccess("unsqueeze at symbolic position")
            if d.const == 0:
                continue
            new[add(k, ONE) if d.const < 0 else k] = v
        return self.cell(t, new, facts)

    def n_squeeze(self, n, idx, facts):
        t = n.args[0]
        ax = n.args[1] if len(n.args) > 1 else None
        if ax is None or isinstance(ax, tuple) and len(ax) != 1:
            raise NoAccess("squeeze")
        ax = P(ax[0] if isinstance(ax, tuple) else ax)
        rt = self.m.rank_of(t)
        if ax.as_int() is not None and ax.as_int() < 0:
            ax = add(ax, rt)
        k0 = sub(ax, rt)
        new = {k0: ZERO}
        for k, v in idx.items():
            d = sub(k, k0)
            if not d.is_const:
                raise NoAccess("squeeze at symbolic position")
            new[sub(k, ONE) if d.const <= 0 else k] = v
        return self.cell(t, new, facts)

    def n_permute(self, n, idx, facts):
        t, perm = n.args[:2]
        if not isinstance(perm, tuple) or any(P(p).as_int() is None for p in perm):
            raise NoAccess("permute")
        r = len(perm)
        new = {}
        for k, v in idx.items():
            q = add(k, const(r)).as_int()
            if q is None:
                raise NoAccess("permute with symbolic axis")
            new[const(P(perm[q]).as_int() % r - r)] = v
        return self.cell(t, new, facts)

    def n_transpose(self, n, idx, facts):
        t, a, b = n.args[:3]
        r = self.m.rank_of(t)
        nrm = lambda p: sub(add(P(p), r) if P(p).as_int() is not None and P(p).as_int() < 0 else P(p), r)
        ka, kb = nrm(a), nrm(b)
        new = {}
        for k, v in idx.items():
            if self.same(facts, k, ka):
                new[kb] = v
            elif self.same(facts, k, kb):
                new[ka] = v
            else:
                new[k] = v
        return self.cell(t, new, facts)

    n_swapaxes = n_transpose

    def n_cat(self, n, idx, facts):
        ts, ax = n.args[:2]
        if not isinstance(ts, tuple):
            raise NoAccess("concatenation of unknown parts")
        r = self.m.rank_of(ts[0])
        a = P(ax)
        if a.as_int() is not None and a.as_int() < 0:
            a = add(a, r)
        kk = self.find(idx, sub(a, r), facts)
        if kk is None:
            raise NoAccess("concatenation axis untracked")
        out = []
        off = ZERO
        for t in ts:
            d = self.dim(t, a)
            fs = self.split(facts, [ge0(sub(idx[kk], off)), gt0(sub(add(off, d), idx[kk]))])
            if fs is not None:
                new = dict(idx)
                new[kk] = sub(idx[kk], off)
                out += self.cell(t, new, fs)
            off = add(off, d)
        return out

    def n_stack(self, n, idx, facts):
        ts, ax = n.args[:2]
        if not isinstance(ts, tuple):
            raise NoAccess("stack of unknown parts")
        rn = self.m.rank_of(n)
        a = P(ax)
        if a.as_int() is not None and a.as_int() < 0:
            a = add(a, rn)
        kk = self.find(idx, sub(a, rn), facts)
        if kk is None:
            raise NoAccess("stack axis untracked")
        new = {}
        for k, v in idx.items():
            if k == kk:
                continue
            d = sub(k, kk)
            if not d.is_const:
                raise NoAccess("stack at symbolic position")
            new[add(k, ONE) if d.const < 0 else k] = v
        out = []
        for i, t in enumerate(ts):
            fs = self.split(facts, [eq0(sub(idx[kk], const(i)))])
            if fs is not None:
                out += self.cell(t, new, fs)
        return out

    def n_expand(self, n, idx, facts):
        t = n.args[0]
        r = self.m.rank_of(t)
        new = {}
        for k, v in idx.items():
            a = add(k, r)
            if a.is_const and a.const < 0:
                continue
            new[k] = ZERO if self.dim(t, a) == ONE else v
        return self.cell(t, new, facts)

    n_bcast = n_expand


    def n_roll(self, n, idx, facts):
        t, sh, dims = n.args[:3]
        shs = sh if isinstance(sh, tuple) else (sh,)
        r = self.m.rank_of(t)
        if dims is None and r == ONE:
            dims = (ZERO,)
        if not isinstance(dims, tuple) or len(dims) != len(shs) or not all(isinstance(v, Poly) for v in shs):
            raise NoAccess("roll")
        new = dict(idx)
        for a, s in zip(dims, shs):
            a = P(a)
            kk = self.find(new, sub(a, r), facts)
            if kk is None:
                raise NoAccess("roll of untracked axis")
            d = self.dim(t, a)
            j = sub(new[kk], s)
            if s.as_int() is not None and s.as_int() < 0 and self.holds(facts, ge0(add(d, s))):
                j = sub(j, d)
                s = add(s, d)
            if self.holds(facts, ge0(s)) and self.holds(facts, ge0(sub(d, s))):
                if self.holds(facts, gt0(neg(j))):
                    j = add(j, d)
                elif not self.holds(facts, ge0(j)):
                    raise NeedSplit(ge0(j), "rolled index")
            else:
                j = mod(j, d)
            new[kk] = j
        return self.cell(t, new, facts)

    def n_movedim(self, n, idx, facts):
        t = n.args[0]
        r = self.m.rank_of(n)
        new = {}
        for k, v in idx.items():
            j = self.m.moved(n.args[1], n.args[2], add(k, r))
            if j is None:
                raise NoAccess("movedim")
            new[sub(j, r)] = v
        return self.cell(t, new, facts)

    def n_index_select(self, n, idx, facts):
        t, dims, ix = n.args[:3]
        if not isinstance(dims, tuple) or len(dims) != 1 or not isinstance(ix, (Poly, Node)):
            raise NoAccess("index_select")
        kk = self.find(idx, sub(P(dims[0]), self.m.rank_of(t)), facts)
        if kk is None:
            raise NoAccess("selected axis untracked")
        out = []
        for f, v in self.cell(ix, {const(-1): idx[kk]}, facts):
            new = dict(idx)
            new[kk] = v
            out += self.cell(t, new, f)
        return out

    def n_repeat(self, n, idx, facts):
        t, reps = n.args[:2]
        r = self.m.rank_of(t).as_int()
        if r is None or not isinstance(reps, tuple):
            raise NoAccess("repeat")
        new = {}
        for k, v in idx.items():
            q = k.as_int()
            if q is None:
                raise NoAccess("repeat with symbolic axis")
            if -q > r:
                continue
            d = self.dim(t, const(r + q))
            rep = P(reps[q])
            new[k] = v if rep == ONE else ZERO if d == ONE else mod(v, d)
        return self.cell(t, new, facts)

    def n_fpad(self, n, idx, facts):
        t, pad, mode, val = n.args[:4]
        if not isinstance(pad, tuple) or len(pad) % 2 or not all(isinstance(v, Poly) for v in pad):
            raise NoAccess("pad")
        if mode not in ("constant", "replicate", "reflect", "circular"):
            raise NoAccess("pad mode")
        r = self.m.rank_of(t)
        fill = val if isinstance(val, Poly) else ZERO
        out = []
        pieces = [(facts, dict(idx))]
        for q in range(len(pad) // 2):
            kk = self.find(idx, const(-1 - q), facts)
            if kk is None:
                raise NoAccess("padded axis untracked")
            d = self.dim(t, add(const(-1 - q), r))
            nx = []
            for fs, m in pieces:
                j = sub(m[kk], pad[2 * q])
                low = {"replicate": ZERO, "reflect": neg(j), "circular": add(j, d)}.get(mode)
                high = {"replicate": sub(d, ONE), "reflect": sub(sub(mul(const(2), d), const(2)), j), "circular": sub(j, d)}.get(mode)
                for conds, v in (([gt0(neg(j))], low), ([ge0(j), gt0(sub(d, j))], j), ([ge0(sub(j, d))], high)):
                    f2 = self.split(fs, conds)
                    if f2 is None:
                        continue
                    if v is None:
                        out.append((f2, fill))
                        continue
                    m2 = dict(m)
                    m2[kk] = v
                    nx.append((f2, m2))
            pieces = nx
        for fs, m in pieces:
            out += self.cell(t, m, fs)
        return out

    def n_carr(self, n, idx, facts):
        shape, data = n.args[:2]
        out = [(facts, 0)]
        for q, d in enumerate(shape):
            j = idx.get(const(q - len(shape)))
            if j is None:
                raise NoAccess("table axis untracked")
            nx = []
            for fs, off in out:
                if d == 1:
                    nx.append((fs, off * d))
                    continue
                if j.as_int() is not None:
                    if not 0 <= j.as_int() < d:
                        raise NoAccess("table index")
                    nx.append((fs, off * d + j.as_int()))
                    continue
                for c in range(d):
                    f2 = self.split(fs, [eq0(sub(j, const(c)))])
                    if f2 is not None:
                        nx.append((f2, off * d + c))
            out = nx
        return [(fs, data[o] if isinstance(data[o], Poly) else P(data[o]) if isinstance(data[o], Node) else const(data[o])) for fs, o in out]

    def n_conv2d(self, n, idx, facts, nd=2):
        t, w, b, (st, pd, dl, gr) = n.args
        two = lambda v: v if isinstance(v, tuple) else (v,) * nd
        st, pd, dl = two(st), two(pd), two(dl)
        if any(not isinstance(v, Poly) or v != ZERO for v in pd) or any(not isinstance(v, Poly) for v in dl) or gr != ONE:
            raise NoAccess("convolution parameters")
        r = nd + 2
        sd = [self.dim(w, const(i)) for i in range(r)]
        sh = [d.as_int() for d in sd]
        o = idx.get(const(-nd - 1))
        if o is None or any(const(-i) not in idx for i in range(1, nd + 1)):
            raise NoAccess("convolution axis untracked")
        if sh[0] == 1:
            o = ZERO
        out = [(facts, ZERO)]
        if b is not None:
            out = self.cell(b, {const(-1): o}, facts)
        size = 1
        for s in sh[1:]:
            size *= s or 1
        if size > 256:
            raise NoAccess("convolution of unknown size")
        bnd = [(N_("isym", f"tap{self.depth}.{i}"), sd[i]) for i in range(1, r) if sh[i] is None]
        fs0 = tuple(facts)
        for v, ln in bnd:
            fs0 += (ge0(P(v)), gt0(sub(ln, P(v))))
        for tap in product(*[range(s) if s is not None else (None,) for s in sh[1:]]):
            it = iter(bnd)
            tap = [const(q) if q is not None else P(next(it)[0]) for q in tap]
            new = dict(idx)
            new[const(-nd - 1)] = tap[0]
            for i in range(nd):
                new[const(i - nd)] = add(mul(st[i], idx[const(i - nd)]), mul(dl[i], tap[i + 1]))
            wi = {const(-r): o}
            for i in range(r - 1):
                wi[const(i + 1 - r)] = tap[i]
            nx = []
            for fs, acc in out:
                if bnd:
                    ps = [(f3, mul(wv, xv)) for f2, wv in self.cell(w, wi, fs + fs0[len(facts):]) for f3, xv in self.cell(t, new, f2)]
                    for f3, v in self.uniform(ps, fs + fs0[len(facts):], fs, [v for v, _ in bnd]):
                        for var, ln in bnd:
                            v = ksum(ln, var, v)
                        nx.append((f3, add(acc, v)))
                    continue
                for f2, wv in self.cell(w, wi, fs):
                    if wv == ZERO:
                        nx.append((f2, acc))
                        continue
                    for f3, xv in self.cell(t, new, f2):
                        nx.append((f3, add(acc, mul(wv, xv))))
            out = nx
            if len(out) > self.limit:
                raise NoAccess("too many cases")
        return out

    def n_conv1d(self, n, idx, facts):
        return self.n_conv2d(n, idx, facts, 1)

    def n_reflection_pad2d(self, n, idx, facts):
        t, l, r_, tp, b = n.args[:5]
        r = self.m.rank_of(t)
        pieces = [(facts, dict(idx))]
        for q, lo in ((const(-1), l), (const(-2), tp)):
            kk = self.find(idx, q, facts)
            if kk is None:
                raise NoAccess("padded axis untracked")
            d = self.dim(t, add(q, r))
            nx = []
            for fs, m in pieces:
                j = sub(m[kk], P(lo))
                for conds, v in (([ge0(neg(j)), not_(eq0(j))], neg(j)), ([ge0(j), gt0(sub(d, j))], j),
                                 ([ge0(sub(j, d))], sub(sub(mul(const(2), d), const(2)), j))):
                    f2 = self.split(fs, conds)
                    if f2 is not None:
                        m2 = dict(m)
                        m2[kk] = v
                        nx.append((f2, m2))
            pieces = nx
        out = []
        for fs, m in pieces:
            out += self.cell(t, m, fs)
        return out

    def n_clamp(self, n, idx, facts):
        return [(f, P(N_("fnc", "clamp", v, n.args[1], n.args[2]))) for f, v in self.cell(n.args[0], idx, facts)]

    def n_fn1(self, n, idx, facts):
        return [(f, P(N_("fnc", n.args[1], v, *n.args[2:]))) for f, v in self.cell(n.args[0], idx, facts)]

    def n_pow(self, n, idx, facts):
        out = []
        for f, v in self.cell(n.args[0], idx, facts):
            for f2, e in self.cell(n.args[1], idx, f):
                out.append((f2, pow_(v, e)))
        return out

    def n_inv(self, n, idx, facts):
        return [(f, div(ONE, v)) for f, v in self.cell(n.args[0], idx, facts)]

    def n_where(self, n, idx, facts):
        c, a, b = n.args[:3]
        out = []
        if not any(contains(v, lambda q: q.op == "isym" and isinstance(q.args[0], str) and q.args[0][:3] in ("tap", "red")) for v in idx.values()):
            try:
                ps = self.pred(atom_of(c), self.fit(c, idx, facts), facts)
                return self.choose(ps, lambda fs: self.cell(a, self.fit(a, idx, fs), fs), lambda fs: self.cell(b, self.fit(b, idx, fs), fs))
            except NeedSplit:
                raise
            except NoAccess:
                pass
        for f, x in self.cell(a, idx, facts):
            for f2, y in self.cell(b, idx, f):
                for f3, q in self.cell(c, idx, f2):
                    out.append((f3, P(N_("fnc", "where", q, x, y))))
        return out

    def n_cmp(self, n, idx, facts):
        if not any(contains(v, lambda q: q.op == "isym" and isinstance(q.args[0], str) and q.args[0][:3] in ("tap", "red")) for v in idx.values()):
            return self.choose(self.pred(n, idx, facts), lambda fs: [(fs, ONE)], lambda fs: [(fs, ZERO)])
        out = [(facts, [])]
        for x in n.args[1:]:
            out = [(f2, vs + [v]) for f, vs in out for f2, v in (self.cell(x, idx, f) if isinstance(x, (Poly, Node)) else [(f, P(x))])]
        return [(f, P(N_("fnc", "cmp", n.args[0], *vs))) for f, vs in out]

    # ------------------------------------------------------------ masks
    def pred(self, m, idx, facts):
        """pieces [(facts, condition)] of a boolean tensor at an index"""
        if isinstance(m, Poly) and m.as_atom() is not None:
            m = m.as_atom()
        if isinstance(m, Node):
            if m.op == "cmp":
                out = []
                for f, x in self.cell(m.args[1], self.fit(m.args[1], idx, facts), facts):
                    for f2, y in self.cell(m.args[2], self.fit(m.args[2], idx, f), f) if isinstance(m.args[2], (Poly, Node)) else [(f, P(m.args[2]))]:
                        c = abs_cmp(m.args[0], x, y)
                        if c is not None:
                            out.append((f2, c))
                            continue
                        d = sub(y, x)
                        c = {"<": lambda: gt0(d), "<=": lambda: ge0(d), ">": lambda: gt0(neg(d)), ">=": lambda: ge0(neg(d)),
                             "==": lambda: eq0(d), "!=": lambda: not_(eq0(d))}[m.args[0]]()
                        out.append((f2, c))
                return out
            if m.op in ("tbin", "boolop") and m.args[0] in ("and", "or", "xor"):
                out = []
                for f, x in self.pred(m.args[1], self.fit(m.args[1], idx, facts), facts):
                    for f2, y in self.pred(m.args[2], self.fit(m.args[2], idx, f), f):
                        out.append((f2, and_(x, y) if m.args[0] == "and" else or_(x, y) if m.args[0] == "or" else
                                    or_(and_(x, not_(y)), and_(not_(x), y))))
                return out
            if m.op == "tun" and m.args[0] in ("not", "invert"):
                return [(f, not_(c)) for f, c in self.pred(m.args[1], idx, facts)]
            if m.op in ("bcast", "expand"):
                return self.pred(m.args[0], self.shrink(m.args[0], idx), facts)
            if m.op in SAME:
                return self.pred(m.args[0], idx, facts)
            if m.op == "phi":
                out = []
                for cc, v in ((m.args[0], m.args[1]), (not_(m.args[0]), m.args[2])):
                    fs = self.split(facts, conj(cc))
                    if fs is not None:
                        out += self.pred(v, idx, fs)
                return out
            if m.op in ("any", "all") and m.args[1] is None:
                return [(facts, N_("truthy", m))]
            if m.op in ("fn1",) and m.args[1] in ("logical_not", "bitwise_not"):
                return [(f, not_(c)) for f, c in self.pred(m.args[0], idx, facts)]
        raise NoAccess("mask " + (m.op if isinstance(m, Node) else type(m).__name__))

    def shrink(self, t, idx):
        """index of the operand of a broadcast"""
        r = self.m.rank_of(t)
        new = {}
        for k, v in idx.items():
            a = add(k, r)
            if a.is_const and a.const < 0:
                continue
            new[k] = ZERO if self.dim(t, a) == ONE else v
        return new

    def choose(self, ps, f1, f2):
        """pieces of a choice by the conditions ps"""
        out = []
        for fs, c in ps:
            for cc, g in ((c, f1), (not_(c) if not isinstance(c, bool) else not c, f2)):
                if cc is False:
                    continue
                for part in cases_of(cc):
                    f3 = self.split(fs, part)
                    if f3 is not None:
                        out += g(f3)
        return out

    def masked(self, t, mask, v, idx, facts):
        """v where the mask holds (with the masked elements of tensors in v read element-wise), t elsewhere"""
        if isinstance(v, (Poly, Node)):
            m = {}          # outermost reads only: what they read may itself hold reads through the mask
            for q in walk(v):
                if q.op == "gather" and len(q.args) == 2 and one_mask(q.args[1]) == mask:
                    m[q] = q.args[0]
                elif q.op in ("masked_scatter", "scatter"):
                    m[q] = q
            v = subst(v, m)
            if open_gather(v):
                raise NoAccess("assignment through a mask")
        ps = self.pred(mask, idx, facts)
        return self.choose(ps, lambda fs: self.cell(v, self.fit(v, idx, fs), fs), lambda fs: self.cell(t, idx, fs))

    def n_scatter(self, n, idx, facts):
        mask = one_mask(n.args[1]) if len(n.args) == 3 else None
        if mask is None or self.m.rank_of(mask) != self.m.rank_of(n.args[0]):
            raise NoAccess("assignment through an index tensor")
        return self.masked(n.args[0], mask, n.args[2], idx, facts)

    def n_masked_fill(self, n, idx, facts):
        return self.masked(n.args[0], atom_of(n.args[1]), n.args[2], self.shrink(n.args[0], idx), facts)

    def n_masked_scatter(self, n, idx, facts):
        v = n.args[2]
        if not any(q.op == "gather" for q in walk(v)):
            raise NoAccess("masked scatter")
        return self.masked(n.args[0], atom_of(n.args[1]), v, self.shrink(n.args[0], idx), facts)

    def n_std(self, n, idx, facts):
        return [(f, pow_(v, const(Fraction(1, 2)))) for f, v in self.cell(N_("var", *n.args), idx, facts)]

    # ------------------------------------------------------------ reductions over bound indices
    def reduction(self, n, idx, facts):
        t, dims, keep = n.args[0], n.args[1], n.args[-1]
        rt = self.m.rank_of(t)
        if dims is None and rt.as_int() is not None:
            dims = tuple(const(i) for i in range(rt.as_int()))
        if not isinstance(dims, tuple):
            if dims is None:
                return self.reduce_all(n, facts)
            raise NoAccess("reduction over unknown axes")
        if len(n.args) > 4 or len(n.args) == 4 and n.args[2] not in (None, False, 0):
            extra = n.args[2:-1]
        else:
            extra = ()
        new = dict(idx)
        keys = []
        for d in dims:
            d = P(d)
            if d.as_int() is not None and d.as_int() < 0:
                d = add(d, rt)
            keys.append((sub(d, rt), d))
        if keep is True:
            for k, d in keys:
                kk = self.find(new, k, facts)
                if kk is not None:
                    del new[kk]
        else:
            new = self.undrop(idx, [k for k, _ in keys], facts)
        fs = tuple(facts)
        lens = []
        for i, (k, d) in enumerate(keys):
            var = N_("isym", f"red{self.depth}.{i}")
            ln = self.dim(t, d)
            new[k] = P(var)
            fs = fs + (ge0(P(var)), gt0(sub(ln, P(var))))
            lens.append((var, ln))
        out = []
        op, scale = n.op, ONE
        if self.sums and op == "mean" and not extra:
            op = "sum"
            for _, ln in lens:
                scale = mul(scale, ln)
            scale = div(ONE, scale)
        if self.sums and all(d.is_const for _, d in keys) or len(lens) == 1:
            lens = [l for _, l in sorted(zip([d.const if d.is_const else 0 for _, d in keys], lens), key=lambda q: q[0])]
        ps = self.cell(t, new, fs)
        if op == "sum" and self.sums and len(ps) > 1:
            r = self.cases_sum(ps, fs, lens)
            if r is not None:
                return [(facts, mul(scale, r))]
        for f2, body in self.uniform(ps, fs, facts, [v for v, _ in lens]):
            if op == "sum" and len(lens) == 1:
                out.append((f2, mul(scale, ksum(lens[0][1], lens[0][0], body))))
                continue
            out.append((f2, mul(scale, redc(op, lens, body, *extra))))
        return out

    def cases_sum(self, ps, fs, lens):
        """sum over cells whose value is given by cases on one bound index each: split into sums over the sub-ranges"""
        vs = [v for v, _ in lens]
        tot = ZERO
        for f2, body in ps:
            lo = {v: ZERO for v in vs}
            hi = dict(lens)
            for c in f2[len(fs):]:
                for g in conj(c):
                    if not (isinstance(g, Node) and g.op in ("ge0", "gt0")):
                        return None
                    p = g.args[0] if g.op == "ge0" else sub(g.args[0], ONE)
                    inv = [v for v in vs if contains(p, lambda q: q is v)]
                    if len(inv) != 1:
                        return None
                    v = inv[0]
                    k = p.t.get(((v, 1),))
                    e = sub(p, mul(const(k or 0), P(v)))
                    if k not in (1, -1) or contains(e, lambda q: q is v):
                        return None
                    base = [x for x in fs if not any(contains(x, lambda q: q is y) for y in vs)]
                    if k == 1:      # v >= -e
                        b = neg(e)
                        if self.holds(base, ge0(sub(b, lo[v]))):
                            lo[v] = b
                        elif not self.holds(base, ge0(sub(lo[v], b))):
                            return None
                    else:           # v <= e
                        b = add(e, ONE)
                        if self.holds(base, ge0(sub(hi[v], b))):
                            hi[v] = b
                        elif not self.holds(base, ge0(sub(b, hi[v]))):
                            return None
            m = {v: add(P(v), lo[v]) for v in vs if lo[v] != ZERO}
            l2 = [(v, sub(hi[v], lo[v])) for v, _ in lens]
            b = subst(body, m) if m else body
            tot = add(tot, ksum(l2[0][1], l2[0][0], b) if len(l2) == 1 else redc("sum", l2, b))
        return tot

    def undrop(self, idx, keys, facts):
        """index of the operand of an operation that removes the axes with the given (negative) keys.

        Keys count from the last axis, so an axis moves by the number of removed axes on its right."""
        new = {}
        for k, v in idx.items():
            # position from the right is preserved for axes right of every removed one
            b = k
            for d in sorted(keys, key=lambda q: -q.const if q.is_const else 0) if all(q.is_const for q in keys) else self.ordered(keys, facts):
                dd = sub(d, b)
                if dd.is_const:
                    if dd.const >= 0:
                        b = sub(b, ONE)
                elif self.holds(facts, ge0(dd)):
                    b = sub(b, ONE)
                elif not self.holds(facts, gt0(neg(dd))):
                    raise NeedSplit(ge0(dd), "order of axes")
            new[b] = v
        return new

    def ordered(self, keys, facts):
        """keys from the last axis to the first"""
        out = []
        for k in keys:
            i = 0
            while i < len(out):
                d = sub(k, out[i])
                if d.is_const:
                    gt = d.const > 0
                elif self.holds(facts, gt0(d)):
                    gt = True
                elif self.holds(facts, ge0(neg(d))):
                    gt = False
                else:
                    raise NeedSplit(gt0(d), "order of axes")
                if gt:
                    break
                i += 1
            out.insert(i, k)
        return out

    def reduce_all(self, n, facts):
        t = n.args[0]
        rt = self.m.rank_of(t)
        extra = n.args[2:-1] if len(n.args) > 3 and n.args[2] not in (None, False, 0) else ()
        return [(facts, P(N_("redc", n.op, (("all", rt),), self.generic(t, facts), *extra)))]

    def generic(self, t, facts):
        """normal form of the elements of a tensor at a generic index (no tracked axes)"""
        ps = self.cell(t, {}, facts)
        if len(ps) != 1:
            raise NoAccess("reduction over cells that straddles cases")
        return ps[0][1]

    def uniform(self, ps, fs, facts, vs):
        """pieces of a bound-index body whose case conditions do not depend on the bound indices"""
        out = []
        for f2, v in ps:
            ex = f2[len(fs):]
            if any(contains(c, lambda q: q in vs) for c in ex):
                raise NoAccess("sum or reduction over cells that straddles cases: " + " and ".join(show(c, 5) for c in ex))
            out.append((tuple(facts) + tuple(ex), v))
        return out


_cat = {}


def catoms(c):
    """atoms a condition constrains, including those inside min/max/phi/mod/floordiv"""
    r = _cat.get(c)
    if r is None:
        r = set()
        if isinstance(c, Node):
            if c.op in ("and", "or", "not"):
                for a in c.args:
                    r |= catoms(a)
            elif c.op in ("ge0", "gt0", "eq0"):
                r |= patoms(c.args[0])
            else:
                r.add(c)
        _cat[c] = r
    return r


def patoms(p):
    r = set()
    for a in P(p).atoms():
        r.add(a)
        if a.op in ("min", "max", "mod", "floordiv", "ceil"):
            for x in a.args:
                r |= patoms(x)
        elif a.op == "phi":
            r |= catoms(a.args[0])
            for x in a.args[1:]:
                if isinstance(x, (Poly, Node)):
                    r |= patoms(x)
    return r


def atom_of(m):
    return m.as_atom() if isinstance(m, Poly) and m.as_atom() is not None else m


def one_mask(i):
    """the mask of an index that consists of one boolean tensor"""
    if isinstance(i, Node) and i.op == "idx":
        i = i.args[0]
    if isinstance(i, tuple) and len(i) == 1:
        i = i[0]
    i = atom_of(i)
    return i if isinstance(i, Node) and i.op in ("cmp", "tbin", "boolop", "tun", "fn1", "bcast", "expand") else None


def abs_cmp(op, x, y):
    """comparison with a magnitude as a condition without magnitude"""
    def inner(p):
        a = p.as_atom()
        return a.args[1] if a is not None and a.op == "fnc" and a.args[0] == "abs" and len(a.args) == 2 else None
    x, y = P(x), P(y)
    if inner(x) is None:
        if inner(y) is None:
            return None
        x, y, op = y, x, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
    v = P(inner(x))
    if op in ("<", "<="):
        f = gt0 if op == "<" else ge0
        return and_(f(sub(y, v)), f(add(y, v)))
    if op in (">", ">="):
        f = gt0 if op == ">" else ge0
        return or_(f(sub(v, y)), f(neg(add(y, v))))
    return None


def open_gather(v):
    """a selection of elements by an index tensor that is not itself assigned back through that index"""
    if isinstance(v, Node):
        if v.op == "gather":
            return True
        if v.op in ("scatter", "masked_scatter", "masked_fill"):
            return open_gather(v.args[0])
        return any(open_gather(a) for a in v.args)
    if isinstance(v, Poly):
        return any(open_gather(a) for a in v.atoms())
    if isinstance(v, tuple):
        return any(open_gather(a) for a in v)
    return False


def cases_of(c):
    """disjoint conjunctions that cover a condition"""
    if c is True:
        return [[]]
    if isinstance(c, Node) and c.op == "or":
        out, acc = [], []
        for x in c.args:
            out += [acc + p for p in cases_of(x)]
            acc = acc + conj(not_(x))
        return out
    if isinstance(c, Node) and c.op == "not" and c.args[0].op == "and":
        out, acc = [], []
        for x in c.args[0].args:
            out += [acc + p for p in cases_of(not_(x))]
            acc = acc + conj(x)
        return out
    return [conj(c)]


def redc(op, lens, body, *extra):
    """reduction of body over bound indices [(variable, length)]; bound names are canonical"""
    lvl = 0
    used = {q.args[0] for q in walk(body) if q.op == "isym"}
    while f"ρ{lvl}" in used:
        lvl += 1
    ren = {v: P(N_("isym", f"ρ{lvl + i}")) for i, (v, _) in enumerate(lens)}
    return P(N_("redc", op, tuple((N_("isym", f"ρ{lvl + i}"), P(l)) for i, (_, l) in enumerate(lens)), subst(body, ren), *extra))


def powx(v, e):
    if e == 1:
        return v
    return powi(v, e)


def conj(c):
    if isinstance(c, Node) and c.op == "and":
        return list(c.args)
    return [c]


def quotient(p, d):
    """(a, r): p = a * d + r where a collects the monomials divisible by the monomial d"""
    (dm, dc), = d.t.items() if len(d.t) == 1 else [(None, None)]
    if dm is None:
        raise NoAccess("view with a sum as length")
    a, r = {}, {}
    for m, c in p.t.items():
        e = dict(m)
        if all(e.get(x, 0) >= k for x, k in dm) and (c / dc).denominator == 1:
            for x, k in dm:
                e[x] -= k
            a[tuple(sorted(((x, k) for x, k in e.items() if k), key=lambda z: z[0].id))] = c / dc
        else:
            r[m] = c
    return Poly(a), Poly(r)


def div_exact(p, k):
    if k == 1:
        return p
    if all(c % k == 0 for c in p.t.values()):
        return mul(const(Fraction(1, k)), p)
    return floordiv(p, const(k))


def ksum(ln, var, body):
    """sum_{var<ln} body, split into monomials with the factors that do not depend on var pulled out"""
    out = ZERO
    kv = P(N_("isym", "κ"))
    deep = 0
    for mono, c in body.t.items():
        outm, inn = [], []
        for a, e in mono:
            (inn if contains(a, lambda q: q is var) else outm).append((a, e))
        o = Poly({tuple(outm): c})
        if not inn:
            out = add(out, mul(o, ln))
            continue
        b = Poly({tuple(inn): Fraction(1)})
        lvl = 0
        while any(q.op == "isym" and q.args[0] == f"κ{lvl}" for q in walk(b)):
            lvl += 1
        kv = N_("isym", f"κ{lvl}")
        out = add(out, mul(o, P(N_("ksum", ln, kv, subst(b, {var: P(kv)})))))
    return out


# ------------------------------------------------------------------ concrete evaluation of index expressions
class NoEval(Exception):
    pass


def ev(p, env):
    """value of an integer expression under an assignment of its symbols"""
    if isinstance(p, (int, Fraction)):
        return Fraction(p)
    if isinstance(p, Node):
        return evn(p, env)
    r = Fraction(0)
    for mono, c in p.t.items():
        v = Fraction(c)
        for a, e in mono:
            x = evn(a, env)
            if e < 0 and x == 0:
                raise NoEval("division by zero")
            v *= x ** e
        r += v
    return r


def evn(n, env):
    if n in env:
        return Fraction(env[n])
    if n.op == "min":
        return min(ev(a, env) for a in n.args)
    if n.op == "max":
        return max(ev(a, env) for a in n.args)
    if n.op == "floordiv":
        a, b = ev(n.args[0], env), ev(n.args[1], env)
        if b == 0:
            raise NoEval("division by zero")
        return Fraction(math.floor(a / b))
    if n.op == "mod":
        a, b = ev(n.args[0], env), ev(n.args[1], env)
        if b == 0:
            raise NoEval("division by zero")
        return a - b * math.floor(a / b)
    if n.op == "ceil":
        return Fraction(math.ceil(ev(n.args[0], env)))
    if n.op == "inv":
        v = ev(n.args[0], env)
        if v == 0:
            raise NoEval("division by zero")
        return 1 / v
    if n.op == "phi":
        c = evc(n.args[0], env)
        return ev(n.args[1] if c else n.args[2], env)
    raise NoEval(n.op)


def evc(c, env):
    """truth of a condition under an assignment"""
    if isinstance(c, bool):
        return c
    if c in env:
        return bool(env[c])
    if c.op == "ge0":
        return ev(c.args[0], env) >= 0
    if c.op == "gt0":
        return ev(c.args[0], env) > 0
    if c.op == "eq0":
        return ev(c.args[0], env) == 0
    if c.op == "not":
        return not evc(c.args[0], env)
    if c.op == "and":
        return all(evc(a, env) for a in c.args)
    if c.op == "or":
        return any(evc(a, env) for a in c.args)
    raise NoEval(c.op)
