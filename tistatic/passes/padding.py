"""C07..C09: padding modes, placement of the original content, extension laws.

The output of a padding call is described by its access relation: the value graph of the interpreted call is
pushed back, for a symbolic output index and a symbolic pad width, to the input cells it copies or combines.
Filling loops are summarised by an inductively verified invariant: the cells between two frontiers already hold
the extended signal Y.  Only when the proof does not go through are small concrete sizes put into the extracted
relation, to obtain a witness; a mismatch without witness is reported as undecided, not as a violation."""
from itertools import product
from ..catalog import *
from ..access import *
from ..access import NoAccess, Access, conj, ev, evc, evn, NoEval, SAME, catoms, redc, powx
from ..report import ok, bad, und
from .effects import und_of, run_case

STATS = {"mean": "mean", "median": "median", "maximum": "amax", "minimum": "amin"}
LOOPED = ("circular", "periodize", "symmetric", "antisymmetric", "reflect", "odd_reflect", "odd_symmetric")


class Setup:
    """one padding call on known axes"""

    def __init__(self, case, w, r):
        self.case, self.w, self.r, self.ip, self.m = case, w, r, w.ip, w.ip.m
        ts = r.terms()
        self.R = ts[0][1]
        info = case.info
        self.modes = list(info.get("modes") or (info["mode"],) * (2 if ".2axes" in case.id else 1))
        self.x = N_("tin", "x")
        self.n = self.m.rank_of(self.x)
        k = len(self.modes)
        self.axes = [w.isym(f"a{i}") for i in range(k)] if self.n != ONE else [ZERO]
        # names of the symbolic settings of each axis (None: the axis is not padded)
        nm = info.get("widths") or (["p0", "p1"] if k == 2 else ["p"])
        self.pb = [ZERO if q is None else w.isym(q + "b") for q in nm]
        self.pa = [ZERO if q is None else w.isym(q + "a") for q in nm]
        self.L = [self.m.dim_of(self.x, a) for a in self.axes]
        self.odd = [mod(l, const(2)) if m == "periodize" else ZERO for l, m in zip(self.L, self.modes)]
        self.N = [add(add(add(p, l), q), o) for p, l, q, o in zip(self.pb, self.L, self.pa, self.odd)]
        self.key = [sub(a, self.n) for a in self.axes]
        self.b = w.isym("b") if k == 1 and self.n != ONE else None        # some other axis
        self.bkey = sub(self.b, self.n) if self.b is not None else None
        self.Lb = self.m.dim_of(self.x, self.b) if self.b is not None else None
        self.j = [w.isym(f"j{i}") for i in range(k)]
        self.jb = w.isym("jb")
        s = lambda q: P(N_("sym", q))
        nv = info.get("values") or [""] * k
        self.cv = [(s(f"cv{q}_b"), s(f"cv{q}_a")) for q in nv]
        self.ev = [(s(f"ev{q}_b"), s(f"ev{q}_a")) for q in nv]
        self.sl = [(w.isym(f"s{q}b"), w.isym(f"s{q}a")) if "stat_length" in case.id else (None, None) for q in nv]
        self.looped = all(m in LOOPED for m in self.modes)
        f = list(r.pc0)
        for a, j, N, L, p, q in zip(self.axes, self.j, self.N, self.L, self.pb, self.pa):
            f += [ge0(j), gt0(sub(N, j)), ge0(sub(L, ONE)), ge0(p), ge0(q)]
        if self.b is not None:
            f += [ge0(self.b), gt0(sub(self.n, self.b)), not_(eq0(sub(self.b, self.axes[0])))]
        self.facts = tuple(dict.fromkeys(x for x in f if x is not True))
        self.idx = {k_: j for k_, j in zip(self.key, self.j)}
        if self.b is not None:
            self.idx[self.bkey] = self.jb

    # ------------------------------------------------ cells of the extended signal
    def Y(self, k):
        return P(N_("pcell", tuple(k)))

    def per(self, i):
        L = self.L[i]
        m = self.modes[i]
        if m == "circular":
            return L, None
        if m == "periodize":
            return add(L, self.odd[i]), None
        if m in ("symmetric", "antisymmetric"):
            return mul(const(2), L), (const(-1), 1 if m == "symmetric" else -1)
        if m == "reflect":
            return mul(const(2), sub(L, ONE)), (ZERO, 1)
        if m == "odd_reflect":
            return sub(L, ONE), None
        if m == "odd_symmetric":
            return L, None
        return None, None

    # ------------------------------------------------ non periodic laws: value at offset k of a line f
    def law(self, i, k, f, side):
        m, L, pb, pa = self.modes[i], self.L[i], self.pb[i], self.pa[i]
        last = sub(L, ONE)
        if side == "in":
            return f(k)
        s = 0 if side == "before" else 1
        if m == "zeros":
            return ZERO
        if m == "constant":
            return self.cv[i][s]
        if m == "replicate":
            return f(last if s else ZERO)
        if m == "smooth":
            if s == 0:
                return add(f(ZERO), mul(k, sub(f(ONE), f(ZERO))))
            return add(f(last), mul(sub(k, last), sub(f(last), f(sub(last, ONE)))))
        if m == "linear_ramp":
            if s == 0:
                return add(self.ev[i][0], mul(div(add(k, pb), pb), sub(f(ZERO), self.ev[i][0])))
            return add(self.ev[i][1], mul(div(sub(add(last, pa), k), pa), sub(f(last), self.ev[i][1])))
        if m in STATS:
            q = self.sl[i][s]
            if q is None:
                ln, st = L, ZERO
            else:
                ln = minmax("min", (L, minmax("max", (ONE, q))))
                st = ZERO if s == 0 else sub(L, ln)
            var = N_("isym", f"law{i}")
            if ln == ONE:
                return f(st)
            return redc(STATS[m], [(var, ln)], f(add(P(var), st)))
        if m in LOOPED:
            return f(k)
        raise NoAccess("no law for " + str(m))


def tighten(facts):
    """integer disequalities at the end of a known range become strict inequalities"""
    out = list(facts)
    ch = True
    while ch:
        ch = False
        for f in out:
            if isinstance(f, Node) and f.op == "not" and f.args[0].op == "eq0":
                p = f.args[0].args[0]
                if not is_int(p):
                    continue
                for q in (p, neg(p)):
                    g = ge0(sub(q, ONE))
                    if g not in out and entails(rel_(out, q), ge0(q)) and g is not True:
                        out.append(g)
                        ch = True
    return tuple(out)


def rel_(facts, p):
    return [f for f in facts if isinstance(f, Node) and f.op in ("ge0", "gt0", "eq0")]


def eqsub(facts, *ps):
    """substitute equalities with a unit coefficient; mod(L,2) by its parity"""
    m = {}
    for f in facts:
        if not isinstance(f, Node):
            continue
        if f.op == "eq0":
            p = f.args[0]
            if m:
                p = subst(p, m)
            for mono, c in p.t.items():
                if len(mono) == 1 and mono[0][1] == 1 and abs(c) == 1 and mono[0][0].op in ("dim", "isym", "mod"):
                    a = mono[0][0]
                    rest = sub(p, mul(const(c), P(a)))
                    if not contains(rest, lambda q: q is a):
                        m = {k: subst(v, {a: mul(const(-c), rest)}) for k, v in m.items()}
                        m[a] = mul(const(-c), rest)
                        break
        elif f.op == "not" and f.args[0].op == "eq0":
            a = f.args[0].args[0].as_atom()
            if isinstance(a, Node) and a.op == "mod" and a.args[1] == const(2):
                m[a] = ONE
        elif f.op == "gt0":
            a = f.args[0].as_atom()
            if isinstance(a, Node) and a.op == "mod" and a.args[1] == const(2):
                m[a] = ONE
    for f in facts:
        if isinstance(f, Node) and f.op == "ge0":
            p = add(f.args[0], ONE)
            a = p.as_atom()
            if isinstance(a, Node) and a.op == "mod" and a.args[1] == const(2):
                m[a] = ONE
    if not m:
        return ps
    return tuple(subst(p, m) for p in ps)


class Proof:
    def __init__(self, S):
        self.S = S
        self.ac = Access(S.ip, S.facts)
        self.ac.base = tuple(S.facts)
        self.cong = []          # (axis index, frontier variable, polynomial congruent to 0 modulo the period)
        self.nloops = 0

    # ------------------------------------------------ input cells as cells of Y
    def toY(self, v, facts):
        S = self.S

        def conv(n):
            if n.op != "cell":
                return None
            if n.args[0] is not S.x:
                raise NoAccess("cell of " + show(n.args[0], 2))
            d = {a: p for a, p in n.args[1]}
            k = []
            for i, a in enumerate(S.axes):
                if a not in d:
                    raise NoAccess("axis missing in cell")
                p = d.pop(a)
                inr = and_(ge0(p), gt0(sub(S.L[i], p)))
                if not self.within(facts, inr):
                    raise NoAccess(f"read outside the input: {show(p)}")
                k.append(p)
            if S.b is not None:
                q = d.pop(S.b, None)
                if q is None or q != S.jb and not (q == ZERO and S.Lb == ONE):
                    raise NoAccess("another axis is permuted")
            if d:
                raise NoAccess("extra axes")
            return S.Y(k)
        if not isinstance(v, (Poly, Node)):
            return P(v)
        m = {}
        for q in outer(v, "redc"):
            if True:
                rng = ()
                for r_, ln in q.args[1]:
                    r_ = P(r_)
                    rng += (ge0(r_), gt0(sub(ln, r_)))
                m[q] = N_("redc", q.args[0], q.args[1], self.toY(q.args[2], tuple(facts) + rng), *q.args[3:])
        return P(subst(v, m, None, conv))

    def within(self, facts, c):
        return self.ac.holds(facts, c)

    # ------------------------------------------------ comparison modulo the law
    def divis(self, i, D, per, facts):
        cands = [D]
        for (ax, v, z) in self.cong:
            if ax != i:
                continue
            nx = []
            for d in cands:
                nx.append(d)
                c = d.coef(((v, 1),)) if hasattr(d, "coef") else d.t.get(((v, 1),), 0)
                if c and c.denominator == 1:
                    zc = z.t.get(((v, 1),), 0)
                    nx.append(sub(d, mul(const(Fraction(c) / zc), z)))
            cands = nx
        fs = tuple(self.ac.base) + tuple(facts)
        (per,) = eqsub(fs, per) if per is not None else (ZERO,)
        for d in cands:
            (d,) = eqsub(fs, d)
            if d == ZERO or self.within(facts, eq0(d)):
                return True
            if per == ZERO:
                continue
            q = ratio(d, per)
            if q is not None and Fraction(q).denominator == 1:
                return True
        return False

    def equalY(self, v, wk, facts):
        """v == Y(wk) under the law of the mode (looped modes)"""
        S = self.S
        y = S.Y(wk)
        (v0, y0) = eqsub(tuple(self.ac.base) + tuple(facts), v, y)
        if v0 == y0:
            return True
        ys = []
        for mono, c in v.t.items():
            if len(mono) != 1 or mono[0][1] != 1 or mono[0][0].op != "pcell":
                return False
            ys.append((c, mono[0][0].args[0]))
        odd = any(m in ("odd_reflect", "odd_symmetric") for m in S.modes)
        if len(ys) == 1:
            c, rk = ys[0]
            sign = 1
            for i in range(len(S.axes)):
                sg = self.axis_rel(i, rk[i], wk[i], facts)
                if sg is None:
                    return False
                sign *= sg
            return c == sign
        if odd and len(ys) == 2 and sorted(c for c, _ in ys) == [-1, 2]:
            ek = [k for c, k in ys if c == 2][0]
            rk = [k for c, k in ys if c == -1][0]
            diff = [i for i in range(len(S.axes)) if not self.eqk(rk[i], wk[i], facts)]
            if len(diff) != 1:
                return False
            i = diff[0]
            for q in range(len(S.axes)):
                if q != i and not self.eqk(ek[q], wk[q], facts):
                    return False
            e, r_, w_ = ek[i], rk[i], wk[i]
            per, _ = S.per(i)
            s = add(r_, w_)
            if S.modes[i] not in ("odd_reflect", "odd_symmetric"):
                return False
            if S.modes[i] == "odd_reflect":
                (D,) = eqsub(tuple(self.ac.base) + tuple(facts), sub(s, mul(const(2), e)))
                return D == ZERO and self.divis(i, e, per, facts)
            # half sample: 2e-1 = r+w with pivot e on the left side, pivot e-1 on the right
            for piv, side in ((ZERO, ge0(neg(add(w_, ONE)))), (ONE, ge0(sub(w_, S.L[i])))):
                f = add(e, piv)     # lattice point
                (D,) = eqsub(tuple(self.ac.base) + tuple(facts), sub(add(s, ONE), mul(const(2), f)))
                if D == ZERO and self.divis(i, f, per, facts) and self.within(facts, side):
                    return True
        return False

    def eqk(self, a, b, facts):
        (d,) = eqsub(tuple(self.ac.base) + tuple(facts), sub(a, b))
        return d == ZERO or self.within(facts, eq0(d))

    def axis_rel(self, i, r_, w_, facts):
        S = self.S
        if self.eqk(r_, w_, facts):
            return 1
        mode = S.modes[i]
        if mode not in LOOPED:
            return None
        per, refl = S.per(i)
        if mode in ("odd_reflect", "odd_symmetric"):
            one = self.within(facts, eq0(sub(S.L[i], ONE)))
            return 1 if one else None
        if self.within(facts, eq0(sub(S.L[i], ONE))) and mode != "antisymmetric":
            return 1
        if self.divis(i, sub(w_, r_), per, facts):
            return 1
        if refl is not None and self.divis(i, sub(add(w_, r_), refl[0]), per, facts):
            return refl[1]
        if mode == "periodize":
            # the extra element repeats the last one
            last = sub(S.L[i], ONE)
            if self.eqk(r_, last, facts) and self.divis(i, sub(w_, S.L[i]), per, facts) and \
                    self.within(facts, eq0(sub(S.odd[i], ONE))):
                return 1
        return None

    # ------------------------------------------------ loops
    def loop(self, mu):
        """summarise the loop that defines heap cell mu; returns the law used after the loop"""
        S, ip = self.S, self.S.ip
        key = mu.args[0]
        info = ip.loop_info.get(key)
        if info is None or info["cond"] is None or info["breaks"]:
            raise NoAccess("loop without a plain condition")
        init, step = ip.mu_defs[mu]
        same = [k for k in ip.mu_defs if k.args[0] == key]
        vs = [k for k in same if k.op == "imu"]
        flags = [k for k in same if k.op == "bmu" and contains(step, lambda q: q is k)]
        if len(flags) > 2:
            raise NoAccess("too many loop flags")
        cond = info["cond"]
        pc = tuple(c for c in info["pc"] if c is not True)
        err = None
        for v in vs:
            for i in range(len(S.axes)):
                try:
                    return self.loop_at(mu, init, step, v, i, flags, cond, pc)
                except NoAccess as e:
                    err = e
        raise err or NoAccess("loop without counter")

    def loop_at(self, mu, init, step, v, ax, flags, cond, pc):
        S, ip, ac = self.S, self.S.ip, self.ac
        v0, v1 = (P(x) for x in ip.mu_defs[v])
        N = S.N[ax]
        pv = P(v)
        base0 = ac.base
        cong0 = list(self.cong)
        ac.base = tighten(dict.fromkeys(base0 + pc))
        try:
            # ---- invariants of the counter (Houdini)
            inv = [ge0(pv), ge0(sub(v0, pv)), ge0(sub(pv, v0)), ge0(sub(N, pv))]
            inv = [c for c in inv if self.within((), subst(c, {v: v0}))]
            while True:
                drop = [c for c in inv if not self.within(tuple(inv) + (cond,), subst(c, {v: v1}))]
                if not drop:
                    break
                inv = [c for c in inv if c not in drop]
            inv = tuple(inv)
            dec = self.within(inv + (cond,), gt0(sub(pv, v1)))
            inc = self.within(inv + (cond,), gt0(sub(v1, pv)))
            if not (dec or inc):
                raise NoAccess("loop counter is not strictly monotone: " + show(v1, 8) + " under " + "; ".join(show(f, 8) for f in ac.base + inv))
            # ---- congruence classes of the counter per flag valuation
            per, _ = S.per(ax)
            cls = self.classes(v, v1, flags, cond, inv, per, ax)
            # ---- filled box
            statics = [N, add(add(S.pb[ax], S.L[ax]), S.odd[ax]), add(S.pb[ax], S.L[ax])] if dec else [ZERO, S.pb[ax]]
            statics = list(dict.fromkeys(statics))
            others = [(lo, hi) for lo, hi in ((ZERO, S.N[1 - ax]), (S.pb[1 - ax], add(S.pb[1 - ax], S.L[1 - ax])))] \
                if len(S.axes) == 2 else [None]
            err = None
            for st in statics:
                for ob in others:
                    try:
                        self.induct(mu, init, step, v, v0, v1, ax, flags, cond, inv, cls, dec, st, ob)
                    except NoAccess as e:
                        err = NoAccess((str(err) + " / " if err else "") + f"{show(v)} filled to {show(st)}: {e}")
                        continue
                    # exit
                    ex = inv + tuple(conj(not_(cond)))
                    vx = next((c for c in (ZERO, N) if self.within(ex, eq0(sub(pv, c)))), None)
                    if vx is None:
                        raise NoAccess("the loop may stop before the padding is filled")
                    lo, hi = (vx, st) if dec else (st, vx)
                    self.nloops += 1
                    return self.box(ax, lo, hi, ob)
            raise err or NoAccess("no invariant")
        finally:
            ac.base = base0
            self.cong = cong0

    def box(self, ax, lo, hi, ob):
        S = self.S

        def law(idx, facts):
            ks = []
            for i, k in enumerate(S.key):
                kk = self.ac.find(idx, k, facts)
                if kk is None:
                    raise NoAccess("padded axis untracked")
                p = idx[kk]
                l, h = (lo, hi) if i == ax else ob
                if not self.within(facts, and_(ge0(sub(p, l)), gt0(sub(h, p)))):
                    raise NoAccess(f"hypothesis: read at {show(p)} is not known to be filled")
                ks.append(sub(p, S.pb[i]))
            if S.b is not None:
                kk = self.ac.find(idx, S.bkey, facts)
                if kk is None or idx[kk] != S.jb:
                    raise NoAccess("another axis is permuted")
            if S.looped:
                return [(facts, S.Y(ks))]
            return [(fs, self.expected(fs, ks, sd)) for fs, sd in self.sides(facts, ks)]
        return law

    def flagvals(self, flags):
        return list(product((True, False), repeat=len(flags)))

    def alts(self, facts, term):
        """case split over the min/max atoms of a term: (facts, substitution)"""
        at = [n for n in walk(term) if n.op in ("min", "max") and len(n.args) == 2 and not self.ac.m_is_tensor(n)]
        at = list(dict.fromkeys(at))
        al = set(at)
        at = sorted(at, key=lambda a: sum(q in al for q in walk(a)))[:6]      # inner ones first
        out = [(tuple(facts), {})]
        for a in at:
            nx = []
            for fs, m in out:
                x, y = (subst(q, m) for q in a.args)
                for val, c in ((x, sub(y, x)), (y, sub(sub(x, y), ONE))):
                    if a.op == "max":
                        c = neg(c) if val is x else add(neg(c), const(-2))
                        c = sub(x, y) if val is x else sub(sub(y, x), ONE)
                    f2 = self.ac.split(fs, [ge0(c)])
                    if f2 is not None:
                        m2 = dict(m)
                        m2[a] = val
                        nx.append((f2, m2))
            out = nx
        return out

    def classes(self, v, v1, flags, cond, inv, per, ax):
        ip = self.S.ip
        cls = {}
        start = []
        for f in flags:
            b = ip.mu_defs[f][0]
            if not isinstance(b, bool):
                raise NoAccess("symbolic loop flag")
            start.append(b)
        todo = [(tuple(start), ZERO)]
        pv = P(v)
        v0 = P(ip.mu_defs[v][0])
        while todo:
            fv, c = todo.pop()
            if fv in cls:
                continue
            cls[fv] = c
            env = dict(zip(flags, fv))
            fm = {f: b for f, b in env.items()}
            t1 = subst(v1, fm)
            facts = inv + tuple(conj(cond)) + tuple(f if b else not_(f) for f, b in env.items())
            for fs, m in self.alts(facts, t1):
                n1 = subst(t1, m)
                nxt = subst(cond, {v: n1})
                f2 = self.ac.split(fs, conj(nxt))
                if f2 is None:
                    continue
                d = sub(n1, pv)
                if contains(d, lambda q: q is v):
                    raise NoAccess("step size depends on the counter")
                nf = tuple(evc(subst(ip.mu_defs[f][1], fm), env) if not isinstance(subst(ip.mu_defs[f][1], fm), bool)
                           else subst(ip.mu_defs[f][1], fm) for f in flags)
                nc = add(c, d)
                if nf in cls:
                    if not self.divis(ax, sub(nc, cls[nf]), per, f2):
                        raise NoAccess("no congruence invariant for the counter")
                else:
                    todo.append((nf, nc))
        return cls

    def induct(self, mu, init, step, v, v0, v1, ax, flags, cond, inv, cls, dec, st, ob):
        S, ac = self.S, self.ac
        pv = P(v)
        # base case
        self.check(init, ax, *((v0, st) if dec else (st, v0)), ob, ())
        for fv, c in cls.items():
            fm = dict(zip(flags, fv))
            head = self.box(ax, *((pv, st) if dec else (st, pv)), ob)
            sstep = subst(step, fm)
            sv1 = subst(v1, fm)
            facts = inv + tuple(conj(cond)) + tuple(f if b else not_(f) for f, b in fm.items())
            facts += (ge0(sub(st, pv)) if dec else ge0(sub(pv, st)),)
            self.cong.append((ax, v, sub(sub(pv, v0), c)))
            ac.laws[mu] = head
            try:
                for fs, m in self.alts(facts, (sstep, sv1)):
                    n1 = subst(sv1, m)
                    t = subst(sstep, m)
                    self.check(t, ax, *((n1, st) if dec else (st, n1)), ob, fs)
            finally:
                self.cong.pop()
                ac.laws.pop(mu, None)

    def check(self, t, ax, lo, hi, ob, facts):
        """cells [lo,hi) x box of t hold Y"""
        S = self.S
        js = [N_("isym", f"q{i}") for i in range(len(S.axes))]
        idx = {}
        fs = tuple(facts)
        for i, k in enumerate(S.key):
            l, h = (lo, hi) if i == ax else ob
            idx[k] = P(js[i])
            fs += (ge0(sub(P(js[i]), l)), gt0(sub(h, P(js[i]))))
        if S.b is not None:
            idx[S.bkey] = S.jb
        if not self.ac.feasible(fs):
            return
        self.need(t)
        wk = [sub(P(js[i]), S.pb[i]) for i in range(len(S.axes))]
        for f2, val in self.ac.cell(t, idx, fs):
            val = self.toY(val, f2)
            if S.looped:
                if not self.equalY(val, wk, f2):
                    raise NoAccess(f"cell {show(val, 8)} is not the extension at {show(wk[ax], 6)}")
                continue
            for f3, sd in self.sides(f2, wk):
                want = self.expected(f3, wk, sd)
                a, b = eqsub(tuple(self.ac.base) + f3, val, want)
                if a != b and not self.eqval(a, b, f3) and not self.eqcell(a, b, f3):
                    raise NoAccess(f"cell {show(a, 8)} is not the extension {show(b, 8)}")

    def need(self, t):
        """summarise the loops t depends on"""
        for n in walk(t):
            if n.op == "mu" and n not in self.ac.laws and n in self.S.ip.mu_defs:
                self.ac.laws[n] = "…"
                try:
                    init = self.S.ip.mu_defs[n][0]
                    self.need(init)
                    self.ac.laws.pop(n, None)
                    self.ac.laws[n] = self.loop(n)
                except BaseException:
                    self.ac.laws.pop(n, None)
                    raise

    # ------------------------------------------------ whole result
    def result(self):
        """raises NoAccess unless the result follows the law everywhere; returns number of pieces"""
        S = self.S
        self.need(S.R)
        n = 0
        self.ac.base = tighten(self.ac.base)
        for facts, val in self.ac.cell(S.R, S.idx, ()):
            n += 1
            if any(q.op == "uninit" for q in walk(val)):
                if "empty" in S.modes:
                    if len(S.modes) == 1 or set(S.modes) == {"empty"}:
                        continue
                    out_ = [or_(gt0(neg(sub(S.j[i], S.pb[i]))), ge0(sub(sub(S.j[i], S.pb[i]), S.L[i]))) for i, m in enumerate(S.modes) if m == "empty"]
                    if any(self.within(facts, c) for c in out_):
                        continue
                raise NoAccess("a cell is never written")
            wk = [sub(j, p) for j, p in zip(S.j, S.pb)]
            if S.looped:
                if not self.equalY(self.toY(val, facts), wk, facts):
                    raise NoAccess(f"cell {show(val, 8)} is not the extension at {show(wk[0], 6)}")
                continue
            for fs, sides in self.sides(facts, wk):
                want = self.expected(fs, wk, sides)
                a, b = eqsub(tuple(self.ac.base) + fs, self.toY(val, fs), want)
                if a != b and not self.eqval(a, b, fs) and not self.eqcell(a, b, fs):
                    raise NoAccess(f"cell {show(a, 8)} should be {show(b, 8)}")
        return n

    def eqval(self, a, b, facts):
        """equality of values after case splits on the min/max atoms"""
        for fs, m in self.alts(facts, (a, b)):
            x, y = eqsub(tuple(self.ac.base) + fs, subst(a, m), subst(b, m))
            x, y = norm_red(x), norm_red(y)
            if x == y:
                continue
            # lengths that coincide at the border of a case
            ls = [ONE] + list(self.S.L) + [p for q in self.S.sl for p in q if p is not None]
            eq = tuple(eq0(sub(u, v)) for i, u in enumerate(ls) for v in ls[:i] if self.within(fs, eq0(sub(u, v))))
            x, y = eqsub(tuple(self.ac.base) + fs + eq, x, y)
            if norm_red(x) != norm_red(y):
                return False
        return True

    def eqcell(self, a, b, facts):
        """equality of single cells under the laws of the looped axes"""
        for mono, c in b.t.items():
            if len(b.t) == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "pcell":
                return self.equalY(mul(const(1 / Fraction(c)), a), list(mono[0][0].args[0]), facts)
        return False

    def sides(self, facts, wk):
        S = self.S
        out = [(tuple(facts), ())]
        for i in range(len(S.axes)):
            k = wk[i]
            if S.modes[i] in LOOPED or S.modes[i] is None:
                out = [(fs, sd + ("in",)) for fs, sd in out]
                continue
            nx = []
            for fs, sd in out:
                for cs, nm in (([ge0(neg(add(k, ONE)))], "before"), ([ge0(k), gt0(sub(S.L[i], k))], "in"), ([ge0(sub(k, S.L[i]))], "after")):
                    f2 = self.ac.split(fs, cs)
                    if f2 is not None:
                        nx.append((f2, sd + (nm,)))
            out = nx
        return out

    def expected(self, facts, wk, sides):
        S = self.S
        one = lambda i: self.within(facts, eq0(sub(S.L[i], ONE)))

        def line(i, f, k, side):
            if S.modes[i] == "smooth" and side != "in":
                if one(i):
                    return f(ZERO)
                if not self.within(facts, ge0(sub(S.L[i], const(2)))):
                    raise NoAccess("length one is not told apart")
            if S.modes[i] == "empty" and side != "in":
                raise NoAccess("written although empty")
            return S.law(i, k, f, side)
        if len(S.axes) == 1:
            return line(0, lambda k: S.Y((k,)), wk[0], sides[0])

        def inner(k1):
            return line(0, lambda k0: S.Y((k0, k1)), wk[0], sides[0])
        return line(1, inner, wk[1], sides[1])


def outer(v, op):
    """occurrences of op that are not nested in another occurrence"""
    out, st, seen = [], [v], set()
    while st:
        q = st.pop()
        if isinstance(q, Poly):
            st += q.atoms()
        elif isinstance(q, tuple):
            st += q
        elif isinstance(q, Node) and q not in seen:
            seen.add(q)
            if q.op == op:
                out.append(q)
            else:
                st += q.args
    return out


def norm_red(p):
    """reductions of a single element are the element"""
    def f(n):
        if n.op == "redc" and len(n.args[1]) == 1 and n.args[1][0][1] == ONE:
            return subst(n.args[2], {n.args[1][0][0]: ZERO})
        return None
    return P(subst(p, {}, None, f))


# ====================================================================== witnesses at small sizes
class Trip(Exception):
    """the extracted relation cannot be carried out (mismatching lengths, index error)"""


class Arr:
    """cells of a tensor along the tracked axes (vec: a plain one-dimensional table)"""
    __slots__ = ("sh", "d", "vec")

    def __init__(self, sh, d, vec=False):
        self.sh, self.d, self.vec = tuple(sh), d, vec

    @staticmethod
    def of(sh, f, vec=False):
        return Arr(sh, {i: f(i) for i in product(*[range(k) for k in sh])}, vec)


class Env(dict):
    """sizes; the variables of a loop are computed when they are first asked for"""
    conc = None

    def __contains__(self, n):
        if dict.__contains__(self, n):
            return True
        if isinstance(n, Node) and n.op in ("imu", "bmu") and n.args[0] not in self.conc.running and n in self.conc.S.ip.mu_defs:
            self.conc.run_loop(n.args[0])
            return dict.__contains__(self, n)
        return False


class Conc:
    """the access relation at concrete sizes"""

    def __init__(self, S, env, running=()):
        self.S, self.env, self.memo = S, Env(env), {}
        self.env.conc = self
        self.running = set(running)
        self.k = len(S.axes)

    def int(self, p):
        v = ev(p, self.env)
        if v.denominator != 1:
            raise NoEval("fraction")
        return int(v)

    def axis(self, ax, rank):
        d = sub(P(ax), rank)
        for i, k in enumerate(self.S.key):
            if d == k:
                return i
        raise NoEval("untracked axis")

    def scalar(self, p):
        return Arr((1,) * self.k, {(0,) * self.k: p})

    def poly(self, p):
        if isinstance(p, Node):
            return self.node(p)
        if not isinstance(p, Poly):
            return self.scalar(P(p))
        out = None
        for mono, c in p.t.items():
            cur = self.scalar(const(c))
            for a, e in mono:
                v = self.node(a)
                if v.vec:
                    cur = Arr.of(v.sh, lambda i: mul(next(iter(cur.d.values())), powx(v.d[i], e)), True) if len(cur.d) == 1 else self.fail()
                    continue
                cur = self.zip(cur, Arr(v.sh, {i: powx(q, e) for i, q in v.d.items()}), mul)
            out = cur if out is None else self.zip(out, cur, add)
        return out if out is not None else self.scalar(ZERO)

    def fail(self):
        raise NoEval("table arithmetic")

    @staticmethod
    def zip(a, b, f):
        if a.vec != b.vec:
            raise NoEval("table arithmetic")
        sh = []
        for p, q in zip(a.sh, b.sh):
            if p != q and 1 not in (p, q):
                raise Trip(f"operands of {p} and {q} cells are combined")
            sh.append(p if q == 1 else q)
        g = lambda x, i: x.d[tuple(k if n > 1 else 0 for k, n in zip(i, x.sh))]
        return Arr.of(sh, lambda i: f(g(a, i), g(b, i)), a.vec)

    def node(self, n):
        if n in self.env:
            v = self.env[n]
            return v if isinstance(v, Arr) else self.scalar(const(int(v)))
        if n in self.memo:
            return self.memo[n]
        f = getattr(self, "c_" + n.op, None)
        if f is not None:
            r = f(n)
        elif n.op in SAME:
            r = self.poly(n.args[0])
        elif n.op in ("mean", "median", "amax", "amin"):
            r = self.red(n)
        elif Access(self.S.ip).is_scalar(n):
            try:
                r = self.scalar(const(evn(n, self.env)))
            except NoEval:
                r = self.scalar(P(n))
        else:
            raise NoEval(n.op)
        self.memo[n] = r
        return r

    def c_tin(self, n):
        return Arr.of([self.int(l) for l in self.S.L], lambda i: self.S.Y([const(q) for q in i]))

    def c_empty(self, n):
        sh = [self.int(self.S.m.dim_of(n, a)) for a in self.S.axes]
        if min(sh) < 0:
            raise Trip("negative length")
        return Arr.of(sh, lambda i: P(N_("uninit")))

    def bounds(self, e, ln):
        if e[0] == "i":
            i = self.int(e[1])
            if not -ln <= i < ln:
                raise Trip(f"index {i} out of range for {ln} cells")
            i %= ln
            return range(i, i + 1)
        if e[0] != "s":
            raise NoEval("index")
        g = lambda q: None if q is None else self.int(q)
        s = slice(g(e[1]), g(e[2]), g(e[3]))
        if s.step is not None and s.step <= 0:
            raise Trip("slice step must be positive")
        return range(*s.indices(ln))

    def region(self, t, amap, sh):
        if not isinstance(amap, tuple):
            raise NoEval("mask")
        r = self.S.m.rank_of(t)
        out = [range(k) for k in sh]
        for ax, e in amap:
            i = self.axis(ax, r)
            if e[0] == "i":
                raise NoEval("axis dropped")
            out[i] = self.bounds(e, sh[i])
        return out

    def c_getitem(self, n):
        t, amap = n.args
        v = self.poly(t)
        if v.vec:
            rg = [self.bounds(amap[0][1], v.sh[0])]
        else:
            rg = self.region(t, amap, v.sh)
        return Arr.of([len(x) for x in rg], lambda i: v.d[tuple(x[k] for x, k in zip(rg, i))], v.vec)

    def c_store(self, n):
        t, amap, val = n.args
        cur = self.poly(t)
        rg = self.region(t, amap, cur.sh)
        v = self.poly(val)
        if v.vec:
            raise NoEval("table stored")
        for a, x in zip(v.sh, rg):
            if a not in (1, len(x)):
                raise Trip(f"{a} cells are assigned to a region of {len(x)} cells")
        d = dict(cur.d)
        for i in product(*[range(len(x)) for x in rg]):
            d[tuple(x[k] for x, k in zip(rg, i))] = v.d[tuple(k if q > 1 else 0 for k, q in zip(i, v.sh))]
        return Arr(cur.sh, d)

    def c_flip(self, n):
        t, axes = n.args
        r = self.S.m.rank_of(t)
        v = self.poly(t)
        fl = set()
        for a in (axes if isinstance(axes, tuple) else (axes,)):
            a = P(a)
            fl.add(self.axis(add(a, r) if a.as_int() is not None and a.as_int() < 0 else a, r))
        return Arr.of(v.sh, lambda i: v.d[tuple(v.sh[q] - 1 - k if q in fl else k for q, k in enumerate(i))])

    def c_phi(self, n):
        return self.poly(n.args[1] if evc(n.args[0], self.env) else n.args[2])

    def red(self, n):
        t, dims = n.args[0], n.args[1]
        r = self.S.m.rank_of(t)
        if not isinstance(dims, tuple) or n.args[-1] is not True:
            raise NoEval("reduction")
        v = self.poly(t)
        for a in dims:
            a = P(a)
            q = self.axis(add(a, r) if a.as_int() is not None and a.as_int() < 0 else a, r)
            if not v.sh[q]:
                raise Trip("statistic of no cells")
            w = v
            v = Arr.of([1 if i == q else k for i, k in enumerate(w.sh)],
                       lambda i: redval(n.op, [w.d[i[:q] + (k,) + i[q + 1:]] for k in range(w.sh[q])]))
        return v

    def c_linspace(self, n):
        a, b, s = (ev(q, self.env) for q in n.args[:3])
        s = int(s)
        return Arr.of((s,), lambda i: const(a + (b - a) * i[0] / (s - 1)) if s > 1 else const(a), True)

    def c_arange(self, n):
        a, b, c = (int(ev(q, self.env)) for q in n.args[:3])
        x = range(a, b, c)
        return Arr.of((len(x),), lambda i: const(x[i[0]]), True)

    def c_view(self, n):
        v = self.poly(n.args[0])
        sh = n.args[1]
        if v.vec and isinstance(sh, Node) and sh.op == "vec" and P(sh.args[2]) == ONE and len(sh.args[3]) == 1:
            q = self.axis(sh.args[3][0][0], self.S.m.rank_of(n))
            return Arr.of([v.sh[0] if i == q else 1 for i in range(self.k)], lambda i: v.d[(i[q],)])
        raise NoEval("view")

    def run_loop(self, key):
        """put the state after the loop into the environment"""
        ip = self.S.ip
        info = ip.loop_info.get(key)
        if info is None or info["cond"] is None and info["var"] is None or info["breaks"]:
            raise NoEval("loop")
        n = None if info["cond"] is not None else self.int(info["len"])
        defs = {k: v for k, v in ip.mu_defs.items() if k.args[0] == key}
        self.running.add(key)
        state = {k: self.val(k, i, self) for k, (i, s) in defs.items()}
        for it in range(400):
            c = Conc(self.S, {**self.env, **{k: v for k, v in state.items() if v is not None}}, self.running)
            if n is not None:
                c.env[info["var"]] = it
                if it >= n:
                    break
            elif not evc(info["cond"], c.env):
                break
            state = {k: self.val(k, s, c) for k, (i, s) in defs.items()}
        else:
            raise Trip("the filling loop does not terminate")
        for k, v in state.items():
            if v is not None:
                self.env[k] = v

    def c_mu(self, n):
        if n not in self.S.ip.mu_defs or n.args[0] in self.running:
            raise NoEval("loop variable")
        self.run_loop(n.args[0])
        if n not in self.env:
            raise NoEval("loop variable")
        return self.env[n]

    def val(self, k, x, c):
        try:
            if k.op == "imu":
                return c.int(x)
            if k.op == "bmu":
                return x if isinstance(x, bool) else evc(x, c.env)
            return c.poly(x)
        except NoEval:
            return None


def redval(op, v):
    vs = sorted(v, key=lambda p: show(p))
    if all(p == vs[0] for p in vs):
        return vs[0]
    if op == "mean":
        s = ZERO
        for p in v:
            s = add(s, p)
        return mul(const(Fraction(1, len(v))), s)
    return P(N_("fnc", op, *vs))


def oracle(S, ax, L, pb, pa, env):
    """cells of the documented extension of one axis at concrete sizes"""
    m = S.modes[ax]
    X = [S.Y((const(i),)) for i in range(L)]
    odd = L % 2 if m == "periodize" else 0
    out = []
    memo = {}

    def Y(k):
        if k in memo:
            return memo[k]
        memo[k] = r = Y0(k)
        return r

    def Y0(k):
        if 0 <= k < L:
            return X[k]
        if m == "empty":
            return ZERO
        if m == "circular":
            return X[k % L]
        if m == "periodize":
            e = X + ([X[-1]] if odd else [])
            return e[k % len(e)]
        if m in ("symmetric", "antisymmetric"):
            q = k % (2 * L)
            return X[q] if q < L else (X[2 * L - 1 - q] if m == "symmetric" else neg(X[2 * L - 1 - q]))
        if L == 1 and m in ("reflect", "odd_reflect", "smooth", "odd_symmetric"):
            return X[0]
        if m == "reflect":
            q = k % (2 * (L - 1))
            return X[q] if q < L else X[2 * (L - 1) - q]
        two = const(2)
        if m == "odd_reflect":
            if k < 0:
                e = -((-k - 1) // (L - 1)) * (L - 1)
            else:
                e = (L - 1) + ((k - L) // (L - 1)) * (L - 1)
            return sub(mul(two, Y(e)), Y(2 * e - k))
        if m == "odd_symmetric":
            if k < 0:
                e = -((-k - 1) // L) * L
                return sub(mul(two, Y(e)), Y(2 * e - 1 - k))
            e = L + ((k - L) // L) * L
            return sub(mul(two, Y(e - 1)), Y(2 * e - 1 - k))
        s = 0 if k < 0 else 1
        if m == "zeros":
            return ZERO
        if m == "constant":
            return S.cv[ax][s]
        if m == "replicate":
            return X[-1] if s else X[0]
        if m == "smooth":
            return add(X[0], mul(const(k), sub(X[1], X[0]))) if s == 0 else \
                add(X[-1], mul(const(k - L + 1), sub(X[-1], X[-2])))
        if m == "linear_ramp":
            t = Fraction(k + pb, pb) if s == 0 else Fraction(L - 1 + pa - k, pa)
            e = S.ev[ax][s]
            return add(e, mul(const(t), sub(X[-1] if s else X[0], e)))
        if m in STATS:
            q = S.sl[ax][s]
            if q is None:
                return redval(STATS[m], X)
            n = min(L, max(1, int(ev(q, env))))
            return redval(STATS[m], X[L - n:] if s else X[:n])
        raise NoEval(m)
    for j in range(pb + L + pa + odd):
        out.append(Y(j - pb))
    return out


def oracle2(S, sizes, env):
    """two axes: the second is extended from the rows extended along the first"""
    if len(sizes) == 1:
        return {(j,): v for j, v in enumerate(oracle(S, 0, *sizes[0], env))}
    r0, r1 = (oracle(S, i, *q, env) for i, q in enumerate(sizes))

    def compose(j0, j1):
        def row(n):
            k1 = n.args[0][0]
            return subst(r0[j0], {m: N_("pcell", (m.args[0][0], k1)) for m in walk(r0[j0]) if m.op == "pcell" and len(m.args[0]) == 1})
        v = r1[j1]
        if any(q.op == "fnc" for q in walk(v)) or any(q.op == "fnc" for q in walk(r0[j0])):
            # order statistics: rebuild, repeated values collapse
            def f(n):
                if n.op == "fnc":
                    return redval(n.args[0], [P(x) for x in n.args[1:]])
                return None
            return P(subst(v, {m: row(m) for m in walk(v) if m.op == "pcell"}, None, f))
        return P(subst(v, {m: row(m) for m in walk(v) if m.op == "pcell"}))
    return {(j0, j1): compose(j0, j1) for j0 in range(len(r0)) for j1 in range(len(r1))}


def witness(S):
    """(kind, text) of a concrete disagreement between the extracted relation and the documented one, or None"""
    k = len(S.axes)
    L_ = [p.as_atom() for p in S.L]
    if None in L_:
        return None, "symbolic length"
    stats = [p.as_atom() for q in S.sl for p in q if p is not None]
    tried = 0
    reason = ""
    if k == 1:
        sizes = [(((L, pb, pa),), sv) for L in range(1, 6) for pb, pa in sorted(product(range(0, 2 * L + 3), repeat=2), key=sum)
                 for sv in product(*[(1, 0, 2, L, L + 2) for _ in stats])]
    else:
        one = [(3, 0, 0), (3, 1, 0), (3, 0, 1), (2, 1, 2), (3, 4, 2), (4, 2, 5), (1, 2, 1), (4, 9, 3)]
        sizes = [(q, sv) for q in product(one, repeat=2) for sv in ([tuple((q[i % 2][0] * 7 + 3 * i) % 5 for i in range(len(stats)))] if stats else [()])]
    # ranks and axes (only conditions may depend on them)
    nv = S.m.rank_of(S.x).as_atom()
    places = []
    for n_ in (1, 2, 3, 5):
        for ax in product(range(n_), repeat=k + (S.b is not None)):
            e = dict(zip([a.as_atom() for a in S.axes] + ([S.b.as_atom()] if S.b is not None else []), ax))
            if isinstance(nv, Node):
                e[nv] = n_
            e.pop(None, None)
            try:
                if all(evc(f, e) for f in S.facts if only(f, e)):
                    places.append(e)
            except NoEval:
                pass
    for at_, (sz, sv) in enumerate(sizes):
        env = {S.w.isym(f"{q}{i}{c}").as_atom(): (at_ + 2 * i + (c == "a")) % 4 for q in "ps" for i in (0, 1) for c in "ba"}
        env.update(zip(stats, sv))
        if places:
            env.update(places[at_ * 7 % len(places)])
        for l, b, a, (L, pb, pa) in zip(L_, S.pb, S.pa, sz):
            env[l] = L
            if b != ZERO:
                env.update({b.as_atom(): pb, a.as_atom(): pa})
        if any(b == ZERO and q[1:] != (0, 0) for b, q in zip(S.pb, sz)):
            continue
        try:
            if not all(evc(f, env) for f in S.r.pc0 if only(f, env)):
                continue
            want = oracle2(S, sz, env)
            at = "; ".join(f"length {L}, pad width ({pb}, {pa})" for L, pb, pa in sz) + (f", stat_length {sv}" if stats else "")
            got = Conc(S, env).poly(S.R)
        except NoEval as e:
            reason = str(e)
            continue
        except Trip as e:
            return "law", f"{at}: {e}"
        except ZeroDivisionError:
            return "law", f"{at}: division by zero"
        tried += 1
        wsh = tuple(L + pb + pa + (L % 2 if m == "periodize" else 0) for m, (L, pb, pa) in zip(S.modes, sz))
        if got.sh != wsh:
            return "place", f"{at}: the result has shape {got.sh} instead of {wsh} along the padded axes"
        first = None
        for j in product(*[range(q) for q in wsh]):
            centre = all(pb <= i < pb + L for i, (L, pb, pa) in zip(j, sz))
            g = got.d[j]
            if any(m == "empty" and not pb <= i < pb + L for m, i, (L, pb, pa) in zip(S.modes, j, sz)):
                continue
            e = want[j]
            if g != e:
                js = j if k > 1 else j[0]
                if any(q.op == "uninit" for q in walk(g)):
                    return "uninit", f"{at}: position {js} is computed from memory that was never written"
                if centre:
                    return "place", f"{at}: position {js} holds {show(g, 8)} instead of the original element {show(e, 8)}"
                first = first or f"{at}: position {js} holds {show(g, 8)} where the extension is {show(e, 8)}"
        if first:
            return "law", first
    return None, f"{tried} sizes agree" + (f"; {reason}" if reason else "")


def only(f, env):
    return isinstance(f, Node) and all(q in env for q in catoms(f) if q.op not in ("mod", "min", "max", "floordiv"))


def analyse(case, w, r):
    """('ok', n) | ('bad', kind, text) | ('und', text)"""
    S = Setup(case, w, r)
    # shape
    sh = []
    for i, a in enumerate(S.axes):
        d = S.m.dim_of(S.R.as_atom() if S.R.as_atom() is not None else S.R, a)
        if d != S.N[i] and not entails(list(S.facts), eq0(sub(d, S.N[i]))):
            sh.append((a, d))
    try:
        if sh:
            raise NoAccess(f"length {show(sh[0][1], 6)} instead of {show(S.N[0], 6)}")
        P_ = Proof(S)
        n = P_.result()
        return ("ok", n, P_.nloops)
    except NoAccess as e:
        why = str(e)
    kind, text = witness(S)
    if kind:
        return ("bad", kind, text, why)
    return ("und", f"{why} (witness search: {text})")


def pad_cases(ctx):
    out = []
    for c in cases():
        m = c.info.get("mode")
        if m is None or ".default" in c.id:
            continue
        out.append(c)
    return out


def c08(ctx):
    return _pad(ctx, "padding-placement", ("place", "uninit"))


def c09(ctx):
    return _pad(ctx, "extension-law", ("law", "uninit"))


def _pad(ctx, rule, kinds):
    def one(case):
        def f(w, r):
            if not r.returns:
                return []
            if r.undecided:
                return [und_of(rule, case, r)]
            a = analyse(case, w, r)
            if a[0] == "ok":
                return [ok(rule, case.entry, f"case {case.id}: {a[1]} access pieces, {a[2]} loops summarised, all follow the {case.info['mode']} extension")]
            if a[0] == "bad":
                if a[1] in kinds:
                    return [bad(rule, f"{case.entry}[{case.info['mode']}]", f"case {case.id}: {a[2]} [{a[3]}]")]
                return [und(rule, case.entry, f"case {case.id}: {a[3]}")]
            return [und(rule, case.entry, f"case {case.id}: {a[1]}")]
        return run_case(ctx, case, rule, f)
    return ctx.map(one, pad_cases(ctx))
