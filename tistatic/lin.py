"""Linear entailment over term atoms (Fourier-Motzkin, rationals + integer tightening).

facts: iterable of boolean Nodes known to hold.  entails(facts, goal) -> True when the
goal follows; False only means "not shown"."""
from fractions import Fraction
import math
from .terms import *
from .terms import ge0, gt0, eq0, not_


def _lits(facts):
    out = []
    st = list(facts)
    while st:
        c = st.pop()
        if c is True:
            continue
        if c is False:
            out.append(("false", None))
            continue
        if isinstance(c, Node) and c.op == "and":
            st.extend(c.args)
        elif isinstance(c, Node) and c.op in ("ge0", "gt0", "eq0"):
            out.append((c.op, c.args[0]))
            p = c.args[0]
            if c.op == "ge0" and len(p.t) <= 2:
                # c*q + d >= 0 for q = x // k (k > 0): exact linear consequence on x
                for m, co in p.t.items():
                    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "floordiv" and len(p.t) == (2 if p.const else 1):
                        x, k = m[0][0].args
                        x, k = P(x), P(k)
                        b = -p.const / co
                        if co > 0:       # q >= b
                            out.append(("ge0", sub(x, mul(const(math.ceil(b)), k))))
                        else:            # q <= b
                            out.append(("ge0", sub(sub(mul(const(math.floor(b) + 1), k), x), ONE)))
    return out


def _auto(polys, limit=60):
    """defining facts of the atoms that occur (min, max, mod, floordiv, dims ...)"""
    facts = []
    splits = []
    seen = set()
    todo = list(polys)
    while todo and len(seen) < limit:
        p = todo.pop()
        for a in p.atoms():
            if a in seen:
                continue
            seen.add(a)
            pa = P(a)
            if a.op == "min":
                for x in a.args:
                    facts.append(("ge0", sub(x, pa)))
                    todo.append(x)
                splits.append(a)
            elif a.op == "max":
                for x in a.args:
                    facts.append(("ge0", sub(pa, x)))
                    todo.append(x)
                splits.append(a)
            elif a.op == "mod":
                k = a.args[1]
                facts.append(("ge0", pa))
                facts.append(("ge0", sub(sub(k, pa), ONE)) if is_int(pa) else ("gt0", sub(k, pa)))
                q = floordiv(a.args[0], k)
                if is_int(pa):
                    facts.append(("eq0", sub(a.args[0], add(mul(k, q), pa))))
                    todo += [a.args[0], q]
            elif a.op == "floordiv":
                x, k = a.args
                # k*q <= x <= k*q + k - 1   (k > 0 assumed by callers through facts)
                kq = mul(k, pa)
                facts.append(("ge0", sub(x, kq)))
                facts.append(("ge0", sub(add(kq, k), add(x, ONE))))
                todo += [x, k]
            elif a.op == "ceil":
                facts.append(("ge0", sub(pa, a.args[0])))
                facts.append(("gt0", sub(add(a.args[0], ONE), pa)))
                todo.append(a.args[0])
            elif a.op == "dim":
                facts.append(("ge0", sub(pa, ONE)))
            elif a.op in ("len", "rank", "ndslen"):
                facts.append(("ge0", pa))
            elif a.op == "phi":
                splits.append(a)
                for x in a.args[1:]:
                    if isinstance(x, Poly):
                        todo.append(x)
    return facts, splits


def _unsat(lits, maxc=600):
    """True if the conjunction is infeasible over the rationals"""
    ineq = []   # (coef dict mono->Fraction, strict)  meaning sum >= 0 / > 0
    eqs = []
    for op, p in lits:
        if op == "false":
            return True
        if op == "eq0":
            eqs.append(dict(p.t))
        elif op == "ge0":
            ineq.append((dict(p.t), False))
        else:
            ineq.append((dict(p.t), True))
    # eliminate equalities
    while eqs:
        e = eqs.pop()
        vs = [m for m in e if m != ()]
        if not vs:
            if e.get((), 0) != 0:
                return True
            continue
        v = min(vs, key=lambda m: (abs(e[m]) != 1, len(m)))
        c = e[v]

        def el(d):
            k = d.get(v)
            if not k:
                return d
            r = dict(d)
            for m, x in e.items():
                y = r.get(m, 0) - k / c * x
                if y:
                    r[m] = y
                else:
                    r.pop(m, None)
            return r
        eqs = [el(d) for d in eqs]
        ineq = [(el(d), s) for d, s in ineq]
    while True:
        vs = {}
        clean = []
        seen = set()
        for d, s in ineq:
            if not any(m != () for m in d):
                k = d.get((), 0)
                if k < 0 or (s and k == 0):
                    return True
                continue
            key = (frozenset(d.items()), s)
            if key in seen:
                continue
            seen.add(key)
            clean.append((d, s))
            for m, c in d.items():
                if m != ():
                    a, b = vs.get(m, (0, 0))
                    vs[m] = (a + 1, b) if c > 0 else (a, b + 1)
        ineq = clean
        if not vs:
            return False
        if len(ineq) > maxc:
            return False
        v = min(vs, key=lambda m: vs[m][0] * vs[m][1])
        pos = [(d, s) for d, s in ineq if d.get(v, 0) > 0]
        ngt = [(d, s) for d, s in ineq if d.get(v, 0) < 0]
        rest = [(d, s) for d, s in ineq if not d.get(v)]
        for d1, s1 in pos:
            for d2, s2 in ngt:
                r = {}
                k1, k2 = -d2[v], d1[v]
                for m, c in d1.items():
                    r[m] = r.get(m, 0) + k1 * c
                for m, c in d2.items():
                    r[m] = r.get(m, 0) + k2 * c
                r = {m: c for m, c in r.items() if c}
                rest.append((r, s1 or s2))
        ineq = rest


def unsat(facts, depth=3):
    lits = _lits(facts)
    # syntactic contradiction among non-linear literals
    flat = set()
    st = list(facts)
    while st:
        c = st.pop()
        if isinstance(c, Node) and c.op == "and":
            st.extend(c.args)
        elif isinstance(c, Node):
            flat.add(c)
    for c in flat:
        n = not_(c)
        if n in flat:
            return True
    ors = [c for c in flat if c.op == "or"]
    for c in ors:
        if any(a in flat for a in c.args):
            continue
        if all(not_(a) in flat for a in c.args):
            return True
    auto, splits = _auto([p for _, p in lits if p is not None])
    base = lits + auto
    if _unsat(base):
        return True
    if depth <= 0:
        return False
    for c in ors:
        if any(a in flat for a in c.args):
            continue
        others = [x for x in flat if x is not c]
        return all(unsat(others + [a], depth - 1) for a in c.args)
    for a in splits[:4]:
        if a.op in ("min", "max") and len(a.args) == 2:
            x, y = a.args
            c1 = ge0(sub(y, x))
            c2 = ge0(sub(x, y))
            lo = x if a.op == "min" else y
            hi = y if a.op == "min" else x

            def sub_all(v):
                return [subst(f, {a: v}) for f in flat]
            r1 = True if c1 is False else unsat(sub_all(lo) + [c1], depth - 1)
            if not r1:
                return False
            return True if c2 is False else unsat(sub_all(hi) + [c2], depth - 1)
        if a.op == "phi" and all(isinstance(v, Poly) for v in a.args[1:]):
            c, x, y = a.args
            return (unsat([subst(f, {a: x}) for f in flat] + [c], depth - 1)
                    and unsat([subst(f, {a: y}) for f in flat] + [not_(c)], depth - 1))
    return False


def entails(facts, goal, depth=3):
    if isinstance(goal, bool):
        return goal
    facts = [f for f in facts if not isinstance(f, bool) or f is False]
    if any(f is False for f in facts):
        return True
    if goal in facts:
        return True
    if goal.op == "and":
        return all(entails(facts, g, depth) for g in goal.args)
    if goal.op == "eq0":
        p = goal.args[0]
        return entails(facts, ge0(p), depth) and entails(facts, ge0(neg(p)), depth)
    if goal.op == "or":
        return unsat(list(facts) + [not_(g) for g in goal.args], depth)
    return unsat(list(facts) + [not_(goal)], depth)
