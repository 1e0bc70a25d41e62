"""C01..C06: effects of every documented call, decided on the interpreted calls of the catalog."""
from ..catalog import *
from ..prov import *
from ..report import ok, bad, und

DIM_ONLY = {"pad.to_same"}


def und_of(rule, case, r):
    """obligation for a call the analysis could not interpret completely"""
    u = list(dict.fromkeys(r.undecided))[:3]
    return und(rule, case.entry, f"case {case.id}: " + "; ".join(f"{x[0]}:{x[1]} {x[3]}" for x in u))


def run_case(ctx, case, rule, f, tags=None):
    """interpret the case; f(w, r) -> obligations; falls back to one 'ok' or 'undecided' obligation"""
    w, r = case.run(ctx.src)
    out = f(w, r)
    if not out:
        if r.undecided or r.returns is None:
            out = [und_of(rule, case, r)]
        else:
            out = [ok(rule, case.entry, f"case {case.id}")]
    return out


def all_cases(ctx, pred=None):
    return [c for c in cases() if pred is None or pred(c)]


# ------------------------------------------------------------------ C01
def oname(w, oid):
    r = w.st.heap.get(oid)
    if r is None:
        return f"object {oid}"
    if r.kind == "cell":
        for n in walk(r.d.get("term0", r.term) if r.term is not None else ()):
            if n.op == "tin":
                return f"input tensor {n.args[0]}"
        return "input tensor"
    return "caller's " + r.kind


def c01(ctx):
    def one(case):
        def f(w, r):
            out = []
            for e in r.events:
                if e.kind == "mutate" and e.data.get("owner") == "input":
                    out.append(bad("caller-object-mutated", f"{e.func}<-{case.entry}",
                                   f"{oname(w, e.data['oid'])} may be modified in place by {e.data['how']}"
                                   f"{' (through an alias)' if e.data.get('may') else ''} at {e.file}:{e.line} in case {case.id}",
                                   e.where))
            return out
        return run_case(ctx, case, "caller-object-mutated", f)
    return ctx.map(one, all_cases(ctx))


# ------------------------------------------------------------------ C02 / C03
def prov_pass(ctx, kind, rule):
    def one(case):
        if case.id == "misc.describe" or case.id in DIM_ONLY:
            return []

        def f(w, r):
            out = []
            if not r.returns:
                return out
            pv = Prov(w.ip, kind)
            sus = bool(r.undecided)
            for path, t, oid in r.terms():
                if oid is None and not any(n.op == "tin" for n in walk(t)):
                    continue
                s = pv.of(t)
                wrong = sorted(x for x in s if x not in (IN, PAR, TOP))
                if TOP in s:
                    out.append(und(rule, case.entry, f"case {case.id}: provenance of part of the result unknown"))
                if wrong and not (oid is None and set(wrong) <= {PY}):
                    out.append(bad(rule, case.entry, f"the result of case {case.id} can have {kind} "
                                   f"{', '.join(x.replace('fix:', '') for x in wrong)} instead of the input's"))
            for node, (a, b) in pv.conf.items():
                if IN in (a, b) or PAR in (a, b):
                    out.append(bad(rule, case.entry, f"case {case.id} mixes the input's {kind} with {a if b in (IN, PAR) else b}: {show(node, 3)[:200]}"))
            if kind == "device":
                seen = set()
                for path, t, oid in r.terms():
                    for n in deep_walk(w.ip, t, seen):
                        if n.op == "numpy" and has_tin(w.ip, n.args):
                            out.append(bad(rule, case.entry, f"case {case.id}: .numpy() on data derived from the input only works on the CPU"))
                        if n.op == "cast" and isinstance(n.args[2], Node) and n.args[2].op == "device_lit" and has_tin(w.ip, n.args[0]):
                            out.append(bad(rule, case.entry, f"case {case.id}: input data moved to hard-coded device {n.args[2].args[0]}"))
            else:
                seen = set()
                for path, t, oid in r.terms():
                    for n in deep_walk(w.ip, t, seen):
                        if n.op == "cast" and isinstance(n.args[1], Node) and n.args[1].op in ("ext", "dtype_lit") and has_tin(w.ip, n.args[0]) \
                                and "bool" not in str(n.args[1].args[0]):
                            out.append(bad(rule, case.entry, f"case {case.id}: values derived from the input are rounded through the hard-coded dtype {n.args[1].args[0]}"))
            if sus:
                out = [und(o.rule, o.construct, o.text) if o.status == "violation" else o for o in out]
            return out
        return run_case(ctx, case, rule, f)
    return ctx.map(one, all_cases(ctx))


def deep_walk(ip, t, seen):
    stack = [t]
    while stack:
        for n in walk(stack.pop(), seen):
            yield n
            if n.op == "mu":
                d = ip.mu_defs.get(n)
                if d:
                    stack.extend(x for x in d if isinstance(x, (Poly, Node)))


def c02(ctx):
    return prov_pass(ctx, "device", "device-follows-input")


def c03(ctx):
    return prov_pass(ctx, "dtype", "dtype-follows-input")


# ------------------------------------------------------------------ C04
def c04(ctx):
    rule = "gradient-path"

    def one(case):
        if case.id == "misc.describe" or case.id in DIM_ONLY or case.id == "misc.poly1d.1":  # scalars; int; constant
            return []

        def f(w, r):
            out = []
            if not r.returns:
                return out
            want = set(image_inputs(w))
            parts = r.terms()
            ins, cuts = grad_walk(w.ip, [t for _, t, _ in parts])
            for n, what in cuts:
                out.append(bad(rule, case.entry, f"case {case.id}: gradient is cut by {what} on a value path from the input: {show(n, 3)[:160]}"))
            miss = want - ins
            if miss:
                out.append(bad(rule, case.entry, f"case {case.id}: the result does not depend differentiably on {', '.join(sorted(n.args[0] for n in miss))}"))
            if r.undecided:
                out = [und(o.rule, o.construct, o.text) for o in out]
            return out
        return run_case(ctx, case, rule, f)
    return ctx.map(one, all_cases(ctx))


def image_inputs(w):
    """tin nodes of the caller's tensors in this scenario"""
    out = []
    for oid, r in w.st.heap.items():
        if r.kind == "cell" and r.owner == "input" and r.d.get("tin") is not None:
            out.append(r.d["tin"])
    return out or [n for n in w.ip.rank if isinstance(n, Node) and n.op == "tin"]


# ------------------------------------------------------------------ C05
def c05(ctx):
    rule = "randomness-from-generator"

    def one(case):
        def f(w, r):
            out = []
            rnd = "random" in case.tags
            for e in w.ip.events:
                if e.kind == "rng":
                    g = e.data.get("generator")
                    if not rnd:
                        out.append(bad(rule, f"{e.func}<-{case.entry}", f"case {case.id} draws random numbers with {e.data['fn']}", e.where))
                    elif "seed" in e.data["fn"] or "rng_state" in e.data["fn"]:
                        out.append(bad(rule, f"{e.func}<-{case.entry}", f"case {case.id} touches generator state with {e.data['fn']}", e.where))
                    elif not (isinstance(g, Node) and g.op == "sym" and g.args[0] == "gen"):
                        out.append(bad(rule, f"{e.func}<-{case.entry}", f"case {case.id}: {e.data['fn']} does not use the generator given by the caller", e.where))
            return out
        return run_case(ctx, case, rule, f)
    return ctx.map(one, all_cases(ctx))


# ------------------------------------------------------------------ C06
def same_terms(wa, ta, wb, tb):
    """equality of two term lists including the definitions of the loop variables they mention -> (True: differ | False: same | None: unclear, text)"""
    if len(ta) != len(tb):
        return True, "different result structure"
    for (pa, x, _), (pb, y, _) in zip(ta, tb):
        if pa != pb:
            return True, "different result structure"
        q = x == y or meta_equal(x, y)
        if q is None:
            return None, "agreement depends on dtype/device conditions of the earlier call"
        if not q:
            return True, f"{show(x, 4)[:240]}   instead of   {show(y, 4)[:240]}"
        seen = set()
        for n in deep_walk(wb.ip, y, seen):
            if n.op in ("mu", "imu", "bmu"):
                da, db = wa.ip.mu_defs.get(n), wb.ip.mu_defs.get(n)
                if da != db:
                    return True, f"loop value {show(n)}: {show(da, 4)[:160]} instead of {show(db, 4)[:160]}"
    return False, ""


def meta_equal(x, y):
    """True when x and y agree in every case of the dtype/device equalities the history run branched on, None when
    that is unclear, False when they differ otherwise"""
    conds, meta = set(), {}
    for t in (x, y):
        for n in walk(t):
            if n.op in ("dtype", "device"):
                meta[n] = N_("sym", n.op)
            elif t is x and n.op == "pred" and n.args[0] == "==" and len(n.args) == 3 and \
                    all(isinstance(u, Node) and u.op in ("dtype", "device") for u in n.args[1:]):
                conds.add(n)
    if not conds or subst(x, meta) != subst(y, meta):
        return False
    m = {c: False for c in conds}
    return True if subst(x, m) == subst(y, m) else None


def c06(ctx):
    rule = "history-independence"

    def one(case):
        def prep():
            w = World(ctx.src)
            f1, a1, k1 = case.build(w)
            w.suffix = "@2"
            f2, a2, k2 = case.build(w)
            w.suffix = ""
            return w, (f1, a1, k1), (f2, a2, k2)
        out = []
        wa, (f1, a1, k1), (f2, a2, k2) = prep()
        pc0 = wa.st.pc
        r1 = wa.run(f1, *a1, **k1)
        if not r1.returns or r1.undecided:
            return [und_of(rule, case, r1)]
        wr = dict(wa.ip.written)
        wa.st.pc = pc0
        snap, sn, ct = wa.st.clone(), dict(wa.ip.site_n), wa.ip._ctr
        ln = dict(wa.ip.loop_n)
        for what, f in (("a second call on the same object", "f1"), ("a call on another object", "f2")):
            wa.ip.st.become(snap.clone())
            wa.ip.site_n, wa.ip._ctr = dict(sn), ct
            wa.ip.loop_n = dict(ln)
            wa.ip.mu_defs, wa.ip.mu_ids = dict(wa.ip.mu_defs), {}
            rh = wa.run({"f1": f1, "f2": f2}[f], *a2, **k2)
            th = rh.terms() if rh.returns else []
            wb, (g1, _, _), (g2, b2, kb2) = prep()
            wb.ip.site_n, wb.ip._ctr = dict(sn), ct
            wb.ip.loop_n = dict(ln)
            rf = wb.run({"f1": g1, "f2": g2}[f], *b2, **kb2)
            tf = rf.terms() if rf.returns else []
            if rh.undecided or rf.undecided or rh.returns is None or rf.returns is None:
                out.append(und_of(rule, case, rh if rh.undecided else rf))
                continue
            if rh.returns != rf.returns:
                q, d = True, "raises only with / only without an earlier call"
            else:
                q, d = same_terms(wa, th, wb, tf)
            if q is None:
                out.append(und(rule, case.entry, f"case {case.id}: {what}: {d}"))
            elif q:
                ws = "; ".join(f"{x[0]}:{x[1]} {x[2]} writes {k[-1] if k[0] != 'cell' else 'a retained tensor'}" for k, x in list(wr.items())[:3])
                out.append(bad(rule, case.entry, f"case {case.id}: {what} depends on the earlier call: {d}" + (f" [state written: {ws}]" if ws else "")))
            else:
                out.append(ok(rule, case.entry, f"case {case.id}: {what}; {len(wr)} retained locations written"))
        return out
    return ctx.map(one, all_cases(ctx))
