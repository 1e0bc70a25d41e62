"""Functional correctness: the access relation of a call equals that of its reference definition."""
import ast
from ..catalog import *
from ..catalog import symker, maybe_empty, same_shape, pw
from ..nf import *
from ..nf import NF, Pads, search
from ..refs import SOURCE
from ..models import is_tensor_node
from ..report import ok, bad, und
from .effects import und_of

REF = ("<reference>", ast.parse(SOURCE), False)


class FCase:
    def __init__(self, id, entry, build, **info):
        self.id, self.entry, self.build, self.info = id, entry, build, info


def with_ref(src):
    if "tiref" not in src.files:
        src.files["tiref"] = REF
    return src


class NoSummary(Exception):
    pass


def pad_spec(w, st, o, x, axes):
    """(axes, widths, modes, parameters) of Padder.forward from the padder's documented attributes"""
    ip, m = w.ip, w.ip.m
    ax = ip.call(st, w.get("utils.validation.check_axes"), [x, axes], {})
    if not isinstance(ax, TUP) or not all(isinstance(a, N) for a in ax.items):
        raise NoSummary("axes")
    axs = [a.p for a in ax.items]
    at = {}
    for n in ("pad_width", "mode", "constant_values", "end_values", "stat_length"):
        v = st.heap[o.oid].attrs.get(n)
        v = ip.one(st, v) if v is not None else None
        if not isinstance(v, NDS):
            raise NoSummary(n)
        at[n] = v
    ks = {len(v.items) for v in at.values() if v.kind == "seq"}
    if len(ks) > 1:
        raise NoSummary("lengths")
    k = min([len(axs)] + list(ks))
    if k == 0:
        return None
    out = []

    def pair(v):
        if not isinstance(v, TUP) or len(v.items) != 2:
            raise NoSummary("pair")
        r = []
        for q in v.items:
            if q == NONE:
                r.append(None)
            elif isinstance(q, N):
                r.append(q.p)
            elif isinstance(q, S):
                r.append(P(q.n))
            else:
                raise NoSummary("parameter")
        return tuple(r)
    for i in range(-k, 0):
        g = {n: (v.items[0] if v.kind == "item" else v.items[i]) for n, v in at.items()}
        mode = g["mode"]
        if not isinstance(mode, K) or not isinstance(mode.v, str):
            raise NoSummary("mode")
        wd = pair(g["pad_width"])
        if None in wd:
            raise NoSummary("width")
        if wd == (ZERO, ZERO):
            continue
        par = {"constant": "constant_values", "linear_ramp": "end_values"}.get(mode.v, "stat_length" if mode.v in ("maximum", "mean", "median", "minimum") else None)
        out.append((axs[i], wd, mode.v, pair(g[par]) if par else ()))
    return tuple(zip(*out)) if out else None


def summarise_padding(w):
    """Padder.forward is replaced by its specification (decided by C08/C09): an opaque leaf over the input, the axes,
    the widths, the modes and their parameters"""
    ip = w.ip
    fn = w.get("padding.Padder.forward")
    key = (fn.mod, fn.qual)

    def h(st, fn, args, kwargs):
        names = ["self", "x", "axes"]
        kw = dict(zip(names, args))
        kw.update(kwargs)
        try:
            if set(kw) - set(names) or "x" not in kw:
                raise NoSummary("signature")
            x = ip.one(st, kw["x"])
            axes = kw.get("axes", SLC(num(2), NONE, NONE))
            if not isinstance(x, T):
                raise NoSummary("input")
            spec = pad_spec(w, st, kw["self"], x, axes)
        except NoSummary:
            h0 = ip.intrinsics.pop(key)
            try:
                return ip.call_fn(st, fn, args, kwargs)
            finally:
                ip.intrinsics[key] = h0
        t = ip.m.cell_term(st, x.oid)
        if spec is None:
            return x
        n = N_("padded", t, *spec)
        ip.rank[n] = ip.m.rank_of(t)
        return ip.cell(st, P(n))
    ip.intrinsics[key] = h


class Fun:
    """one interpreted call and its reference"""

    def __init__(self, ctx, case, pads=True):
        self.w = w = World(with_ref(ctx.src))
        if pads:
            summarise_padding(w)
        d = case.build(w)
        self.d = d
        w.ip.phase = "call"
        snap = w.st.clone()
        self.r = w.run(d["f"], *d["args"], **d.get("kw", {}))
        self.terms = self.r.terms() if self.r.returns else None
        self.rr = None
        if "ref" in d:
            w.st.become(snap.clone())
            ref = w.ip.lookup("tiref." + d["ref"])
            self.rr = w.run(ref, *d["rargs"])
            self.rterms = self.rr.terms() if self.rr.returns else None


def index(w, t, facts, d, pre="j"):
    """symbolic index of every axis of a tensor of known rank, or of the tracked axes"""
    m = w.ip.m
    n = m.rank_of(t)
    idx, fs = {}, []
    k = n.as_int()
    axes = [const(i) for i in range(k)] if k is not None else [a for a in d.get("axes", ())] + [a for a in d.get("other", ())]
    sub2 = d.get("index")
    for i, a in enumerate(axes):
        j = w.isym(f"{pre}{i}")
        if sub2 and k is not None and i in sub2:
            j = sub2[i](w)
        idx[sub(a, n)] = j
        dd = m.dim_of(t, a)
        fs += [ge0(j), gt0(sub(dd, j))]
    return idx, [f for f in fs if f is not True], axes


def compare(F, case, rule):
    """obligations for one functional case"""
    w, d = F.w, F.d
    con = case.entry
    if F.r.undecided or F.r.returns is None:
        return [und_of(rule, case, F.r)]
    if F.r.returns is False:
        return [bad(rule, con, f"case {case.id}: the call never returns")]
    m = w.ip.m
    base = tuple(dict.fromkeys(f for f in F.r.pc0 if isinstance(f, Node)))
    pads = Pads()
    axsy = [a.as_atom() for a in list(d.get("axes", ())) + list(d.get("other", ())) if a.as_atom() is not None]
    A = F.terms
    if d.get("draws"):
        A = name_draws(F)
        base = base + d["drawn"]
    A = strip_items(w, A)
    if F.rr is not None and F.rterms:
        F.rterms = strip_items(w, F.rterms)
    if "expect" in d:
        A, B = flatten(A), d["expect"](w)
    else:
        if F.rr.undecided or not F.rr.returns:
            return [und(rule, con, f"case {case.id}: reference: " + "; ".join(str(x[3]) for x in F.rr.undecided[:2]))]
        B = [Want(ta, p) for p, ta, _ in F.rterms]
    v = F.r.value
    if isinstance(v, U) and len(B) == 1 and B[0].path == ():
        out = []
        for c, x in v.alts:
            b2 = base + tuple(d.get("facts", ())) + (() if c is True else (c,))
            if isinstance(x, T):
                t = next(t for _, t, o in A if o == x.oid)
                out += compare_one(w, d, rule, con, f"case {case.id}", t, B[0], b2, pads, axsy)
            else:
                try:
                    wit = search(pads, b2, ZERO, ONE, axsy) if isinstance(x, K) else None
                except NoEval:
                    wit = None
                out.append((bad if wit else und)(rule, con, f"case {case.id}: one of the results is {x} instead of a tensor" + (f": {wit}" if wit else "")))
        return out
    if [p for p, _, _ in A] != [q.path for q in B]:
        if any("alt" in str(x) for p, _, _ in A for x in p):
            return [und(rule, con, f"case {case.id}: result alternatives {[p for p, _, _ in A]}")]
        return [bad(rule, con, f"case {case.id}: the result is structured as {[p for p, _, _ in A]} instead of {[q.path for q in B]}")]
    out = []
    for (path, ta, oa), want in zip(A, B):
        what = f"case {case.id}" + (f" result {path}" if path else "")
        base2 = base + tuple(d.get("facts", ()))
        o = compare_one(w, d, rule, con, what, ta, want, base2, pads, axsy)
        if o[0].status == "ok":
            f = fits(w, ta, base2, pads, axsy)
            if f:
                o = [bad(rule, con, f"{what}: the shapes do not fit: {f[0]}")]
        out += o
    return out


def flatten(A):
    return A


def strip_items(w, terms):
    """.item() of a tensor without axes is its cell"""
    out = []
    for p, t, o in terms:
        m = {n: n.args[0] for n in walk(t) if n.op == "item_" and isinstance(n.args[0], Poly) and w.ip.m.rank_of(n.args[0]) == ZERO}
        out.append((p, P(subst(t, m)) if m else t, o))
    return out


def name_draws(F):
    """integer draws of both runs become symbols: the i-th draw from the same range and generator is the same symbol"""
    syms, facts = {}, []

    def rename(terms, events):
        order = {e.data["site"]: i for i, e in reversed(list(enumerate(events)))}
        seen = set()
        found = [n for _, t, _ in terms for n in walk(t, seen) if n.op == "item_" and isinstance(n.args[0], Poly)
                 and n.args[0].as_atom() is not None and n.args[0].as_atom().op == "randint"]
        count, m = {}, {}
        for n in sorted(set(found), key=lambda n: order.get(n.args[0].as_atom().args[2], 1 << 30)):
            lo, hi, site, gen = n.args[0].as_atom().args[:4]
            k = (lo, hi, gen)
            i = count[k] = count.get(k, -1) + 1
            if k + (i,) not in syms:
                v = syms[k + (i,)] = F.w.isym(f"draw{len(syms)}")
                facts.extend([ge0(sub(v, lo)), gt0(sub(hi, v))])
            m[n] = syms[k + (i,)]
        return [(p, subst(t, m) if m else t, o) for p, t, o in terms]
    A = rename(F.terms, [e for e in F.r.events if e.kind == "rng"])
    if F.rr is not None and F.rterms:
        F.rterms = rename(F.rterms, [e for e in F.rr.events if e.kind == "rng"])
    F.d["drawn"] = tuple(f for f in facts if isinstance(f, Node))
    return A


class Want:
    """expected result: a reference term, or a shape and a cell function"""

    def __init__(self, term=None, path=(), shape=None, cell=None, slices=None, rank=None):
        self.term, self.path, self.shape, self.cell, self.slices, self.rank = term, path, shape, cell, slices, rank


def compare_one(w, d, rule, con, what, ta, want, base, pads, axsy):
    m = w.ip.m
    ra = m.rank_of(ta)
    rb = m.rank_of(want.term) if want.term is not None else const(len(want.shape)) if want.shape is not None else P(want.rank)
    if ra != rb:
        if ra.is_const and rb.is_const:
            return [bad(rule, con, f"{what}: the result has {show(ra)} axes instead of {show(rb)}")]
        return [und(rule, con, f"{what}: rank {show(ra)} / {show(rb)}")]
    k = rb.as_int()
    axes = [const(i) for i in range(k)] if k is not None else list(d.get("axes", ())) + list(d.get("other", ()))
    nf = NF(w.ip, base, pads)
    dims = []
    for i, a in enumerate(axes):
        da = m.dim_of(ta, a)
        db = want.shape[i] if want.shape is not None else m.dim_of(want.term, a)
        dims.append(db)
        if da == db or nf.equal(da, db, ()):
            continue
        try:
            wit = search(pads, nf.base, da, db, axsy)
        except NoEval:
            wit = None
        return [(bad if wit else und)(rule, con, f"{what}: length of axis {show(a)} is {show(da, 12)[:700]} instead of {show(db, 6)[:160]}" + (f": {wit}" if wit else ""))]
    slices = want.slices(w) if want.slices else [("", {})]
    out = []
    npieces, sample = 0, ""
    for lab, fix in slices:
        idx, fs = {}, []
        for i, a in enumerate(axes):
            j = P(fix[i]) if i in fix else w.isym(f"j{i}")
            idx[sub(a, rb)] = j
            fs += [ge0(j), gt0(sub(dims[i], j))]
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            continue
        if lab:
            lab = f" at {lab}"
        nf = NF(w.ip, base + tuple(fs), pads)
        try:
            if want.term is not None:
                pb = NF(w.ip, nf.base, pads).cell(want.term, dict(idx))
            else:
                at = [idx[sub(a, rb)] for a in axes]
                pb = [((), P(want.cell(at, nf) if want.cell.__code__.co_argcount > 1 else want.cell(at)))]
            pa = nf.cell(ta, dict(idx))
            bads = nf.disagree(pa, pb, ())
        except NoAccess as e:
            return out + [und(rule, con, f"{what}{lab}: {e}")]
        npieces += len(pa)
        sample = sample or show(pa[0][1], 5)[:160]
        if not bads:
            continue
        pads.acc = nf
        r = None
        for fs2, a, b in bads[:12]:
            txt = f"{what}{lab}: a cell is {show(a, 7)[:200]} instead of {show(b, 7)[:200]}"
            try:
                wit = search(pads, nf.base + tuple(fs2), a, b, axsy)
            except NoEval as e:
                r = r or und(rule, con, txt + f" (not shown equal, no value: {e})")
                continue
            if wit:
                r = bad(rule, con, txt + f": {wit}")
                break
            r = r or und(rule, con, txt + " (not shown equal)")
        return out + [r]
    return [ok(rule, con, f"{what}: {npieces} piece(s) of {len(slices)} index class(es) equal to the definition, e.g. {sample}")]


def run_cases(ctx, rule, cs, roll=65):
    def one(case):
        NF.roll = roll
        return compare(Fun(ctx, case), case, rule)
    return ctx.map(one, cs)


# ====================================================================== pooling
def K_(s):
    return NONE if s is None else K(s)


def axes_of(w, order):
    """two symbolic axes in a given order, and a third generic axis"""
    k = len(order)
    a = w.axes(k, order if k > 1 else None)
    b = w.isym("b")
    w.fact(ge0(b))
    w.fact(gt0(sub(w.isym("n"), b)))
    for x in a:
        w.fact(not_(eq0(sub(b, x))))
    return a, b


def dims_ge(w, x, axes, sizes):
    """the input is at least as long as the kernel on each axis"""
    t = w.ip.m.cell_term(w.st, x.oid)
    for a, k in zip(axes, sizes):
        w.fact(ge0(sub(w.ip.m.dim_of(t, a), k)))


def lens(w, k):
    if isinstance(k, LST):
        k = w.st.heap[k.oid].c
    return k.len if isinstance(k, SQ) else const(len(k.items))


def pooling_cases():
    out = []

    def add_(id, order, kers, strides, mode, cls="SeparablePoolNd", filt=False, padder=None, sizes=None):
        def build(w):
            a, b = axes_of(w, order)
            ks = kers(w)
            ss = strides(w) if strides else None
            one = len(ks) == 1
            kw = dict(kernel=ks[0] if one else TUP(tuple(ks)))
            if ss is not None:
                kw["stride"] = ss[0] if len(ss) == 1 else TUP(tuple(ss))
            if mode is not None:
                kw["same_padder"] = w.do(w.get("padding.Padder"), mode=K(mode)) if padder else K(mode)
            p = w.do(w.get("pooling." + cls), **kw)
            if filt:
                w.do(w.method(p, "to_filter"))
            x = w.tensor("x")
            k2 = [ks[0 if one else i] for i in range(len(a))]
            if filt:
                s2 = [num(1)] * len(a)
            elif ss is None:
                s2 = [N(lens(w, k), "int") for k in k2]
            else:
                s2 = [ss[0 if len(ss) == 1 else i] for i in range(len(a))]
            if mode is None:
                dims_ge(w, x, a, [lens(w, k) for k in k2])
            for k in k2:
                w.fact(ge0(sub(lens(w, k), ONE)) if "empty" not in id else True)
            ax = w.tup(a)
            return dict(f=w.method(p, "forward"), args=[x, ax], ref="padpool",
                        rargs=[x, ax, TUP(tuple(k2)), TUP(tuple(s2)), K_(mode)], axes=a, other=[b])
        out.append(FCase(id, f"pooling.{cls}.forward", build))
    s1 = lambda w: [symker(w, "ker")]
    s2 = lambda w: [symker(w, "ker0"), symker(w, "ker1")]
    c3 = lambda w: [symker(w, "ker", 3)]
    c23 = lambda w: [symker(w, "ker0", 2), symker(w, "ker1", 3)]

    def st1(w):
        s = w.int("s")
        w.fact(ge0(sub(s.p, ONE)))
        return [s]

    def st2(w):
        r = []
        for i in range(2):
            s = w.int(f"s{i}")
            w.fact(ge0(sub(s.p, ONE)))
            r.append(s)
        return r
    add_("pool.1", (0,), s1, None, None)
    for nm, o in (("asc", (0, 1)), ("desc", (1, 0))):
        add_(f"pool.{nm}", o, s1, None, None)
        add_(f"pool.per.{nm}", o, s2, None, None)
        add_(f"pool.stride.{nm}", o, s1, st1, None)
        add_(f"pool.per.stride.{nm}", o, s2, st2, None)
        add_(f"pool.per23.stride.{nm}", o, c23, st2, None)
        for mode in ("replicate", "zeros", "constant"):
            add_(f"pool.filter.{mode}.{nm}", o, s1, None, mode, filt=True)
            add_(f"pool.filter23.{mode}.{nm}", o, c23, None, mode, filt=True)
        add_(f"pool.filter.per.{nm}", o, s2, None, "replicate", filt=True, padder=True)
        add_(f"pool.same.stride.{nm}", o, s1, st1, "replicate")
        add_(f"pool.same.per.stride.{nm}", o, s2, st2, "replicate")
        add_(f"pool.same.per.{nm}", o, s2, None, "zeros")
        add_(f"pool.filter.reflect.{nm}", o, s1, None, "reflect", filt=True)
    return out


def c11(ctx):
    return run_cases(ctx, "pooling-definition", pooling_cases())


# ====================================================================== shapes of assignments and sums
def fits(w, t, base, pads, axsy):
    """assignments and element-wise operations whose operand shapes are shown to disagree: [(text, witness)]"""
    m = w.ip.m
    out, seen = [], set()

    def clash(what, da, db, conds):
        """da is written into (combined with) db and must be equal or 1"""
        if da == db or da == ONE:
            return
        nf = NF(w.ip, conds, pads)
        if nf.holds((), eq0(sub(da, ONE))) or nf.equal(da, db, ()):
            return
        # both lengths have to be non-trivial for a definite clash
        fs = nf.base + (gt0(sub(da, ONE)), gt0(sub(db, ONE))) if what != "assignment" else nf.base + (gt0(sub(da, ONE)),)
        fs = tuple(f for f in fs if f is not True)
        if any(f is False for f in fs):
            return
        try:
            wit = search(pads, fs, da, db, axsy)
        except NoEval:
            return
        if wit:
            out.append(f"{what} of {show(da, 5)[:90]} into {show(db, 5)[:90]} cells: {wit}")

    def visit(x, conds):
        if (x, conds) in seen or len(seen) > 4000 or out:
            return
        seen.add((x, conds))
        if isinstance(x, Poly):
            ts = [a for a in x.atoms() if is_tensor_node(a)]
            for a in x.atoms():
                visit(a, conds)
            for a in ts[1:]:
                pair(ts[0], a, conds)
            return
        if not isinstance(x, Node):
            if isinstance(x, tuple):
                for y in x:
                    visit(y, conds)
            return
        if x.op in ("mu", "imu", "bmu", "tin", "param"):
            return
        if x.op == "phi":
            visit(x.args[1], conds + (x.args[0],))
            visit(x.args[2], conds + (not_(x.args[0]),))
            return
        if x.op == "store" and isinstance(x.args[1], tuple):
            t, amap, v = x.args
            rt = m.rank_of(t)
            if rt.as_int() is not None and isinstance(v, (Poly, Node)):
                rv = m.rank_of(v).as_int()
                reg = []
                for ax in range(rt.as_int()):
                    e = next((e for a, e in amap if a == const(ax)), None)
                    d = m.dim_of(t, const(ax))
                    if e is None:
                        reg.append(d)
                    elif e[0] == "s":
                        reg.append(m.slice_len(e, d))
                    elif e[0] != "i":
                        reg = None
                        break
                if reg is not None and rv:
                    for k in range(1, min(rv, len(reg)) + 1):
                        clash("assignment", m.dim_of(v, const(rv - k)), reg[-k], conds)
        for y in x.args:
            visit(y, conds)

    def pair(a, b, conds):
        ra, rb = m.rank_of(a).as_int(), m.rank_of(b).as_int()
        if not ra or not rb:
            return
        for k in range(1, min(ra, rb) + 1):
            da, db = m.dim_of(a, const(ra - k)), m.dim_of(b, const(rb - k))
            if db != ONE:
                clash("element-wise operation", da, db, conds)
    visit(t, base)
    return out
