"""Unsharp masking, random crop, noise and tensor utilities against their definitions."""
from .functional import *
from .functional import FCase, Want, run_cases, axes_of, dims_ge, K_, lens
from ..catalog import symker, maybe_empty


# ====================================================================== unsharp masking
def unsharp_cases():
    out = []

    def add_(id, order, kers, mode, thr=None, own=None, known=None):
        def build(w):
            ks = kers(w)
            kw = {}
            if own:
                kw["same_padder"] = K(own)
            b = w.do(w.get("pooling.SeparablePoolNd"), kernel=ks[0] if len(ks) == 1 else TUP(tuple(ks)), **kw)
            am = w.real("amount")
            kw = dict(amount=am)
            t = num(0)
            if thr == "sym":
                t = w.real("thr")
            elif thr == "pos":
                t = w.real("thr")
                w.fact(gt0(t.p))
            if thr:
                kw["threshold"] = t
            if mode:
                kw["padder"] = w.do(w.get("padding.Padder"), mode=K(mode)) if mode != "replicate" else K(mode)
            u = w.do(w.get("filtering.UnsharpMask"), b, **kw)
            if known:
                x, a, other = w.tensor("x", 4), [const(q) for q in known], []
            else:
                a, bb = axes_of(w, order)
                x, other = w.tensor("x"), [bb]
            k2 = [ks[0 if len(ks) == 1 else i] for i in range(len(a))]
            for k in k2:
                w.fact(ge0(sub(lens(w, k), ONE)))
            args = [x] if known == (2, 3) else [x, w.tup(a)]
            return dict(f=w.method(u, "forward"), args=args, ref="unsharp",
                        rargs=[x, w.tup(a), TUP(tuple(k2)), K(mode or own), am, t], axes=a, other=other)
        out.append(FCase(id, "filtering.UnsharpMask.forward", build))
    s1 = lambda w: [symker(w, "ker")]
    s2 = lambda w: [symker(w, "ker0"), symker(w, "ker1")]
    c3 = lambda w: [symker(w, "ker", 3)]
    for mode in ("reflect", "replicate", "zeros"):
        for thr in (None, "sym"):
            add_(f"unsharp.{mode}.{thr}", (0, 1), s1, mode, thr)
    add_("unsharp.per.desc", (1, 0), s2, "replicate", "pos")
    add_("unsharp.own", (0,), c3, None, "pos", own="circular")
    add_("unsharp.override", (0,), c3, "reflect", None, own="circular")
    add_("unsharp.default", None, c3, "symmetric", "sym", known=(2, 3))
    add_("unsharp.known", None, s2, "reflect", None, known=(3, 1))
    return out


def unsharp_pass(ctx):
    return run_cases(ctx, "unsharp-definition", unsharp_cases())


# ====================================================================== random
def random_cases():
    out = []

    def crop(id, sizes, order=(0, 1), known=None):
        def build(w):
            if known:
                x, a, other = w.tensor("x", 4), [const(q) for q in known], []
            else:
                a, b = axes_of(w, order)
                x, other = w.tensor("x"), [b]
            ss, seen = [], {}
            for q in sizes:
                if q is None:
                    ss.append(NONE)
                    continue
                if isinstance(q, int):
                    ss.append(num(q))
                    continue
                if q not in seen:
                    seen[q] = w.int("size" + q)
                    w.fact(ge0(seen[q].p))
                ss.append(seen[q])
            arg = ss[0] if len(ss) == 1 else TUP(tuple(ss))
            s2 = [ss[0 if len(ss) == 1 else i] for i in range(len(a))]
            t = w.ip.m.cell_term(w.st, x.oid)
            for q, s in zip(a, s2):
                if s != NONE:
                    w.fact(ge0(sub(w.ip.m.dim_of(t, q), s.p)))
            g = w.generator()
            return dict(f=w.get("random.random_crop"), args=[x, w.tup(a), arg], kw=dict(generator=g), ref="crop",
                        rargs=[x, w.tup(a), TUP(tuple(s2)), g], axes=a, other=other, draws=True)
        out.append(FCase(id, "random.random_crop", build))
    crop("crop.1", ["p"], (0,))
    crop("crop.none", [None], (0, 1))
    for nm, o in (("asc", (0, 1)), ("desc", (1, 0))):
        crop(f"crop.{nm}", ["p"], o)
        crop(f"crop.per.{nm}", ["p", "q"], o)
        crop(f"crop.first.{nm}", [None, "q"], o)
        crop(f"crop.second.{nm}", ["p", None], o)
    crop("crop.zero", [0, "q"])
    crop("crop.known.zero", [0, 2], known=(3, 1))
    crop("crop.known", ["p", "q", "r"], known=(3, 1, 2))

    def noise(fn, known=None):
        def build(w):
            x = w.tensor("x", known)
            if known is None:
                a, b = axes_of(w, (0, 1))
            else:
                a, b = [], None
            g, s = w.generator(), w.real("sigma")
            w.fact(ge0(s.p))
            par = []
            if fn != "gauss_noise":
                k = w.real("k")
                w.fact(gt0(k.p))
                par.append(k)
            par.append(s)
            return dict(f=w.get("random.add_" + fn), args=[x] + par, kw=dict(generator=g), ref=fn, rargs=[x] + par + [g],
                        axes=a, other=[b] if b is not None else [], draws=True)
        out.append(FCase(f"{fn}.{known}", "random.add_" + fn, build))
    for r in (None, 1, 2, 4):
        noise("gauss_noise", r)
        noise("poisson_gauss_noise", r)
    return out


def random_pass(ctx):
    return run_cases(ctx, "random-definition", random_cases())


# ====================================================================== utilities
def util_cases():
    out = []

    def case(id, entry, build):
        out.append(FCase(id, entry, build))

    for ru, rv in ((1, 1), (2, 1), (1, 3), (2, 2), (0, 2), (1, 0)):
        def outer(w, ru=ru, rv=rv):
            u, v = w.tensor("u", ru), w.tensor("v", rv)
            tu, tv = (w.ip.m.cell_term(w.st, q.oid) for q in (u, v))
            dims = [w.ip.m.dim_of(tu, const(i)) for i in range(ru)] + [w.ip.m.dim_of(tv, const(i)) for i in range(rv)]

            def cell(at, nf):
                cu = nf.leafcell(tu.as_atom(), {const(i - ru): at[i] for i in range(ru)})
                cv = nf.leafcell(tv.as_atom(), {const(i - rv): at[ru + i] for i in range(rv)})
                return mul(P(cu), P(cv))
            return dict(f=w.get("misc.outer"), args=[u, v], expect=lambda w: [Want(path=(), shape=dims, cell=cell)])
        case(f"outer.{ru}.{rv}", "misc.outer", outer)
    for n in range(1, 7):
        for r in (None, 2):
            def poly(w, n=n, r=r):
                x = w.tensor("x", r)
                a, b = axes_of(w, (0,)) if r is None else ([], None)
                c = w.list([w.real(f"c{i}") for i in range(n)])
                return dict(f=w.get("misc.poly1d"), args=[x, c], ref="poly", rargs=[x, c], axes=a, other=[b] if b is not None else [])
            case(f"poly1d.{n}.{r}", "misc.poly1d", poly)
    for tens in (False, True):
        for eps in (None, "sym"):
            for r in (1, 3):
                def power(w, tens=tens, eps=eps, r=r):
                    x = w.tensor("x", r)
                    e = w.tensor("e", r) if tens else w.real("e")
                    if tens:
                        same_shape(w, x, e, rank=r)
                    kw = {}
                    ev = N(const(Fraction(1, 10 ** 6)), "float")
                    if eps:
                        ev = kw["epsilon"] = w.real("eps")
                        w.fact(not_(eq0(ev.p)))
                    return dict(f=w.get("misc.safe_power"), args=[x, e], kw=kw, ref="power" if tens else "power_scalar", rargs=[x, e, ev])
                case(f"safe_power.{'tensor' if tens else 'scalar'}.{eps}.{r}", "misc.safe_power", power)
    case("describe", "misc.describe", lambda w: (lambda x: dict(f=w.get("misc.describe"), args=[x], ref="summary", rargs=[x]))(w.tensor("x", 2)))

    for r, dim in ((1, 0), (1, -1), (2, 0), (2, 1), (3, 1), (3, -1), (4, 2)):
        def conv(w, r=r, dim=dim):
            x, k = w.tensor("x", r), w.tensor("ker", 1)
            s, d = w.int("s"), w.int("d")
            tx, tk = (w.ip.m.cell_term(w.st, q.oid) for q in (x, k))
            ax = dim % r
            n = w.ip.m.dim_of(tk, ZERO)
            L = w.ip.m.dim_of(tx, const(ax))
            for i in range(r):
                w.fact(ge0(sub(w.ip.m.dim_of(tx, const(i)), ONE)))
            w.fact(ge0(sub(s.p, ONE)))
            w.fact(ge0(sub(d.p, ONE)))
            w.fact(ge0(sub(n, ONE)))
            span = mul(d.p, sub(n, ONE))
            w.fact(ge0(sub(sub(L, span), ONE)))
            ol = add(floordiv(sub(sub(L, span), ONE), s.p), ONE)
            dims = [ol if i == ax else w.ip.m.dim_of(tx, const(i)) for i in range(r)]

            def cell(at, nf):
                v = N_("isym", "t")
                ix = {const(i - r): add(mul(s.p, at[i]), mul(d.p, P(v))) if i == ax else at[i] for i in range(r)}
                return ksum(n, v, mul(P(nf.leafcell(tx.as_atom(), ix)), P(nf.leafcell(tk.as_atom(), {const(-1): P(v)}))))
            return dict(f=w.get("pooling.operator.any_conv_1d"), args=[x, k], kw=dict(dim=num(dim), stride=s, dilation=d),
                        expect=lambda w: [Want(path=(), shape=dims, cell=cell)])
        case(f"any_conv_1d.{r}.{dim}", "pooling.operator.any_conv_1d", conv)

    def clen(w):
        n, k, s, d = (w.int(q) for q in ("len", "k", "s", "d"))
        for q in (n, k, s, d):
            w.fact(ge0(sub(q.p, ONE)))
        return dict(f=w.get("shapes.conv_like.conv_1d"), args=[n, k, s, d], ref="conv_length", rargs=[n, k, s, d])
    case("conv_1d", "shapes.conv_like.conv_1d", clen)

    for n in (0, 1, 2, 3):
        def tot(w, n=n):
            ws = TUP(tuple(TUP((w.int(f"b{i}"), w.int(f"a{i}"))) for i in range(n)))
            return dict(f=w.get("padding.utils.pad_width_format"), args=[ws], kw=dict(source=K("numpy"), target=K("torch")),
                        ref="widths_to_torch", rargs=[ws])
        case(f"pad_width_format.torch.{n}", "padding.utils.pad_width_format", tot)
        for nd in range(n, n + 3):
            def ton(w, n=n, nd=nd):
                ws = TUP(tuple(w.int(f"w{i}") for i in range(2 * n)))
                return dict(f=w.get("padding.utils.pad_width_format"), args=[ws], kw=dict(source=K("torch"), target=K("numpy"), ndim=num(nd)),
                            ref="widths_to_numpy", rargs=[ws, num(nd)])
            case(f"pad_width_format.numpy.{n}.{nd}", "padding.utils.pad_width_format", ton)
    return out


def util_pass(ctx):
    return run_cases(ctx, "utility-definition", util_cases())
