"""Predefined pooling kernels, edge filters and unsharp masking against their definitions."""
from .functional import *
from .functional import FCase, Want, run_cases, axes_of, dims_ge, K_
from ..catalog import symker

KERNELS = {
    "Sobel": ((-1, 0, 1), (1, 2, 1)), "Prewitt": ((-1, 0, 1), (1, 1, 1)), "Scharr": ((-1, 0, 1), (3, 10, 3)),
    "Farid": ((-0.109603762960254, -0.276690988455557, 0, 0.276690988455557, 0.109603762960254),
              (0.0376593171958126, 0.249153396177344, 0.426374573253687, 0.249153396177344, 0.0376593171958126)),
    "Laplace": ((1, -2, 1), ()),
}

# edge kernels with the structure that invites shortcuts: (anti)symmetric, scaled, reversed, sparse, one-sided
TAPS = ((1, 0, -1), (-0.5, 0, 0.5), (0.5, 0, -0.5), (-2, 0, 2), (2, 0, -2), (-1, 1), (1, -1), (-1, 0, 0, 1), (-1, 2, -1), (1, -2, 1),
        (0.5, -1, 0.5), (2, -4, 2), (1, -8, 0, 8, -1), (-1, 8, 0, -8, 1), (1,), (-1,), (0, -1, 1), (-1, 1, 0), (1, 0, 1), (1, 1, 1),
        (1, 2, 1), (0, 1, 0), (1, 2, 3), (3, 2, 1), (1, -1, 1), (-1, 0.0, 1), (-1, 0, 1.5), (-1, 0.5, 1), (1, -2, 1.5), (1, -3, 3, -1),
        (-1, -2, 0, 2, 1), (1, 0, -2, 0, 1), (1.5, 0, -1.5), (-1, 0, 1, 0), (0, -1, 0, 1))
SMOOTHS = ((1, 2, 1), (1, 1, 1), (1,), (2,), (0.25, 0.5, 0.25), (1, 1), (1, 2, 3), (3, 2, 1), (1, 0, 1), (1, 4, 6, 4, 1), (-1, 0, 1), (1, -2, 1), (0.5, 0.5))


def nums(xs):
    return TUP(tuple(num(x) for x in xs))


def one_axis(w):
    a, b = axes_of(w, (0,))
    return a, [b]


def summarise_counts(w):
    """n_original_elements_1d is replaced by its documented definition: cell i counts the cells of window
    [i * stride, i * stride + kernel_size) that lie in [before, before + in_size)"""
    ip = w.ip
    fn = w.get("shapes.conv_like.n_original_elements_1d")

    def h(st, fn, args, kwargs):
        kw = dict(zip(("in_size", "pad_width", "kernel_size", "stride"), args))
        kw.update(kwargs)
        n, k, s = (ip.m.num(st, ip.one(st, kw[q])) for q in ("in_size", "kernel_size", "stride"))
        wd = ip.one(st, kw["pad_width"])
        if isinstance(wd, LST):
            wd = ip.one(st, st.heap[wd.oid].c)
        if not isinstance(wd, TUP) or len(wd.items) != 2:
            return ip.opaque(st, "pad width of n_original_elements_1d")
        b, a = (ip.m.num(st, q) for q in wd.items)
        ln = add(floordiv(sub(add(n, add(b, a)), k), s), ONE)
        if ip.decide(st, ge0(ln)) is not True:
            ln = minmax("max", [ln, ZERO])
        lo = mul(P(IVAR), s)
        el = minmax("max", [ZERO, sub(minmax("min", [add(lo, k), add(b, n)]), minmax("max", [lo, b]))])
        return ip.m.sq(ln, IVAR, N(el, "int"), kind="list")
    ip.intrinsics[(fn.mod, fn.qual)] = h


def kernel_cases():
    """values of the kernels, seen through a one-dimensional filter"""
    out = []

    def gauss(id, size, order, mode=None, stride=None, two=None):
        def build(w):
            s = w.real("sigma")
            w.fact(gt0(s.p))
            n = 2 if two else 1
            a, b = axes_of(w, two or (0,))
            x = w.tensor("x")
            sizes, sig, orders = [num(size)], [s], [num(order)]
            if two:
                s2 = w.real("sigma2")
                w.fact(gt0(s2.p))
                sizes, sig, orders = [num(size), num(size + 1)], [s, s2], [num(order), num(0)]
            arg = lambda v: TUP(tuple(v)) if two else v[0]
            kw = dict(kernel_size=arg(sizes), sigma=arg(sig), order=arg(orders))
            st = [num(q) for q in ([size, size + 1] if two else [size])]
            if stride:
                v = w.int("s")
                w.fact(ge0(sub(v.p, ONE)))
                kw["stride"] = v
                st = [v] * n
            if mode:
                kw["same_padder"] = K(mode)
            p = w.do(w.get("pooling.GaussianPoolNd"), **kw)
            if not mode:
                dims_ge(w, x, a, [const(q.p.as_int()) for q in sizes])
            return dict(f=w.method(p, "forward"), args=[x, w.tup(a)], ref="gauss_pool",
                        rargs=[x, w.tup(a), TUP(tuple(sizes)), TUP(tuple(sig)), TUP(tuple(orders)), TUP(tuple(st)), K_(mode)], axes=a, other=[b])
        out.append(FCase(id, "pooling.GaussianPoolNd", build))
    for size in (1, 2, 3, 4, 5, 7):
        for order in (0, 1, 2, 3):
            if order in (0, 1) or size in (4, 5):
                gauss(f"gauss.{size}.{order}", size, order)
    gauss("gauss.stride", 3, 0, stride=True)
    gauss("gauss.same", 3, 0, "reflect", True)
    gauss("gauss.two.asc", 3, 1, two=(0, 1))
    gauss("gauss.two.desc", 4, 1, "replicate", two=(1, 0))

    def avg(id, order, per=False, stride=False, mode=None, incl=None, filt=False):
        def build(w):
            a, b = axes_of(w, order)
            x = w.tensor("x")
            n = len(a)
            ks = [w.int(f"k{i}") for i in range(n if per else 1)]
            for k in ks:
                w.fact(ge0(sub(k.p, ONE)))
            kw = dict(kernel_size=TUP(tuple(ks)) if per else ks[0])
            k2 = ks if per else ks * n
            st = list(k2)
            if stride:
                ss = [w.int(f"s{i}") for i in range(n if per else 1)]
                for s in ss:
                    w.fact(ge0(sub(s.p, ONE)))
                kw["stride"] = TUP(tuple(ss)) if per else ss[0]
                st = ss if per else ss * n
            if mode:
                kw["same_padder"] = K(mode)
            if incl is not None:
                kw["count_include_pad"] = K(incl)
            p = w.do(w.get("pooling.AvgPoolNd"), **kw)
            if filt:
                w.do(w.method(p, "to_filter"))
                st = [num(1)] * n
            if not mode:
                dims_ge(w, x, a, [k.p for k in k2])
            return dict(f=w.method(p, "forward"), args=[x, w.tup(a)], ref="avg_pool",
                        rargs=[x, w.tup(a), TUP(tuple(k2)), TUP(tuple(st)), K_(mode)], axes=a, other=[b])
        out.append(FCase(id, "pooling.AvgPoolNd", build))
    avg("avg.1", (0,))
    avg("avg.same", (0,), stride=True, mode="replicate")
    avg("avg.filter", (0,), mode="zeros", filt=True)
    avg("avg.nopad.incl", (0,), incl=False)
    for nm, o in (("asc", (0, 1)), ("desc", (1, 0))):
        avg(f"avg.{nm}", o)
        avg(f"avg.per.{nm}", o, True, True)
        avg(f"avg.per.same.{nm}", o, True, True, "reflect")

    def orig(id, order, per=False, stride=False, mode="zeros", filt=False):
        """count_include_pad=False with a padder, on a tensor of four axes"""
        def build(w):
            summarise_counts(w)
            x = w.tensor("x", 4)
            n = len(order)
            for q in range(4):
                w.fact(ge0(sub(w.ip.m.dim_of(w.ip.m.cell_term(w.st, x.oid), const(q)), ONE)))
            ks = [w.int(f"k{i}") for i in range(n if per else 1)]
            for k in ks:
                w.fact(ge0(sub(k.p, ONE)))
            k2 = ks if per else ks * n
            kw = dict(kernel_size=TUP(tuple(ks)) if per else ks[0], same_padder=K(mode), count_include_pad=K(False))
            st = list(k2)
            if stride:
                ss = [num(2), num(3)][:n if per else 1]
                kw["stride"] = TUP(tuple(ss)) if per else ss[0]
                st = ss if per else ss * n
            p = w.do(w.get("pooling.AvgPoolNd"), **kw)
            if filt:
                w.do(w.method(p, "to_filter"))
                st = [num(1)] * n
            ax = TUP(tuple(num(a) for a in order))
            return dict(f=w.method(p, "forward"), args=[x, ax], ref="avg_originals",
                        rargs=[x, ax, TUP(tuple(k2)), TUP(tuple(st)), K_(mode)], axes=[const(a) for a in order], other=[])
        out.append(FCase(id, "pooling.AvgPoolNd", build))
    orig("avg.orig.filter", (2,), filt=True)
    orig("avg.orig.stride", (3,), stride=True)
    for nm, o in (("asc", (2, 3)), ("desc", (3, 1))):
        orig(f"avg.orig.filter.{nm}", o, filt=True)
        orig(f"avg.orig.per.filter.{nm}", o, True, mode="reflect", filt=True)
        orig(f"avg.orig.per.{nm}", o, True, True)

    for cls, (edge, smooth) in KERNELS.items():
        def build(w, cls=cls, edge=edge):
            a, b = one_axis(w)
            x = w.tensor("x")
            e = w.do(w.get("filtering." + cls))
            f = w.method(w.ip.getattr(w.st, e, "ef") if cls == "Laplace" else e, "component")
            return dict(f=f, args=[x, N(a[0], "int"), TUP(())], ref="component",
                        rargs=[x, N(a[0], "int"), TUP(()), nums(edge), TUP(()), K("reflect")], axes=a, other=b)
        if cls != "Laplace":
            out.append(FCase(f"edge-kernel.{cls}", "filtering." + cls, build))
    return out


def edge_cases():
    out = []
    CL = {c: k for c, k in KERNELS.items() if c != "Laplace"}

    def setup(w, order, known):
        if known:
            x = w.tensor("x", 4)
            return x, [const(q) for q in known], []
        a, b = axes_of(w, order)
        return w.tensor("x"), a, [b]

    def add_(id, entry, mk, meth, order=(0, 1), known=None, eps=False, p=None, comp=None):
        def build(w):
            e, edge, smooth, mode, norm = mk(w)
            x, a, other = setup(w, order, known)
            if mode is None:
                for q in a:
                    dims_ge(w, x, [q], [lens2(w, edge)])
                    dims_ge(w, x, [q], [lens2(w, smooth)])
            axes = w.tup(a)
            if meth == "component":
                i = comp
                oth = [q for j, q in enumerate(a) if j != i]
                pas = axes if known is None else w.tup(oth)
                return dict(f=w.method(e, "component"), args=[x, N(a[i], "int"), pas], ref="component",
                            rargs=[x, N(a[i], "int"), w.tup(oth), edge, TUP(tuple([smooth] * len(oth))), K_(mode)], axes=a, other=other)
            if meth == "all_components":
                return dict(f=w.method(e, meth), args=[x, axes], ref="components", rargs=[x, axes, edge, smooth, K_(mode)], axes=a, other=other)
            kw = {}
            ev, pv = num(0), num(2)
            if meth == "magnitude":
                if eps:
                    ev = kw["epsilon"] = w.real("eps")
                if p == "sym":
                    pv = kw["p"] = w.real("pp")
                    w.fact(not_(eq0(sub(pv.p, ONE))))
                elif p:
                    pv = kw["p"] = num(p)
            else:
                pv = num(1)
            return dict(f=w.method(e, meth), args=[x, axes], kw=kw, ref="magnitude",
                        rargs=[x, axes, edge, smooth, K_(mode), ev, pv], axes=a, other=other)
        out.append(FCase(id, entry, build))

    def cls_(cls, norm=False, mode="reflect"):
        def mk(w):
            kw = {}
            if norm:
                kw["normalize"] = K(True)
            if mode != "reflect":
                kw["same_padder"] = K_(mode)
            e = w.do(w.get("filtering." + cls), **kw)
            edge, smooth = KERNELS[cls]
            if norm:
                z = ZERO
                for v in smooth:
                    z = add(z, const(v))
                sm = TUP(tuple(N(div(const(v), z), "float") for v in smooth))
            else:
                sm = nums(smooth)
            return e, nums(edge), sm, mode, norm
        return mk
    for cls in CL:
        add_(f"{cls}.component", f"filtering.{cls}.component", cls_(cls), "component", comp=0)
        add_(f"{cls}.component.norm", f"filtering.{cls}.component", cls_(cls, True, None), "component", (1, 0), comp=1)
        add_(f"{cls}.all", f"filtering.{cls}.all_components", cls_(cls), "all_components", (1, 0))
        add_(f"{cls}.magnitude", f"filtering.{cls}.magnitude", cls_(cls), "magnitude", known=(2, 3))
        add_(f"{cls}.magnitude.norm", f"filtering.{cls}.magnitude", cls_(cls, True, None), "magnitude", known=(3, 1), eps=True)
    add_("Sobel.magnitude.p1", "filtering.Sobel.magnitude", cls_("Sobel"), "magnitude", p=1)
    add_("Sobel.magnitude.p3", "filtering.Sobel.magnitude", cls_("Sobel", True), "magnitude", p=3, eps=True)
    add_("Sobel.magnitude.p1.eps", "filtering.Sobel.magnitude", cls_("Sobel"), "magnitude", p=1, eps=True)
    add_("Sobel.magnitude.p", "filtering.Sobel.magnitude", cls_("Sobel"), "magnitude", (1, 0), p="sym", eps=True)
    add_("Sobel.component.known", "filtering.Sobel.component", cls_("Sobel", mode="zeros"), "component", known=(1, 3, 2), comp=1)
    add_("Sobel.all.3", "filtering.Sobel.all_components", cls_("Sobel"), "all_components", known=(1, 2, 3))
    add_("Laplace", "filtering.Laplace.forward", cls_("Laplace"), "forward")
    add_("Laplace.desc", "filtering.Laplace.forward", cls_("Laplace", mode="replicate"), "forward", (1, 0))
    add_("Laplace.known3", "filtering.Laplace.forward", cls_("Laplace"), "forward", known=(1, 2, 3))

    def gen(mode, n=None, norm=False):
        def mk(w):
            ek, sk = symker(w, "ek", n), symker(w, "sk", n)
            e = w.do(w.get("filtering.EdgeFilter"), edge_kernel=ek, smooth_kernel=sk, same_padder=K_(mode), normalize=K(norm))
            if norm:
                z = ZERO
                sk = w.st.heap[sk.oid].c if isinstance(sk, LST) else sk
                for v in sk.items:
                    z = add(z, v.p)
                w.fact(not_(eq0(z)))
                sk = TUP(tuple(N(div(v.p, z), "float") for v in sk.items))
            return e, ek, sk, mode, norm
        return mk
    for nm, o in (("asc", (0, 1)), ("desc", (1, 0))):
        add_(f"EdgeFilter.component.{nm}", "filtering.EdgeFilter.component", gen("replicate"), "component", o, comp=1)
        add_(f"EdgeFilter.component.valid.{nm}", "filtering.EdgeFilter.component", gen(None), "component", o, comp=0)
        add_(f"EdgeFilter.all.{nm}", "filtering.EdgeFilter.all_components", gen("reflect"), "all_components", o)
        add_(f"EdgeFilter.magnitude.{nm}", "filtering.EdgeFilter.magnitude", gen("zeros"), "magnitude", o)
    add_("EdgeFilter.component.3", "filtering.EdgeFilter.component", gen("replicate", 3), "component", (0, 1), comp=1)
    add_("EdgeFilter.component.norm3", "filtering.EdgeFilter.component", gen("replicate", 3, True), "component", (0, 1), comp=1)
    add_("EdgeFilter.component.norm2", "filtering.EdgeFilter.component", gen(None, 2, True), "component", (1, 0), comp=0)
    add_("EdgeFilter.magnitude.3", "filtering.EdgeFilter.magnitude", gen(None, 3), "magnitude", (0, 1))
    for n in (1, 2, 4, 5):
        add_(f"EdgeFilter.component.{n}", "filtering.EdgeFilter.component", gen("replicate" if n % 2 else None, n), "component", (1, 0), comp=n % 2)

    def fixed(edge, smooth, mode, ndspec=False):
        def mk(w):
            lst = lambda k: w.ip.lst(w.st, [num(v) for v in k])
            e = w.do(w.get("filtering.EdgeFilter"), edge_kernel=nums(edge) if ndspec else lst(edge), smooth_kernel=lst(smooth), same_padder=K_(mode))
            return e, nums(edge), nums(smooth), mode, False
        return mk
    for i, k in enumerate(TAPS):
        nm = ",".join(map(str, k))
        add_(f"EdgeFilter.taps.{nm}", "filtering.EdgeFilter.component", fixed(k, SMOOTHS[i % len(SMOOTHS)], None if i % 3 else "reflect", i % 2), "component", (0, 1) if i % 4 < 2 else (1, 0), comp=i % 2)
    for i, k in enumerate(SMOOTHS):
        nm = ",".join(map(str, k))
        add_(f"EdgeFilter.smooth.{nm}", "filtering.EdgeFilter.component", fixed((-1, 0, 1), k, "replicate" if i % 2 else None), "component", (0, 1), comp=i % 2)

    def gg(order=1, cls="GaussianGrad", mode="reflect", es=None, norm=None):
        def mk(w):
            s = w.real("sigma")
            w.fact(gt0(s.p))
            kw = dict(kernel_size=num(3), sigma=s)
            eks, esig = num(3), s
            if es:
                eks = kw["edge_kernel_size"] = num(es)
                esig = kw["edge_sigma"] = w.real("esigma")
                w.fact(gt0(esig.p))
            if cls == "GaussianGrad" and order != 1:
                kw["edge_order"] = num(order)
            if mode != "reflect":
                kw["same_padder"] = K_(mode)
            e = w.do(w.get("filtering." + cls), **kw)
            g = w.ip.lookup("tiref.gauss")
            return e, w.do(g, eks, esig, num(order)), w.do(g, num(3), s, num(0)), mode, True
        return mk
    add_("GaussianGrad.component", "filtering.GaussianGrad.component", gg(), "component", comp=0)
    add_("GaussianGrad.all.edge", "filtering.GaussianGrad.all_components", gg(es=5), "all_components", (1, 0))
    add_("GaussianGrad.magnitude", "filtering.GaussianGrad.magnitude", gg(), "magnitude")
    add_("GaussianGrad.order2", "filtering.GaussianGrad.component", gg(2, mode=None), "component", comp=1)
    add_("LoG", "filtering.LaplacianOfGaussian.forward", gg(2, "LaplacianOfGaussian"), "forward")
    add_("LoG.known", "filtering.LaplacianOfGaussian.forward", gg(2, "LaplacianOfGaussian", "replicate"), "forward", known=(3, 2))

    for cls in CL:
        for meth, ax in (("horizontal", 1), ("vertical", 2)):
            def build(w, cls=cls, meth=meth, ax=ax):
                e, edge, smooth, mode, _ = cls_(cls)(w)
                x = w.tensor("x", 3)
                return dict(f=w.method(e, meth), args=[x], ref="component",
                            rargs=[x, num(ax), TUP((num(3 - ax),)), edge, TUP((smooth,)), K(mode)])
            out.append(FCase(f"{cls}.{meth}", f"filtering.{cls}.{meth}", build))
    return out


def lens2(w, k):
    if isinstance(k, LST):
        k = w.st.heap[k.oid].c
    return k.len if isinstance(k, SQ) else const(len(k.items))


def kernels_pass(ctx):
    return run_cases(ctx, "predefined-kernel", kernel_cases())


def edges_pass(ctx):
    return run_cases(ctx, "edge-definition", edge_cases())
