"""Catalog of abstract calls to the public entry points of the package.

Every case builds the objects involved by interpreting their real constructors with symbolic
parameters and then interprets one call on symbolic caller-owned inputs.  A case returns
(world, callable, args, kwargs, info); the passes decide their property on the result."""
from .harness import *

MODES = ("empty", "constant", "zeros", "symmetric", "antisymmetric", "reflect", "replicate", "circular", "periodize",
         "odd_reflect", "odd_symmetric", "smooth", "linear_ramp", "maximum", "mean", "median", "minimum")
STAT_MODES = ("maximum", "mean", "median", "minimum")
SENSORS = ("RGGB", "BGGR", "GRBG", "GBRG")


class Case:
    def __init__(self, id, entry, build, tags=(), **info):
        self.id, self.entry, self.build, self.tags, self.info = id, entry, build, set(tags), info
        self._r = None

    def run(self, source):
        w = World(source)
        f, args, kw = self.build(w)
        return w, w.run(f, *args, **kw)

    def run2(self, source, prepare=None):
        """two successive calls on the same object"""
        w = World(source)
        f, args, kw = self.build(w)
        r1 = w.run(f, *args, **kw)
        return w, f, args, kw, r1


def sl(a, b=None, c=None):
    g = lambda x: NONE if x is None else num(x)
    return SLC(g(a), g(b), g(c))


def pw(w, name="p", pos=True):
    b, a = w.int(name + "b"), w.int(name + "a")
    w.fact(ge0(b.p))
    w.fact(ge0(a.p))
    if pos:
        w.fact(gt0(add(a.p, b.p)))
    return TUP((b, a))


def symker(w, name, n=None):
    """kernel of symbolic length (or n symbolic entries)"""
    if n is None:
        k = w.isym("len_" + name)
        w.fact(ge0(sub(k, ONE)))
        return SQ(k, IVAR, N(P(N_("elem", name, P(IVAR))), "float"), (), "list")
    return w.list([w.real(f"{name}{i}") for i in range(n)])


def maybe_empty(w, name):
    """kernel of symbolic length that may be empty (an ignored axis)"""
    k = w.isym("len_" + name)
    w.fact(ge0(k))
    return SQ(k, IVAR, N(P(N_("elem", name, P(IVAR))), "float"), (), "list")


def callback(name):
    return S(N_("sym", name), "func")


def build_padder(mode, width="bcast", **kw0):
    def mk(w, k):
        kw = dict(mode=K(mode) if isinstance(mode, str) else mode)
        if width == "bcast":
            kw["pad_width"] = pw(w)
        elif width == "same":
            pass
        else:
            kw["pad_width"] = TUP(tuple(pw(w, f"p{i}") for i in range(k)))
        if mode == "constant":
            kw["constant_values"] = TUP((w.real("cv_b"), w.real("cv_a")))
        if mode == "linear_ramp":
            kw["end_values"] = TUP((w.real("ev_b"), w.real("ev_a")))
        kw.update(kw0)
        return w.do(w.get("padding.Padder"), **kw)
    return mk


def cases():
    out = []

    def case(id, entry, tags=(), **info):
        def deco(f):
            out.append(Case(id, entry, f, tags, **info))
            return f
        return deco

    # ------------------------------------------------------------------ padding
    for mode in MODES:
        def fwd1(w, mode=mode):
            a = w.axes(1)
            p = build_padder(mode)(w, 1)
            return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
        case(f"pad.{mode}.1axis", "padding.Padder.forward", ("pad", "shape"), mode=mode)(fwd1)
        for nm, order in (("asc", (0, 1)), ("desc", (1, 0))):
            def fwd2(w, mode=mode, order=order):
                a = w.axes(2, order)
                p = build_padder(mode, "per")(w, 2)
                return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
            case(f"pad.{mode}.2axes.{nm}", "padding.Padder.forward", ("pad", "shape"), mode=mode)(fwd2)

        def fwdd(w, mode=mode):
            p = build_padder(mode)(w, 2)
            return w.method(p, "forward"), [w.tensor("x", 4)], {}
        case(f"pad.{mode}.default", "padding.Padder.forward", ("pad",), mode=mode)(fwdd)

        def vec(w, mode=mode):
            p = build_padder(mode)(w, 1)
            return w.method(p, "forward"), [w.tensor("x", 1), w.tup([ZERO])], {}
        case(f"pad.{mode}.vector", "padding.Padder.forward", ("pad", "shape"), mode=mode)(vec)

        def axis(w, mode=mode):
            a = w.axes(1)
            p = build_padder(mode)(w, 1)
            return w.method(p, "pad_axis"), [w.tensor("x"), num(0), N(a[0], "int")], {}
        case(f"pad_axis.{mode}", "padding.Padder.pad_axis", ("pad", "shape"), mode=mode)(axis)
    for mode in ("maximum", "mean", "median", "minimum"):
        def fwds(w, mode=mode):
            a = w.axes(1)
            p = build_padder(mode, stat_length=TUP((w.int("sb"), w.int("sa"))))(w, 1)
            return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
        case(f"pad.{mode}.stat_length", "padding.Padder.forward", ("pad", "shape"), mode=mode)(fwds)

    # ---------------- settings given per axis
    def settings(w, modes, names, vals, stat):
        kw = dict(mode=TUP(tuple(K(m) for m in modes)), pad_width=TUP(tuple(pw(w, q) for q in names)))
        two = lambda pre: TUP(tuple(TUP((w.real(f"{pre}{q}_b"), w.real(f"{pre}{q}_a"))) for q in vals))
        if "constant" in modes:
            kw["constant_values"] = two("cv")
        if "linear_ramp" in modes:
            kw["end_values"] = two("ev")
        if stat:
            kw["stat_length"] = TUP(tuple(TUP((w.int(f"s{q}b"), w.int(f"s{q}a"))) for q in vals))
        return w.do(w.get("padding.Padder"), **kw)

    for m0, m1 in (("constant", "linear_ramp"), ("linear_ramp", "constant"), ("constant", "constant"), ("linear_ramp", "linear_ramp"),
                   ("linear_ramp", "maximum"), ("mean", "constant"), ("reflect", "antisymmetric"), ("antisymmetric", "circular"),
                   ("odd_reflect", "symmetric"), ("symmetric", "odd_symmetric"), ("periodize", "replicate"), ("replicate", "reflect"),
                   ("zeros", "smooth"), ("empty", "replicate"), ("median", "minimum"), ("maximum", "mean")):
        for nm, order in (("asc", (0, 1)), ("desc", (1, 0))):
            stat = m0 in STAT_MODES and m1 in STAT_MODES
            def fwdm(w, order=order, modes=(m0, m1), stat=stat):
                a = w.axes(2, order)
                p = settings(w, modes, ("p0", "p1"), "01", stat)
                return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
            case(f"pad.{m0}+{m1}{'.stat_length' if stat else ''}.2axes.{nm}", "padding.Padder.forward", ("pad", "shape"),
                 mode=f"{m0}+{m1}", modes=(m0, m1), values="01")(fwdm)
    for m in ("constant", "linear_ramp", "reflect", "mean", "periodize"):
        other = "replicate" if m != "mean" else "maximum"
        kw = dict(mode=m, modes=(m,), values="1", widths=["p1"])
        stat = ".stat_length" if m == "mean" else ""

        # more settings than axes: the last settings count
        def more(w, m=m, other=other):
            a = w.axes(1)
            p = settings(w, (other, m), ("p0", "p1"), "01", m == "mean")
            return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
        case(f"pad.{m}{stat}.more", "padding.Padder.forward", ("pad", "shape"), **kw)(more)

        # more axes than settings: only the last axes are padded
        def less(w, m=m):
            a = w.axes(2, (0, 1))
            p = settings(w, (m,), ("p1",), "1", m == "mean")
            return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
        case(f"pad.{m}{stat}.less", "padding.Padder.forward", ("pad", "shape"), mode=m, modes=(None, m), values="01", widths=[None, "p1"])(less)
        for i, nm in ((1, "1"), (-1, "last")):
            def axis_i(w, m=m, other=other, i=i):
                a = w.axes(1)
                p = settings(w, (other, m), ("p0", "p1"), "01", m == "mean")
                return w.method(p, "pad_axis"), [w.tensor("x"), num(i), N(a[0], "int")], {}
            case(f"pad_axis.{m}{stat}.{nm}", "padding.Padder.pad_axis", ("pad", "shape"), **kw)(axis_i)

    def zero(w):
        a = w.axes(2, (0, 1))
        p = w.do(w.get("padding.Padder"), pad_width=TUP((pw(w, "p0", False), pw(w, "p1", False))), mode=K("replicate"))
        return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
    case("pad.maybe_zero", "padding.Padder.forward", ("pad",))(zero)

    def noaxes(w):
        p = w.do(w.get("padding.Padder"), pad_width=pw(w), mode=K("reflect"))
        return w.method(p, "forward"), [w.tensor("x", 3), TUP(())], {}
    case("pad.noaxes", "padding.Padder.forward", ("pad",))(noaxes)

    def zero_axis(w):
        a = w.axes(1)
        p = w.do(w.get("padding.Padder"), pad_width=pw(w, "p", False), mode=K("symmetric"))
        return w.method(p, "pad_axis"), [w.tensor("x"), num(0), N(a[0], "int")], {}
    case("pad_axis.maybe_zero", "padding.Padder.pad_axis", ("pad",))(zero_axis)

    def mixed(w):
        a = w.axes(2, (0, 1))
        p = w.do(w.get("padding.Padder"), pad_width=TUP((pw(w, "p0"), pw(w, "p1"))), mode=TUP((K("reflect"), K("constant"))),
                 constant_values=w.real("cv"))
        return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
    case("pad.mixed", "padding.Padder.forward", ("pad",))(mixed)

    def tosame(w):
        p = w.do(w.get("padding.Padder"), mode=K("reflect"))
        k = w.int("k")
        w.fact(ge0(k.p))
        return w.method(p, "to_same"), [k], {}
    case("pad.to_same", "padding.Padder.to_same", ())(tosame)

    # ------------------------------------------------------------------ pooling
    def pool(cls, kwf, padder, axes, id, tags=("pool",), filt=False, entry=None):
        def b(w):
            kw = kwf(w)
            if padder is not None:
                kw["same_padder"] = padder(w) if callable(padder) else K(padder)
            p = w.do(w.get("pooling." + cls), **kw)
            if filt:
                w.do(w.method(p, "to_filter"))
            if axes == "default":
                return w.method(p, "forward"), [w.tensor("x", 4)], {}
            a = w.axes(axes) if isinstance(axes, int) else w.axes(*axes)
            return w.method(p, "forward"), [w.tensor("x"), w.tup(a)], {}
        case(id, entry or f"pooling.{cls}.forward", tags)(b)

    kb = lambda w: dict(kernel=symker(w, "ker"))
    kp = lambda w: dict(kernel=TUP((symker(w, "ker0"), symker(w, "ker1"))))

    def ks(w):
        s = w.int("s")
        w.fact(ge0(sub(s.p, ONE)))
        return dict(kernel=symker(w, "ker"), stride=s)
    padobj = lambda w: w.do(w.get("padding.Padder"), mode=K("symmetric"))
    pool("SeparablePoolNd", kb, None, 1, "sep.1")
    pool("SeparablePoolNd", kb, None, 2, "sep.2")
    pool("SeparablePoolNd", kb, None, "default", "sep.default")
    pool("SeparablePoolNd", kp, None, 2, "sep.per.2")
    pool("SeparablePoolNd", ks, None, 2, "sep.stride.2")
    pool("SeparablePoolNd", ks, "reflect", (2, (0, 1)), "sep.stride.reflect.2")
    pool("SeparablePoolNd", kb, "replicate", (2, (0, 1)), "sep.filter.2", filt=True)
    pool("SeparablePoolNd", kp, padobj, (2, (1, 0)), "sep.per.padobj.2")
    pool("SeparablePoolNd", kb, "constant", "default", "sep.const.default", filt=True)

    pool("SeparablePoolNd", lambda w: dict(kernel=maybe_empty(w, "ker")), None, 2, "sep.maybe_empty.2")
    pool("SeparablePoolNd", lambda w: dict(kernel=maybe_empty(w, "ker")), "reflect", (2, (0, 1)), "sep.maybe_empty.filter.2", filt=True)
    pool("SeparablePoolNd", lambda w: dict(kernel=w.list([])), "reflect", 2, "sep.empty.2")
    pool("SeparablePoolNd", kb, "symmetric", 0, "sep.noaxes", filt=True)

    def kint(nm="k"):
        def f(w):
            k = w.int(nm)
            w.fact(ge0(sub(k.p, ONE)))
            return dict(kernel_size=k)
        return f

    def kintp(w):
        r = []
        for i in range(2):
            k = w.int(f"k{i}")
            w.fact(ge0(sub(k.p, ONE)))
            r.append(k)
        return dict(kernel_size=TUP(tuple(r)))
    pool("AvgPoolNd", kint(), None, 2, "avg.2")
    pool("AvgPoolNd", kintp, None, 2, "avg.per.2")
    pool("AvgPoolNd", kint(), "reflect", (2, (0, 1)), "avg.reflect.2", filt=True)
    pool("AvgPoolNd", lambda w: dict(kernel_size=num(3)), "zeros", "default", "avg.zeros.default", filt=True)
    pool("AvgPoolNd", lambda w: dict(kernel_size=num(3), count_include_pad=FALSE), "zeros", "default", "avg.nopad.default", filt=True)
    pool("AvgPoolNd", lambda w: dict(kernel_size=num(2), stride=num(2)), None, 2, "avg.22")
    pool("AvgPoolNd", lambda w: dict(kernel_size=num(3)), "reflect", 0, "avg.noaxes", filt=True)
    pool("AvgPoolNd", lambda w: dict(kernel_size=num(0)), None, 2, "avg.zero.2")
    pool("AvgPoolNd", lambda w: dict(kernel_size=TUP((num(2), num(3))), count_include_pad=FALSE), "zeros", (2, (1, 0)),
         "avg.nopad.desc", filt=True)

    def gk(w):
        return dict(kernel_size=num(5), sigma=w.real("sigma"))
    pool("GaussianPoolNd", gk, None, 2, "gauss.2")
    pool("GaussianPoolNd", gk, "reflect", (2, (0, 1)), "gauss.reflect.2", filt=True)
    pool("GaussianPoolNd", lambda w: dict(kernel_size=num(4), sigma=w.real("sigma")), "symmetric", "default",
         "gauss.even.default", filt=True)
    pool("GaussianPoolNd", lambda w: dict(kernel_size=TUP((num(5), num(3))), sigma=TUP((w.real("s0"), w.real("s1")))),
         None, 2, "gauss.per.2")
    pool("GaussianPoolNd", lambda w: dict(kernel_size=num(5), sigma=w.real("sigma"), order=num(1)), None, 1, "gauss.order1")

    # ------------------------------------------------------------------ filters
    def edge(cls, meth, kwf=lambda w: {}, axes=2, id=None, order=None, **callkw):
        def b(w):
            e = w.do(w.get("filtering." + cls), **kwf(w))
            kw = {k: (v(w) if callable(v) else v) for k, v in callkw.items()}
            if axes == "none":
                return w.method(e, meth), [w.tensor("x", 3)], kw
            if axes == "known":
                return w.method(e, meth), [w.tensor("x", 4), w.tup([const(2), const(3)])], kw
            a = w.axes(axes, order)
            if meth == "component":
                return w.method(e, meth), [w.tensor("x"), N(a[0], "int"), w.tup(a)], kw
            return w.method(e, meth), [w.tensor("x"), w.tup(a)], kw
        case(id or f"{cls}.{meth}.{axes}", f"filtering.{cls}.{meth}", ("edge",))(b)
    for cls in ("Sobel", "Prewitt", "Scharr", "Farid"):
        edge(cls, "magnitude", axes="known")
        edge(cls, "magnitude", lambda w: dict(normalize=TRUE, same_padder=NONE), 2, f"{cls}.magnitude.norm")
        for m in ("horizontal", "vertical"):
            edge(cls, m, axes="none")
    edge("Sobel", "component", axes=2, order=(0, 1))
    edge("Sobel", "component", axes=2, order=(1, 0), id="Sobel.component.desc")
    edge("Sobel", "all_components", axes="known")
    edge("Sobel", "all_components", axes=3, order=(0, 1, 2), id="Sobel.all_components.3")
    edge("Sobel", "magnitude", axes="none", id="Sobel.magnitude.noaxes")
    edge("Sobel", "magnitude", axes="known", id="Sobel.magnitude.eps", epsilon=lambda w: w.real("eps"))
    edge("Sobel", "magnitude", axes="known", id="Sobel.magnitude.p1", p=num(1))
    edge("Sobel", "magnitude", axes=2, order=(1, 0), id="Sobel.magnitude.p", p=lambda w: w.int("p"))

    def ggk(w):
        return dict(kernel_size=num(5), sigma=w.real("sigma"))
    edge("GaussianGrad", "magnitude", ggk, "known")
    edge("GaussianGrad", "all_components", ggk, "known")
    edge("GaussianGrad", "component", lambda w: dict(kernel_size=num(5), sigma=w.real("sigma"), same_padder=NONE), 2)

    def efk(w):
        return dict(edge_kernel=symker(w, "ek"), smooth_kernel=symker(w, "sk"), same_padder=K("replicate"))
    edge("EdgeFilter", "magnitude", efk, 2, order=(0, 1))
    edge("EdgeFilter", "component", lambda w: dict(edge_kernel=symker(w, "ek", 3), smooth_kernel=symker(w, "sk", 3)), 2,
         "EdgeFilter.component.nopad")
    edge("EdgeFilter", "component", lambda w: dict(edge_kernel=maybe_empty(w, "ek"), smooth_kernel=w.list([]), same_padder=K("reflect")), 2,
         "EdgeFilter.component.maybe_empty", order=(0, 1))
    edge("EdgeFilter", "magnitude", lambda w: dict(edge_kernel=w.list([]), smooth_kernel=w.list([])), 2, "EdgeFilter.magnitude.empty", p=num(1))
    edge("Laplace", "forward", axes="known")
    edge("Laplace", "forward", lambda w: dict(same_padder=NONE), 2, "Laplace.forward.nopad")
    edge("Laplace", "forward", axes=2, order=(1, 0), id="Laplace.forward.desc")
    edge("LaplacianOfGaussian", "forward", ggk, "known")

    def unsharp(w, thr, blur="AvgPoolNd", axes="known"):
        if blur == "maybe_empty":
            b = w.do(w.get("pooling.SeparablePoolNd"), kernel=maybe_empty(w, "ker"))
        elif blur == "AvgPoolNd":
            b = w.do(w.get("pooling.AvgPoolNd"), kernel_size=num(3))
        else:
            b = w.do(w.get("pooling.GaussianPoolNd"), kernel_size=num(5), sigma=w.real("sigma"))
        kw = dict(amount=w.real("amount"))
        if thr is not None:
            kw["threshold"] = w.real("thr")
        u = w.do(w.get("filtering.UnsharpMask"), b, padder=K("reflect"), **kw)
        if axes == "known":
            return w.method(u, "forward"), [w.tensor("x", 4)], {}
        if axes == 0:
            return w.method(u, "forward"), [w.tensor("x", 4), TUP(())], {}
        return w.method(u, "forward"), [w.tensor("x"), w.tup(w.axes(2, (0, 1)))], {}
    case("unsharp.0", "filtering.UnsharpMask.forward", ("unsharp",))(lambda w: unsharp(w, None))
    case("unsharp.thr", "filtering.UnsharpMask.forward", ("unsharp",))(lambda w: unsharp(w, 1))
    case("unsharp.gauss", "filtering.UnsharpMask.forward", ("unsharp",))(lambda w: unsharp(w, None, "G", 2))

    case("unsharp.maybe_empty", "filtering.UnsharpMask.forward", ("unsharp",))(lambda w: unsharp(w, 1, "maybe_empty", 2))
    case("unsharp.noaxes", "filtering.UnsharpMask.forward", ("unsharp",))(lambda w: unsharp(w, 1, axes=0))

    # ------------------------------------------------------------------ metrics
    def metric(cls, red=None, reduce_axes="default", id=None, rank=None, **kw):
        def b(w):
            k = {a: (v(w) if callable(v) else v) for a, v in kw.items()}
            if red:
                k["reduction"] = K(red)
            m = w.do(w.get("metrics." + cls), **k)
            args = [w.tensor("y_pred", rank), w.tensor("y_true", rank)]
            if rank is None:
                same_shape(w, *args)
                w.fact(ge0(sub(w.isym("n"), ONE)))
            else:
                same_shape(w, *args, rank=rank)
            ck = {}
            if reduce_axes == "sym":
                ck["reduce_axes"] = w.tup(w.axes(2))
            elif reduce_axes == "sym1":
                ck["reduce_axes"] = N(w.axes(1)[0], "int")
            elif isinstance(reduce_axes, V):
                ck["reduce_axes"] = reduce_axes
            return m, args, ck
        case(id or f"{cls}.{red}.{reduce_axes}", f"metrics.{cls}", ("metric",), cls=cls)(b)
    for cls in ("MSE", "PSNR"):
        metric(cls, None, "default", rank=4)
        metric(cls, "mean", "sym")
        metric(cls, "sum", "sym")
        metric(cls, "none", "sym")
        metric(cls, "mean", "sym1")
    metric("PSNR", "mean", "sym", id="PSNR.eps", eps=lambda w: w.real("eps"), max_value=lambda w: w.real("mx"))

    def ssim(cls, id, blur="gaussian", rank=4, axes=None, full=None, kernel=None, **kw):
        def b(w):
            k = {a: (v(w) if callable(v) else v) for a, v in kw.items()}
            if kernel == "maybe_empty":
                k["blur"] = w.do(w.get("pooling.SeparablePoolNd"), kernel=maybe_empty(w, "ker"))
            elif kernel:
                k["blur"] = w.do(w.get("pooling.AvgPoolNd"), kernel_size=num(kernel))
            elif blur:
                k["blur"] = K(blur)
            m = w.do(w.get("metrics." + cls), **k)
            x, y = w.tensor("y_pred", rank), w.tensor("y_true", rank)
            same_shape(w, x, y, rank=rank)
            ck = {}
            if axes:
                a = w.axes(axes)
                ck["content_axes"] = w.tup(a[:-1]) if axes > 1 else w.tup(a)
                ck["reduce_axes"] = w.tup(a)
            if full:
                ck["full"] = TRUE
            return m, [x, y], ck
        case(id, f"metrics.{cls}", ("metric", "ssim"), cls=cls)(b)
    ssim("SSIM", "SSIM.gauss")
    ssim("SSIM", "SSIM.mean", "mean")
    ssim("SSIM", "SSIM.pad", None, kernel=3, padder=K("reflect"))
    ssim("SSIM", "SSIM.pad.nocrop", None, kernel=3, padder=K("reflect"), crop_border=FALSE)
    ssim("SSIM", "SSIM.full", None, kernel=3, padder=K("reflect"), full=True)
    ssim("SSIM", "SSIM.sym", None, kernel=3, rank=None, axes=3)
    ssim("SSIM", "SSIM.K", None, kernel=3, K1=lambda w: w.real("K1"), K2=lambda w: w.real("K2"), use_sample_covariance=FALSE)
    ssim("SSIM", "SSIM.maybe_empty", None, kernel="maybe_empty")
    ssim("MS_SSIM", "MSSSIM.default", None, kernel=3)
    ssim("MS_SSIM", "MSSSIM.gauss")
    ssim("MS_SSIM", "MSSSIM.sum", None, kernel=3, use_prod=FALSE, weights=lambda w: TUP((w.real("w0"), w.real("w1"))))
    ssim("MS_SSIM", "MSSSIM.one", None, kernel=3, weights=lambda w: TUP((w.real("w0"),)))
    ssim("MS_SSIM", "MSSSIM.pad", None, kernel=3, padder=K("reflect"), weights=lambda w: TUP((w.real("w0"), w.real("w1"))))

    for cls in ("GaussianEdgeLoss", "WeightedMul", "WeightedDiv", "WeightedSum"):
        def b(w, cls=cls):
            m = w.do(w.get("contrib.edge_loss." + cls), kernel_size=num(5), sigma=w.real("sigma"), order=num(1))
            x, y = w.tensor("y_pred", 4), w.tensor("y_true", 4)
            same_shape(w, x, y, rank=4)
            return m, [x, y], {}
        case("contrib." + cls, "contrib.edge_loss." + cls, ("loss",), cls=cls)(b)

    # ------------------------------------------------------------------ color filter arrays
    def cfa(fn, ch, sensor=None, even=True):
        def b(w):
            h, v = w.isym("h"), w.isym("v")
            w.fact(ge0(sub(h, ONE)))
            w.fact(ge0(sub(v, ONE)))
            d = (mul(const(2), h), mul(const(2), v)) if even else (h, v)
            x = w.tensor("x", shape=(w.isym("bs"), const(ch)) + d)
            args = [x]
            if sensor:
                args.append(K(sensor))
            return w.get("cfa.utils." + fn), args, {}
        case(f"cfa.{fn}" + (f".{sensor}" if sensor else ""), "cfa.utils." + fn, ("cfa",), sensor=sensor, fn=fn)(b)
    cfa("bayer_1c_to_4c", 1)
    cfa("bayer_4c_to_1c", 4, even=False)
    for s in SENSORS:
        cfa("rgb_to_1c_bayer", 3, s)
        cfa("rgb_to_4c_bayer", 3, s)
        cfa("downsample_1c_bayer_to_rgb", 1, s)
        cfa("downsample_4c_bayer_to_rgb", 4, s, even=False)

    def bimg(w, ch, name="x"):
        h, v = w.isym("h"), w.isym("v")
        w.fact(ge0(sub(h, ONE)))
        w.fact(ge0(sub(v, ONE)))
        return w.tensor(name, shape=(w.isym("bs"), ch if isinstance(ch, Poly) else const(ch), mul(const(2), h), mul(const(2), v)))
    for s in SENSORS:
        for cls in ("BayerConv2d", "BayerConv2dUnshuffle"):
            def b(w, s=s, cls=cls):
                c = w.do(w.get("cfa." + cls), num(1), num(2), num(5), FALSE)
                return c, [bimg(w, 1), K(s)], {}
            case(f"cfa.{cls}.{s}", "cfa." + cls, ("cfa", "conv"), sensor=s, cls=cls)(b)

        def b(w, s=s):
            return w.get("cfa.last_step_demosaic"), [bimg(w, 1), bimg(w, 2, "y"), K(s)], {}
        case(f"cfa.last_step_demosaic.{s}", "cfa.last_step_demosaic", ("cfa",), sensor=s)(b)

        def b(w, s=s):
            return w.get("cfa.demosaic"), [bimg(w, 1), K(s)], {}
        case(f"cfa.demosaic.{s}", "cfa.demosaic", ("cfa", "conv"), sensor=s)(b)

    # ------------------------------------------------------------------ random
    def crop(w, size="int"):
        a = w.axes(2)
        sz = w.int("size")
        w.fact(ge0(sz.p))
        if size == "per":
            s2 = w.int("size2")
            sz = TUP((sz, s2))
        elif size == "none":
            sz = TUP((NONE, sz))
        elif size == "whole":
            sz = NONE
        return w.get("random.random_crop"), [w.tensor("x"), w.tup(a), sz], dict(generator=w.generator())
    for s in ("int", "per", "none", "whole"):
        case(f"random_crop.{s}", "random.random_crop", ("random", "crop"))(lambda w, s=s: crop(w, s))

    def noise(w, fn):
        args = [w.tensor("x")]
        w.fact(ge0(sub(w.isym("n"), ONE)))
        if fn == "add_poisson_gauss_noise":
            args.append(w.real("k"))
        args.append(w.real("sigma"))
        return w.get("random." + fn), args, dict(generator=w.generator())
    for fn in ("add_gauss_noise", "add_poisson_gauss_noise"):
        case("random." + fn, "random." + fn, ("random", "noise"))(lambda w, fn=fn: noise(w, fn))

    # ------------------------------------------------------------------ misc / shapes / operator
    def outer(w):
        return w.get("misc.outer"), [w.tensor("u", 2), w.tensor("v", 1)], {}
    case("misc.outer", "misc.outer", ("misc",))(outer)
    for k in (1, 2, 3, 4):
        def poly(w, k=k):
            w.fact(ge0(sub(w.isym("n"), ONE)))
            return w.get("misc.poly1d"), [w.tensor("x"), w.list([w.real(f"c{i}") for i in range(k)])], {}
        case(f"misc.poly1d.{k}", "misc.poly1d", ("misc",))(poly)

    def sp(w, t=False):
        w.fact(ge0(sub(w.isym("n"), ONE)))
        return w.get("misc.safe_power"), [w.tensor("x"), w.tensor("e") if t else w.real("e")], {}
    case("misc.safe_power.s", "misc.safe_power", ("misc",))(lambda w: sp(w))
    case("misc.safe_power.t", "misc.safe_power", ("misc",))(lambda w: sp(w, True))

    def desc(w):
        return w.get("misc.describe"), [w.tensor("x", 2)], {}
    case("misc.describe", "misc.describe", ("misc", "scalars"))(desc)

    def conv(w, last):
        kw = dict(dim=num(-1 if last else 1), stride=w.int("s"), dilation=w.int("d"))
        return w.get("pooling.operator.any_conv_1d"), [w.tensor("x", 3), w.tensor("ker", 1)], kw
    case("any_conv_1d.last", "pooling.operator.any_conv_1d", ("misc",))(lambda w: conv(w, True))
    case("any_conv_1d.mid", "pooling.operator.any_conv_1d", ("misc",))(lambda w: conv(w, False))
    return out


def same_shape(w, x, y, rank=None):
    """assume two tensors have the same shape"""
    st, m = w.st, w.ip.m
    tx, ty = m.cell_term(st, x.oid), m.cell_term(st, y.oid)
    nx, ny = tx.as_atom(), ty.as_atom()
    if rank is not None:
        sh = tuple(P(N_("dim", nx, const(i))) for i in range(rank))
        w.ip.rank[("shape", nx)] = sh
        w.ip.rank[("shape", ny)] = sh
        for d in sh:
            w.fact(ge0(sub(d, ONE)))
    else:
        w.ip.rank[("shapeof", ny)] = nx
