"""Which calls complete and which are rejected: axes, invalid arguments, same padding, absence of exceptions."""
import itertools
from .functional import *
from .functional import FCase, Want, compare_one, summarise_padding, strip_items, name_draws, with_ref, K_, lens, pooling_cases
from ..catalog import symker, same_shape, pw, cases as catalog_cases, SENSORS
from .filters import nums

DOCUMENTED = ("ValueError", "AssertionError")


# ====================================================================== rejected calls
class RCase:
    """go(w, v) returns a thunk of calls; v(name) is a parameter: symbolic with facts, or one of `grid` values"""

    def __init__(self, id, entry, go, what, params=None, exc=DOCUMENTED):
        self.id, self.entry, self.go, self.what, self.params, self.exc = id, entry, go, what, params or {}, exc


def run_rejected(src, case, fixed=None):
    w = World(src)

    def v(name):
        if fixed is not None:
            return num(fixed[name])
        lo, hi = case.params[name][1:3]
        x = w.int(name)
        if lo is not None:
            w.fact(ge0(sub(x.p, const(lo))))
        if hi is not None:
            w.fact(ge0(sub(const(hi), x.p)))
        return x
    th = case.go(w, v)
    return w, w.attempt(th)


def rejected(ctx, rule, cs):
    def one(case):
        con = case.entry
        w, r = run_rejected(ctx.src, case)
        if r.undecided or r.returns is None:
            return [und_of(rule, case, r)]
        runs = [("", r)]
        if r.returns and case.params:
            # not refuted for every value: instances decide
            runs = []
            names = sorted(case.params)
            for vals in itertools.product(*[case.params[n][0] for n in names]):
                fx = dict(zip(names, vals))
                w, r = run_rejected(ctx.src, case, fx)
                if not r.undecided and r.returns is not None:
                    runs.append((" with " + ", ".join(f"{k}={v}" for k, v in fx.items()), r))
                if r.returns and not r.undecided:
                    break
            else:
                return [und(rule, con, f"case {case.id}: {case.what} not shown to be rejected for every value")]
        lab, r = runs[-1]
        if r.returns:
            return [bad(rule, con, f"{case.what}{lab} is accepted: the call returns {str(r.value)[:60]} instead of raising")]
        ex = [e for e in r.events if e.kind == "raise" and not e.data.get("caught")]
        wrong = [e for e in ex if e.data["exc"] not in case.exc]
        if not ex:
            return [und(rule, con, f"case {case.id}: never returns, exception unknown")]
        if len(wrong) == len(ex):
            return [bad(rule, con, f"{case.what}{lab} raises {wrong[0].data['exc']} at {wrong[0].where} instead of {' or '.join(case.exc)}")]
        if wrong:
            return [und(rule, con, f"case {case.id}: raises one of {sorted({e.data['exc'] for e in ex})}")]
        return [ok(rule, con, f"{case.what}: every path raises {ex[-1].data['exc']} ({ex[-1].func}:{ex[-1].line})")]
    return ctx.map(one, cs)


def T2(*xs):
    return TUP(tuple(num(x) if isinstance(x, (int, Fraction)) else x for x in xs))


def rejected_cases():
    out = []

    def case(id, entry, what, exc=DOCUMENTED, **params):
        def deco(f):
            out.append(RCase(id, entry, f, what, params, exc))
        return deco
    img = lambda w, rank=4, name="x": w.tensor(name, rank)

    # ---------------------------------------------------------------- padding
    P_ = "padding.Padder"
    for i, (md, mk) in enumerate((
            ("an unknown padding mode", lambda w: K("mirror")), ("an empty padding mode", lambda w: K("")),
            ("an unknown mode in a list of modes", lambda w: TUP((K("reflect"), K("mirror")))),
            ("an unknown mode in front of a list of modes", lambda w: w.list([K("wrap"), K("reflect")])),
            ("an upper-case mode", lambda w: K("REFLECT")), ("None as padding mode", lambda w: NONE),
            ("a number as padding mode", lambda w: num(0)))):
        @case(f"mode.{i}", P_, md)
        def _(w, v, mk=mk):
            return lambda: w.do(w.get(P_), pad_width=num(1), mode=mk(w))
    neg = ([-1, -3], None, -1)
    for nm, mk in (("scalar", lambda w, v: v("k")), ("before", lambda w, v: T2(v("k"), 2)), ("after", lambda w, v: T2(2, v("k"))),
                   ("listed", lambda w, v: TUP((T2(1, 1), T2(0, v("k"))))), ("listed2", lambda w, v: w.list([T2(v("k"), 1), T2(0, 1)]))):
        @case(f"width.{nm}", P_, f"a negative pad width ({nm})", k=neg)
        def _(w, v, mk=mk):
            a = mk(w, v)
            return lambda: w.do(w.get(P_), pad_width=a, mode=K("replicate"))
    for nm, kw in (("modes", dict(pad_width=lambda w: TUP((T2(1, 1), T2(2, 2))), mode=lambda w: TUP((K("reflect"),) * 3))),
                   ("constants", dict(pad_width=lambda w: TUP((T2(1, 1), T2(2, 2))), constant_values=lambda w: TUP((T2(0, 0),) * 3))),
                   ("ends", dict(mode=lambda w: TUP((K("linear_ramp"),) * 3), end_values=lambda w: TUP((T2(0, 0),) * 2))),
                   ("stats", dict(pad_width=lambda w: TUP((T2(1, 1),) * 3), stat_length=lambda w: TUP((T2(1, 1), T2(2, 2)))))):
        @case(f"lengths.{nm}", P_, f"per-axis settings of different lengths ({nm})")
        def _(w, v, kw=kw):
            a = {k: f(w) for k, f in kw.items()}
            return lambda: w.do(w.get(P_), **a)
    for nm, mk in (("triple", lambda w: T2(1, 2, 3)), ("triples", lambda w: TUP((T2(1, 2, 3), T2(1, 2, 3))))):
        @case(f"pair.{nm}", P_, f"a pad width that is no pair ({nm})")
        def _(w, v, mk=mk):
            a = mk(w)
            return lambda: w.do(w.get(P_), pad_width=a, mode=K("reflect"))

    @case("pad.0d", P_ + ".forward", "a tensor without axes")
    def _(w, v):
        p = w.do(w.get(P_), pad_width=num(1), mode=K("reflect"))
        x = img(w, 0)
        return lambda: w.do(w.method(p, "forward"), x, num(0))
    S_ = "padding.utils.same_padding_width"
    for st in (2, 3):
        @case(f"same.{st}", S_, f"stride {st} without the input size")
        def _(w, v, st=st):
            return lambda: w.do(w.get(S_), v("k"), num(st))
        out[-1].params = dict(k=([1, 2, 5], 0, None))

    @case("same.none", S_, "stride None without the input size", k=([2, 5], 2, None))
    def _(w, v):
        return lambda: w.do(w.get(S_), v("k"), NONE)

    @case("to_same.none", P_ + ".to_same", "stride 2 without the input size")
    def _(w, v):
        p = w.do(w.get(P_), mode=K("reflect"))
        return lambda: w.do(w.method(p, "to_same"), num(3), num(2))
    F_ = "padding.utils.pad_width_format"
    for s, t in (("numpy", "tensorflow"), ("scipy", "torch"), ("jax", "numpy")):
        @case(f"format.{s}.{t}", F_, f"pad width formats {s} and {t}")
        def _(w, v, s=s, t=t):
            return lambda: w.do(w.get(F_), TUP((T2(1, 2), T2(3, 4))), source=K(s), target=K(t))

    @case("format.ndim", F_, "conversion to numpy format without the number of axes")
    def _(w, v):
        return lambda: w.do(w.get(F_), T2(1, 2, 3, 4), source=K("torch"), target=K("numpy"))

    # ---------------------------------------------------------------- axes out of range
    def axes_variants(f):
        for nm, mk, pr in (
                ("int", lambda w, v: v("a"), True), ("tuple", lambda w, v: T2(1, v("a")), True), ("list", lambda w, v: w.list([v("a"), num(1)]), True)):
            for side, rng in (("high", ([4, 5, 7], 4, None)), ("low", ([-5, -6, -9], None, -5))):
                f(f"{nm}.{side}", mk, f"axis {'4 or more' if side == 'high' else '-5 or less'} of a tensor with 4 axes ({nm})", rng)

    def ax_case(pre, entry, mkcall):
        def f(nm, mk, what, rng):
            def go(w, v):
                return mkcall(w, mk(w, v))
            out.append(RCase(f"{pre}.{nm}", entry, go, what, dict(a=rng)))
        axes_variants(f)
    ax_case("axes.check", "utils.validation.check_axes", lambda w, a: (lambda: w.do(w.get("utils.validation.check_axes"), img(w), a)))

    def pad_axes(w, a):
        p = w.do(w.get(P_), pad_width=num(1), mode=K("reflect"))
        x = img(w)
        return lambda: w.do(w.method(p, "forward"), x, a)
    ax_case("axes.pad", P_ + ".forward", pad_axes)

    def pool_axes(cls, kwf, filt=None):
        def f(w, a):
            p = w.do(w.get("pooling." + cls), **kwf(w))
            if filt:
                w.do(w.method(p, "to_filter"), K(filt))
            x = img(w)
            return lambda: w.do(w.method(p, "forward"), x, a)
        return f
    ax_case("axes.sep", "pooling.SeparablePoolNd.forward", pool_axes("SeparablePoolNd", lambda w: dict(kernel=w.list([w.real("k0"), w.real("k1")]))))
    ax_case("axes.avg", "pooling.AvgPoolNd.forward", pool_axes("AvgPoolNd", lambda w: dict(kernel_size=num(3)), "reflect"))
    ax_case("axes.gauss", "pooling.GaussianPoolNd.forward", pool_axes("GaussianPoolNd", lambda w: dict(kernel_size=num(3), sigma=num(1))))

    def edge_axes(meth):
        def f(w, a):
            e = w.do(w.get("filtering.Sobel"))
            x = img(w)
            return lambda: w.do(w.method(e, meth), x, a)
        return f
    for m in ("magnitude", "all_components"):
        ax_case("axes." + m, "filtering.EdgeFilter." + m, edge_axes(m))

    def comp_axes(w, a):
        e = w.do(w.get("filtering.Sobel"))
        x = img(w)
        return lambda: w.do(w.method(e, "component"), x, num(3), a)
    ax_case("axes.component.smooth", "filtering.EdgeFilter.component", comp_axes)

    def unsharp_axes(w, a):
        b = w.do(w.get("pooling.GaussianPoolNd"), kernel_size=num(3), sigma=num(1))
        u = w.do(w.get("filtering.UnsharpMask"), b, num(1))
        x = img(w)
        return lambda: w.do(w.method(u, "forward"), x, a)
    ax_case("axes.unsharp", "filtering.UnsharpMask.forward", unsharp_axes)

    def metric_axes(cls):
        def f(w, a):
            m = w.do(w.get("metrics." + cls))
            x, y = img(w, 4, "y_pred"), img(w, 4, "y_true")
            same_shape(w, x, y, rank=4)
            return lambda: w.do(m, x, y, reduce_axes=a)
        return f
    ax_case("axes.mse", "metrics.MSE", metric_axes("MSE"))
    ax_case("axes.psnr", "metrics.PSNR", metric_axes("PSNR"))

    def ssim_axes(cls, which):
        def f(w, a):
            k = w.list([w.real("k0"), w.real("k1"), w.real("k2")])
            m = w.do(w.get("metrics." + cls), blur=w.do(w.get("pooling.SeparablePoolNd"), kernel=k))
            x, y = img(w, 4, "y_pred"), img(w, 4, "y_true")
            same_shape(w, x, y, rank=4)
            return lambda: w.do(m, x, y, **{which: a})
        return f
    for cls in ("SSIM", "MS_SSIM"):
        for wh in ("content_axes", "reduce_axes"):
            ax_case(f"axes.{cls}.{wh}", "metrics." + cls, ssim_axes(cls, wh))

    def crop_axes(w, a):
        x = img(w)
        return lambda: w.do(w.get("random.random_crop"), x, a, num(2))
    ax_case("axes.crop", "random.random_crop", crop_axes)

    # ---------------------------------------------------------------- pooling
    SP = "pooling.SeparablePoolNd"
    low = ([0, -1, -4], None, 0)
    for nm, mk in (("scalar", lambda w, v: v("s")), ("first", lambda w, v: T2(v("s"), 1)), ("last", lambda w, v: w.list([num(2), v("s")]))):
        @case(f"stride.{nm}", SP, f"a stride below 1 ({nm})", s=low)
        def _(w, v, mk=mk):
            k = w.list([w.real("k0"), w.real("k1")])
            s = mk(w, v)
            return lambda: w.do(w.get(SP), kernel=k, stride=s)

        @case(f"stride.avg.{nm}", "pooling.AvgPoolNd", f"a stride below 1 ({nm})", s=low)
        def _(w, v, mk=mk):
            s = mk(w, v)
            return lambda: w.do(w.get("pooling.AvgPoolNd"), kernel_size=num(3), stride=s)
    for nm, mk in (("number", lambda w: num(1)), ("bool", lambda w: TRUE), ("list", lambda w: w.list([K("reflect")])), ("tuple", lambda w: T2(1, 1))):
        for cls, kw in (("SeparablePoolNd", lambda w: dict(kernel=w.list([w.real("k0"), w.real("k1")]))), ("AvgPoolNd", lambda w: dict(kernel_size=num(3))),
                        ("GaussianPoolNd", lambda w: dict(kernel_size=num(3), sigma=num(1)))):
            @case(f"padder.{cls}.{nm}", "pooling." + cls, f"a same_padder that is no mode and no Padder ({nm})")
            def _(w, v, cls=cls, kw=kw, mk=mk):
                k = kw(w)
                p = mk(w)
                return lambda: w.do(w.get("pooling." + cls), same_padder=p, **k)

        @case(f"padder.to_filter.{nm}", SP + ".to_filter", f"a padder that is no mode and no Padder ({nm})")
        def _(w, v, mk=mk):
            p = w.do(w.get(SP), kernel=w.list([w.real("k0"), w.real("k1")]))
            q = mk(w)
            return lambda: w.do(w.method(p, "to_filter"), q)

    @case("padder.unknown", SP, "an unknown mode as same_padder")
    def _(w, v):
        k = w.list([w.real("k0"), w.real("k1")])
        return lambda: w.do(w.get(SP), kernel=k, same_padder=K("mirror"))
    for n in (1, 3):
        for cls, kw in (("SeparablePoolNd", lambda w: dict(kernel=TUP((symker(w, "ker0"), symker(w, "ker1"))))),
                        ("AvgPoolNd", lambda w: dict(kernel_size=T2(2, 3))),
                        ("GaussianPoolNd", lambda w: dict(kernel_size=T2(3, 5), sigma=num(1))),
                        ("SeparablePoolNd", lambda w: dict(kernel=w.list([w.real("k0"), w.real("k1")]), stride=T2(1, 2)))):
            for filt in (False, True):
                if filt and "stride" in kw.__code__.co_consts.__str__():
                    continue

                @case(f"count.{cls}.{n}.{filt}.{len(out)}", f"pooling.{cls}.forward", f"settings for two axes applied to {n} axes")
                def _(w, v, cls=cls, kw=kw, n=n, filt=filt):
                    p = w.do(w.get("pooling." + cls), **kw(w))
                    if filt:
                        w.do(w.method(p, "to_filter"), K("reflect"))
                    x = img(w)
                    return lambda: w.do(w.method(p, "forward"), x, T2(*range(1, 1 + n)))
    for nm, mk in (("two", lambda w: dict(kernel=TUP((w.list([num(1)]), w.list([num(1), num(2)]))), stride=T2(1, 1, 1))),
                   ("three", lambda w: dict(kernel=TUP((w.list([num(1)]),) * 3), stride=T2(1, 2)))):
        @case(f"lengths.pool.{nm}", SP, "kernels and strides for different numbers of axes")
        def _(w, v, mk=mk):
            a = mk(w)
            return lambda: w.do(w.get(SP), **a)

    @case("lengths.gauss", "pooling.GaussianPoolNd", "kernel sizes and sigmas for different numbers of axes")
    def _(w, v):
        return lambda: w.do(w.get("pooling.GaussianPoolNd"), kernel_size=T2(3, 5), sigma=T2(1, 2, 3))
    for ks in (3, 4):
        @case(f"order.{ks}", "pooling.GaussianPoolNd", "a negative derivative order", o=([-1, -2], None, -1))
        def _(w, v, ks=ks):
            return lambda: w.do(w.get("pooling.GaussianPoolNd"), kernel_size=num(ks), sigma=num(1), order=v("o"))

    # ---------------------------------------------------------------- edge filters
    for nm, mk in (("edge", lambda w: dict(edge_kernel=TUP((w.list([num(-1), num(0), num(1)]),) * 2), smooth_kernel=w.list([num(1), num(2), num(1)]))),):
        @case(f"edge.{nm}", "filtering.EdgeFilter", "several edge kernels")
        def _(w, v, mk=mk):
            a = mk(w)
            return lambda: w.do(w.get("filtering.EdgeFilter"), **a)
    for nm, mk in (("tuple", lambda w: T2(2, 3)), ("list", lambda w: w.list([num(0), num(-1)])), ("slice", lambda w: SLC(num(2), NONE, NONE)),
                   ("none", lambda w: NONE), ("empty", lambda w: TUP(()))):
        @case(f"edge.axis.{nm}", "filtering.EdgeFilter.component", f"a number of edge axes other than one ({nm})")
        def _(w, v, mk=mk):
            e = w.do(w.get("filtering.Prewitt"))
            x = img(w)
            a = mk(w)
            return lambda: w.do(w.method(e, "component"), x, a, num(1))
    for m in ("magnitude", "all_components"):
        for nm, mk, rk in (("int", lambda w: num(2), 4), ("tuple", lambda w: T2(-1), 4), ("empty", lambda w: TUP(()), 4), ("slice", lambda w: SLC(num(3), NONE, NONE), 4),
                           ("none", lambda w: NONE, 1)):
            @case(f"edge.{m}.{nm}", "filtering.EdgeFilter." + m, f"a gradient along fewer than two axes ({nm})")
            def _(w, v, mk=mk, m=m, rk=rk):
                e = w.do(w.get("filtering.Scharr"))
                x = img(w, rk)
                a = mk(w)
                return lambda: w.do(w.method(e, m), x, a)
    for nm, kw in (("size", dict(kernel_size=T2(3, 5), sigma=num(1))), ("sigma", dict(kernel_size=num(3), sigma=T2(1, 2)))):
        @case(f"grad.{nm}", "filtering.GaussianGrad", f"several {nm} values without the edge kernel's own {nm}")
        def _(w, v, kw=kw):
            return lambda: w.do(w.get("filtering.GaussianGrad"), **kw)

    # ---------------------------------------------------------------- metrics
    for cls in ("MSE", "PSNR"):
        for red in ("average", "Mean", ""):
            @case(f"reduction.{cls}.{red or 'empty'}", "metrics." + cls, f"an unknown reduction {red!r}")
            def _(w, v, cls=cls, red=red):
                x, y = img(w, 4, "y_pred"), img(w, 4, "y_true")
                same_shape(w, x, y, rank=4)

                def go():
                    m = w.do(w.get("metrics." + cls), reduction=K(red))
                    return w.do(m, x, y)
                return go
    for cls in ("MSE", "PSNR", "SSIM", "MS_SSIM"):
        for nm, (sa, sb) in dict(batch=((2, 3, 200, 200), (1, 3, 200, 200)), size=((1, 3, 200, 201), (1, 3, 200, 200)), swap=((1, 1, 200, 210), (1, 1, 210, 200)),
                                 rank=((1, 1, 200, 210), (1, 200, 210)), channel=((1, 3, 200, 200), (1, 1, 200, 200)),
                                 prefix=((1, 3, 200, 200), (1, 3, 200, 200, 2)), longer=((1, 3, 200, 200, 200), (1, 3, 200, 200)), suffix=((200, 200, 200, 200), (200, 200, 200)),
                                 same_volume=((2, 3, 200, 200), (3, 2, 200, 200)), low=((3,), (3, 3)), scalar=((4,), ()), one=((1, 1, 200, 200), (1, 1, 200, 1))).items():
            @case(f"shapes.{cls}.{nm}", "metrics." + cls, f"images of shapes {sa} and {sb}")
            def _(w, v, cls=cls, sa=sa, sb=sb):
                x, y = w.tensor("y_pred", shape=sa), w.tensor("y_true", shape=sb)
                m = w.do(w.get("metrics." + cls))
                return lambda: w.do(m, x, y)
    for nm, sh, kw in (("default", (1, 1, 176, 300), {}), ("second", (1, 1, 300, 176), {}), ("two", (1, 1, 22, 100), dict(weights=T2(1, 1))),
                       ("three", (1, 1, 100, 44), dict(weights=T2(1, 1, 1))), ("one", (1, 1, 11, 30), dict(weights=T2(1)))):
        @case(f"small.{nm}", "metrics.MS_SSIM", f"an image of shape {sh}, too small for the coarsest level")
        def _(w, v, sh=sh, kw=kw):
            x, y = w.tensor("y_pred", shape=sh), w.tensor("y_true", shape=sh)
            m = w.do(w.get("metrics.MS_SSIM"), **kw)
            return lambda: w.do(m, x, y)

    # ---------------------------------------------------------------- colour filter arrays
    U_ = "cfa.utils."
    for s in ("RGB", "RGGBB", "RGRG", "XXXX", "RRGB", ""):
        for fn, sh in (("rgb_to_1c_bayer", (1, 3, 4, 4)), ("rgb_to_4c_bayer", (1, 3, 4, 4)), ("downsample_1c_bayer_to_rgb", (1, 1, 4, 4)), ("downsample_4c_bayer_to_rgb", (1, 4, 4, 4))):
            @case(f"sensor.{fn}.{s or 'empty'}", U_ + fn, f"the sensor alignment {s!r}")
            def _(w, v, s=s, fn=fn, sh=sh):
                x = w.tensor("x", shape=sh)
                return lambda: w.do(w.get(U_ + fn), x, K(s))
    for fn, ch, sens in (("bayer_1c_to_4c", 1, 0), ("bayer_4c_to_1c", 4, 0), ("rgb_to_1c_bayer", 3, 1), ("rgb_to_4c_bayer", 3, 1),
                         ("downsample_1c_bayer_to_rgb", 1, 1), ("downsample_4c_bayer_to_rgb", 4, 1)):
        sens = [K("RGGB")] if sens else []
        for c in (1, 2, 3, 4, 5):
            if c != ch:
                @case(f"channels.{fn}.{c}", U_ + fn, f"an image with {c} channels")
                def _(w, v, fn=fn, c=c, sens=sens):
                    x = w.tensor("x", shape=(1, c, 4, 4))
                    return lambda: w.do(w.get(U_ + fn), x, *sens)

        @case(f"rank.{fn}", U_ + fn, "an image of rank 2")
        def _(w, v, fn=fn, sens=sens):
            x = w.tensor("x", shape=(4, 4))
            return lambda: w.do(w.get(U_ + fn), x, *sens)
        if ch != 4:
            for hh, ww in ((5, 4), (4, 7), (3, 3)):
                @case(f"odd.{fn}.{hh}.{ww}", U_ + fn, f"an image of odd size {hh}x{ww}")
                def _(w, v, fn=fn, ch=ch, hh=hh, ww=ww, sens=sens):
                    x = w.tensor("x", shape=(1, ch, hh, ww))
                    return lambda: w.do(w.get(U_ + fn), x, *sens)
    return out


def reject_pass(ctx):
    return rejected(ctx, "rejected", rejected_cases())


# ====================================================================== axes
class ACase:
    """two spellings of the same axes: build(w) returns a function from the axes argument(s) to (callable, args, kwargs)"""

    def __init__(self, id, entry, build, spelled, canon, what):
        self.id, self.entry, self.build, self.spelled, self.canon, self.what = id, entry, build, spelled, canon, what


class Same:
    """the call with the first arguments and, from the same state, the call with the second arguments"""

    def __init__(self, ctx, build, one, two, pads=True, facts=None):
        self.w = w = World(with_ref(ctx.src))
        if pads:
            summarise_padding(w)
        mk = build(w)
        ip = w.ip
        f, a, k = mk(one(w))
        f2, a2, k2 = mk(two(w))
        snap, sn, ct, ln = w.st.clone(), dict(ip.site_n), ip._ctr, dict(ip.loop_n)
        self.d = dict(f=f, args=a, kw=k, axes=[], other=[], draws=False)
        self.r = w.run(f, *a, **k)
        self.terms = self.r.terms() if self.r.returns else None
        w.st.become(snap.clone())
        ip.site_n, ip._ctr, ip.loop_n = dict(sn), ct, dict(ln)
        defs = dict(ip.mu_defs)
        ip.mu_ids = {}
        self.rr = w.run(f2, *a2, **k2)
        self.rterms = self.rr.terms() if self.rr.returns else None
        self.same = self.r.returns and self.rr.returns and not self.r.undecided and not self.rr.undecided \
            and [(p, t) for p, t, _ in self.terms] == [(p, t) for p, t, _ in self.rterms] and all(ip.mu_defs.get(k) == v for k, v in defs.items())


def same_results(ctx, rule, cs):
    def one(case):
        con = case.entry
        F = Same(ctx, case.build, case.spelled, case.canon, pads=not case.entry.startswith("padding"))
        if F.same:
            return [ok(rule, con, f"case {case.id}: {case.what}")]
        for r in (F.r, F.rr):
            if r.undecided or r.returns is None:
                return [und_of(rule, case, r)]
        if F.r.returns != F.rr.returns:
            return [bad(rule, con, f"{case.what}: only the {'first' if F.rr.returns else 'second'} call raises")]
        if not F.r.returns:
            ex = [e for e in F.r.events if e.kind == "raise" and not e.data.get("caught")]
            return [bad(rule, con, f"{case.what}: both calls raise {ex[-1].data['exc'] if ex else ''}")]
        if "random" in case.entry:
            F.d["draws"] = True
        o = compare(F, case, rule)
        for x in o:
            x.text = f"{case.what}: {x.text}"
        return o
    return ctx.map(one, cs)


def slc(*a):
    q = [NONE if x is None else num(x) for x in a]
    return SLC(*(q + [NONE] * (3 - len(q))))


SPELL2 = (  # axes (2, 3) of four
    ("negative", lambda w: T2(-2, -1)), ("list", lambda w: w.list([num(2), num(3)])), ("mixed list", lambda w: w.list([num(-2), num(3)])),
    ("mixed", lambda w: T2(2, -1)), ("open slice", lambda w: slc(2, None)), ("negative slice", lambda w: slc(-2, None)), ("long slice", lambda w: slc(2, 9)))
SPELL2R = (("negative", lambda w: T2(-1, -2)), ("reversed slice", lambda w: slc(None, 1, -1)), ("mixed list", lambda w: w.list([num(3), num(-2)])))
SPELLALL = (("None", lambda w: NONE), ("full slice", lambda w: slc(None)), ("negative", lambda w: T2(-4, -3, -2, -1)), ("bounded slice", lambda w: slc(0, 4)))
SPELL1 = (("integer", lambda w: num(3)), ("negative integer", lambda w: num(-1)), ("negative tuple", lambda w: T2(-1)), ("list", lambda w: w.list([num(3)])),
          ("slice", lambda w: slc(3, None)), ("negative slice", lambda w: slc(-1, None)))
SPELL0 = (("integer", lambda w: num(0)), ("lowest negative integer", lambda w: num(-4)), ("slice", lambda w: slc(None, 1)), ("lowest negative", lambda w: T2(-4)))
SPELLSTEP = (("stepped slice", lambda w: slc(1, None, 2)), ("negative", lambda w: T2(-3, -1)))


def axes_cases():
    out = []

    def spell(pre, entry, build, groups):
        for canon, sps in groups:
            for nm, mk in sps:
                out.append(ACase(f"{pre}.{canon}.{nm}".replace(" ", ""), entry, build, mk, (lambda w, c=canon: T2(*c)), f"{nm} spelling of axes {canon} of a tensor with 4 axes"))
    two = ((2, 3), SPELL2)
    rev = ((3, 2), SPELL2R)
    al = ((0, 1, 2, 3), SPELLALL)
    one = ((3,), SPELL1)
    zero = ((0,), SPELL0)
    step = ((1, 3), SPELLSTEP)
    every = (two, rev, al, one, zero, step)
    img = lambda w, name="x": w.tensor(name, 4)

    def chk(w):
        x = img(w)
        return lambda a: (w.get("utils.validation.check_axes"), [x, a], {})
    spell("check", "utils.validation.check_axes", chk, every)

    def pad(mode, per):
        def b(w):
            x = img(w)
            p = w.do(w.get("padding.Padder"), pad_width=TUP((T2(1, 2), T2(2, 1))) if per else pw(w), mode=K(mode))
            return lambda a: (w.method(p, "forward"), [x, a], {})
        return b
    spell("pad", "padding.Padder.forward", pad("replicate", False), every)
    spell("pad.per", "padding.Padder.forward", pad("zeros", True), (two, rev, al, step))

    def pool(cls, kwf, padder=None, filt=None):
        def b(w):
            x = img(w)
            kw = kwf(w)
            if padder:
                kw["same_padder"] = K(padder)
            p = w.do(w.get("pooling." + cls), **kw)
            if filt:
                w.do(w.method(p, "to_filter"), K(filt))
            return lambda a: (w.method(p, "forward"), [x, a], {})
        return b
    kk = lambda w: dict(kernel=w.list([w.real("k0"), w.real("k1")]), stride=num(1))
    spell("sep", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", kk), every)
    spell("sep.same", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", lambda w: dict(kernel=w.list([w.real("k0"), w.real("k1"), w.real("k2")])), "reflect"), every)
    spell("sep.per", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", lambda w: dict(kernel=TUP((w.list([w.real("k0")]), w.list([w.real("k1"), w.real("k2")]))), stride=T2(1, 2)), None),
          (two, rev, step))
    spell("avg", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w: dict(kernel_size=num(2))), every)
    spell("avg.filter", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w: dict(kernel_size=num(2)), None, "zeros"), every)
    spell("avg.nopad", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w: dict(kernel_size=num(2), count_include_pad=FALSE), None, "zeros"), (two, one))
    spell("gauss", "pooling.GaussianPoolNd.forward", pool("GaussianPoolNd", lambda w: dict(kernel_size=num(3), sigma=num(1)), None, "reflect"), (two, one, al))

    def unsharp(w):
        b = w.do(w.get("pooling.AvgPoolNd"), kernel_size=num(3))
        u = w.do(w.get("filtering.UnsharpMask"), b, w.real("amount"), padder=K("reflect"))
        x = img(w)
        return lambda a: (w.method(u, "forward"), [x, a], {})
    spell("unsharp", "filtering.UnsharpMask.forward", unsharp, every)

    def edge(meth, cls="Sobel", which="axes"):
        def b(w):
            if cls in ("GaussianGrad", "LaplacianOfGaussian"):
                e = w.do(w.get("filtering." + cls), kernel_size=num(3), sigma=num(1))
            else:
                e = w.do(w.get("filtering." + cls))
            x = img(w)
            if which == "axes":
                return lambda a: (w.method(e, meth), [x, a], {})
            if which == "edge":
                return lambda a: (w.method(e, meth), [x, a, num(2)], {})
            return lambda a: (w.method(e, meth), [x, num(2), a], {})
        return b
    for cls in ("Sobel", "GaussianGrad"):
        spell(f"{cls}.magnitude", "filtering.EdgeFilter.magnitude", edge("magnitude", cls), (two, rev, step) + ((al,) if cls == "Sobel" else ()))
        spell(f"{cls}.all", "filtering.EdgeFilter.all_components", edge("all_components", cls), (two, rev, step))
    spell("component.edge", "filtering.EdgeFilter.component", edge("component", "Sobel", "edge"), (one, zero))
    spell("component.smooth", "filtering.EdgeFilter.component", edge("component", "Sobel", "smooth"), (two, rev, al, one, zero, step))
    for cls in ("Laplace", "LaplacianOfGaussian"):
        spell(cls, f"filtering.{cls}.forward", edge("forward", cls), (two, rev, step))

    def metric(cls, **kw):
        def b(w):
            m = w.do(w.get("metrics." + cls), **{k: f(w) for k, f in kw.items()})
            x, y = img(w, "y_pred"), img(w, "y_true")
            same_shape(w, x, y, rank=4)
            return lambda a: (m, [x, y], dict(reduce_axes=a))
        return b
    spell("MSE", "metrics.MSE", metric("MSE"), every)
    spell("MSE.sum", "metrics.MSE", metric("MSE", reduction=lambda w: K("sum")), (two, one))
    spell("PSNR", "metrics.PSNR", metric("PSNR", eps=lambda w: w.real("eps")), every)

    def ssim(cls, wh, **kw):
        def b(w):
            k = w.list([w.real("k0"), w.real("k1"), w.real("k2")])
            m = w.do(w.get("metrics." + cls), blur=w.do(w.get("pooling.SeparablePoolNd"), kernel=k), **{k: f(w) for k, f in kw.items()})
            x, y = img(w, "y_pred"), img(w, "y_true")
            same_shape(w, x, y, rank=4)
            t = w.ip.m.cell_term(w.st, x.oid)
            for i in range(4):
                w.fact(ge0(sub(w.ip.m.dim_of(t, const(i)), const(20))))
            return lambda a: (m, [x, y], {wh: a})
        return b
    for cls, kw in (("SSIM", {}), ("MS_SSIM", dict(weights=lambda w: T2(1, 1)))):
        spell(f"{cls}.content", "metrics." + cls, ssim(cls, "content_axes", **kw), (two, one, rev))
        spell(f"{cls}.content.pad", "metrics." + cls, ssim(cls, "content_axes", padder=lambda w: K("reflect"), **kw), (two, one))
        spell(f"{cls}.reduce", "metrics." + cls, ssim(cls, "reduce_axes", **kw), (al, two, one, rev))

    def crop(per):
        def b(w):
            x = img(w)
            g = w.generator()
            s = T2(2, 3) if per else num(2)
            return lambda a: (w.get("random.random_crop"), [x, a, s], dict(generator=g))
        return b
    spell("crop", "random.random_crop", crop(False), every)
    spell("crop.per", "random.random_crop", crop(True), (two, rev, step))

    # the default axes
    def dflt(pre, entry, build, canon, rank=4):
        def b(w):
            mk = build(w)

            def f(a):
                fn, args, kw = mk(a if a is not None else NONE)
                if a is None:
                    args = [q for q in args if q != NONE]
                    kw = {k: q for k, q in kw.items() if q != NONE}
                return fn, args, kw
            return f
        out.append(ACase(f"default.{pre}", entry, b, lambda w: None, lambda w, c=canon: T2(*c), f"the default axes {canon} of a tensor with 4 axes"))
    dflt("pad", "padding.Padder.forward", pad("replicate", False), (2, 3))
    dflt("sep", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", kk), (2, 3))
    dflt("avg", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w: dict(kernel_size=num(2))), (2, 3))
    dflt("gauss", "pooling.GaussianPoolNd.forward", pool("GaussianPoolNd", lambda w: dict(kernel_size=num(3), sigma=num(1))), (2, 3))
    dflt("unsharp", "filtering.UnsharpMask.forward", unsharp, (2, 3))
    dflt("magnitude", "filtering.EdgeFilter.magnitude", edge("magnitude"), (0, 1, 2, 3))
    dflt("all", "filtering.EdgeFilter.all_components", edge("all_components"), (0, 1, 2, 3))
    dflt("MSE", "metrics.MSE", metric("MSE"), (0, 1, 2, 3))
    dflt("PSNR", "metrics.PSNR", metric("PSNR"), (0, 1, 2, 3))
    for cls, kw in (("SSIM", {}), ("MS_SSIM", dict(weights=lambda w: T2(1, 1)))):
        dflt(f"{cls}.content", "metrics." + cls, ssim(cls, "content_axes", **kw), (2, 3))
        dflt(f"{cls}.reduce", "metrics." + cls, ssim(cls, "reduce_axes", **kw), (1, 2, 3))
    return out


def norm_cases():
    """check_axes against the definition of python's indexing, for tensors of up to four axes"""
    out = []
    for n in range(1, 5):
        for what, mk, want in ([("None", lambda w: NONE, tuple(range(n)))]
                               + [(f"{a}", (lambda w, a=a: num(a)), (a % n,)) for a in range(-n, n)]
                               + [(f"{s}", (lambda w, s=s: T2(*s)), tuple(a % n for a in s)) for k in (1, 2) for s in itertools.permutations(range(-n, n), k) if n < 4 or k == 1 or s[0] * s[1] <= 0]
                               + [(f"list {list(s)}", (lambda w, s=s: w.list([num(a) for a in s])), tuple(a % n for a in s)) for s in itertools.permutations(range(n), min(n, 3))]
                               + [(f"slice({a}, {b}, {c})", (lambda w, a=a, b=b, c=c: slc(a, b, c)), tuple(range(n))[slice(a, b, c)])
                                  for a in (None, 0, 1, 2, -1, -2, -9, 9) for b in (None, 1, -1, 9) for c in (None, 2, -1)]):
            out.append((f"norm.{n}.{what}", n, what, mk, want))
    return out


class NCase:
    def __init__(self, id, cs):
        self.id, self.cs = id, cs
        self.entry = "utils.validation.check_axes"


def norm_pass(ctx):
    rule = "axes-normalised"

    def one(case):
        out = []
        for id, n, what, mk, want in case.cs:
            w = World(ctx.src, ndspec=False)
            x = w.tensor("x", n)
            r = w.run(w.get(case.entry), x, mk(w))
            if r.undecided or r.returns is None:
                out.append(und(rule, case.entry, f"axes {what} of {n}: " + "; ".join(str(q[3]) for q in r.undecided[:2])))
            elif not r.returns:
                out.append(bad(rule, case.entry, f"axes {what} of a tensor with {n} axes are rejected"))
            else:
                v = r.value
                got = [a.p.as_int() if isinstance(a, N) else None for a in v.items] if isinstance(v, TUP) else None
                if got == list(want):
                    out.append(ok(rule, case.entry, f"axes {what} of {n} -> {want}"))
                elif got is None or None in got:
                    out.append(und(rule, case.entry, f"axes {what} of {n} -> {v}"))
                else:
                    out.append(bad(rule, case.entry, f"axes {what} of a tensor with {n} axes are read as {tuple(got)} instead of {want}"))
        return out
    cs = norm_cases()
    k = 24
    return ctx.map(one, [NCase(cs[i][0], cs[i:i + k]) for i in range(0, len(cs), k)])


def axes_pass(ctx):
    return same_results(ctx, "axes-spelling", axes_cases()) + norm_pass(ctx)


# ====================================================================== same padding
def width_cases():
    out = []
    for s in (1, 2, 3, 4, 5, 7):
        for k in (None, 1, 2, 3, 4, 5):
            def build(w, s=s, k=k):
                n = w.int("in")
                w.fact(ge0(sub(n.p, ONE)))
                kk = w.int("k") if k is None else num(k)
                if k is None:
                    w.fact(ge0(kk.p))
                return dict(f=w.get("padding.utils.same_padding_width"), args=[kk, num(s)], kw=dict(in_size=n), ref="same_widths", rargs=[kk, num(s), n])
            out.append(FCase(f"width.{s}.{k or 'k'}", "padding.utils.same_padding_width", build))

    def build(w):
        k = w.int("k")
        w.fact(ge0(k.p))
        return dict(f=w.get("padding.utils.same_padding_width"), args=[k], ref="same_widths", rargs=[k, num(1), num(1)])
    out.append(FCase("width.stride1", "padding.utils.same_padding_width", build))
    for k in (1, 2, 3, 4, 6):
        def build(w, k=k):
            n = w.int("in")
            w.fact(ge0(sub(n.p, ONE)))
            return dict(f=w.get("padding.utils.same_padding_width"), args=[num(k), NONE, n], ref="same_widths", rargs=[num(k), num(k), n])
        out.append(FCase(f"width.none.{k}", "padding.utils.same_padding_width", build))

    # Padder.to_same: the widths of every axis
    def tosame(id, n, k, s, shape):
        def build(w):
            p = w.do(w.get("padding.Padder"), pad_width=num(5), mode=K("reflect"))
            ks, ss, ns = k(w), s(w), shape(w)

            def pick(v, i):
                if isinstance(v, LST):
                    v = TUP(tuple(w.st.heap[v.oid].c.items))
                return v.items[i] if isinstance(v, TUP) else v
            import ast as _ast
            probe = w.ip.lookup("tiref.widths_of")
            args = [ks] + ([ss] if ss is not None else []) + ([ns] if ns is not None else [])
            ref = []
            for i in range(n):
                ref += [pick(ks, i), pick(ss, i) if ss is not None else num(1), pick(ns, i) if ns is not None else num(1)]
            r = [TUP(tuple(ref[3 * i:3 * i + 3])) for i in range(n)]
            return dict(f=probe, args=[w.method(p, "to_same"), TUP(tuple(args)), num(n)], ref="widths_list", rargs=[TUP(tuple(r))])
        out.append(FCase(id, "padding.Padder.to_same", build))

    def lenk(w, nm, lo=1):
        x = w.int(nm)
        w.fact(ge0(sub(x.p, const(lo))))
        return x
    tosame("same.k", 1, lambda w: lenk(w, "k"), lambda w: None, lambda w: None)
    tosame("same.item", 2, lambda w: lenk(w, "k"), lambda w: num(1), lambda w: w.list([lenk(w, "n0").p, lenk(w, "n1").p]))
    tosame("same.per", 2, lambda w: TUP((lenk(w, "k0"), lenk(w, "k1"))), lambda w: num(1), lambda w: None)
    tosame("same.stride2", 2, lambda w: lenk(w, "k"), lambda w: num(2), lambda w: w.list([lenk(w, "n0").p, lenk(w, "n1").p]))
    tosame("same.strides", 2, lambda w: T2(3, 2), lambda w: T2(2, 3), lambda w: w.list([lenk(w, "n0").p, lenk(w, "n1").p]))
    tosame("same.strides3", 3, lambda w: num(3), lambda w: T2(1, 2, 4), lambda w: TUP((lenk(w, "n0"), lenk(w, "n1"), lenk(w, "n2"))))
    tosame("same.kernels", 2, lambda w: w.list([num(4), num(5)]), lambda w: num(3), lambda w: w.list([lenk(w, "n0").p, lenk(w, "n1").p]))
    return out


class SCase:
    """a call whose result has, along every axis, the length `length(w, x, axis)`"""

    def __init__(self, id, entry, build):
        self.id, self.entry, self.build, self.info = id, entry, build, {}


def shape_cases():
    from ..catalog import MODES
    out = []
    MOD = [m for m in MODES if m != "periodize"]

    def ceil_div(p, s):
        """ceil(p / s) for a positive constant s"""
        return p if s == 1 else floordiv(add(p, const(s - 1)), const(s))

    def add_(id, entry, mk, k=2, order=None, stride=1, rank=None):
        """mk(w) -> callable of (x, axes); every result has the input's shape (divided by the stride)"""
        def build(w):
            f = mk(w)
            if rank is None:
                a = w.axes(k, order or tuple(range(k)))
                b = w.isym("b")
                w.fact(ge0(b))
                w.fact(gt0(sub(w.isym("n"), b)))
                for q in a:
                    w.fact(not_(eq0(sub(b, q))))
                x = w.tensor("x")
                ax, others = a, [b]
            else:
                x = w.tensor("x", rank)
                ax = [const(rank - k + i) for i in range(k)]
                others = [const(i) for i in range(rank - k)]
            t = w.ip.m.cell_term(w.st, x.oid)
            for q in list(ax) + others:
                w.fact(ge0(sub(w.ip.m.dim_of(t, q), ONE)))
            ss = stride if isinstance(stride, tuple) else (stride,) * len(ax)
            d = f(x, w.tup(ax))
            d["want"] = [(q, ceil_div(w.ip.m.dim_of(t, q), s)) for q, s in zip(ax, ss)] + [(q, w.ip.m.dim_of(t, q)) for q in others]
            d["x"] = t
            return d
        out.append(SCase(id, entry, build))

    def pool(cls, kwf, mode, filt, asobj=False):
        def mk(w):
            kw = kwf(w)
            pd = w.do(w.get("padding.Padder"), mode=K(mode), pad_width=T2(4, 1)) if asobj else K(mode)
            if not filt or filt == "own":
                kw["same_padder"] = pd
            p = w.do(w.get("pooling." + cls), **kw)
            if filt == "own":
                w.do(w.method(p, "to_filter"))
            elif filt:
                w.do(w.method(p, "to_filter"), pd)
            return lambda x, a: dict(f=w.method(p, "forward"), args=[x, a])
        return mk

    def ki(w, nm="k"):
        k = w.int(nm)
        w.fact(ge0(sub(k.p, ONE)))
        return k
    sizes = {"SeparablePoolNd": (lambda w: dict(kernel=symker(w, "ker")), lambda w: dict(kernel=TUP((symker(w, "ker0"), symker(w, "ker1"))))),
             "AvgPoolNd": (lambda w: dict(kernel_size=ki(w)), lambda w: dict(kernel_size=TUP((ki(w, "k0"), ki(w, "k1"))))),
             "GaussianPoolNd": (lambda w: dict(kernel_size=num(5), sigma=w.real("sigma")), lambda w: dict(kernel_size=T2(4, 3), sigma=num(1)))}
    for cls, kws in sizes.items():
        e = f"pooling.{cls}.forward"
        for j, kw in enumerate(kws):
            for mode in (MOD if j == 0 or cls == "AvgPoolNd" else ("reflect", "zeros", "linear_ramp", "mean")):
                add_(f"filter.{cls}.{j}.{mode}", e, pool(cls, kw, mode, True))
            add_(f"filter.{cls}.{j}.own", e, pool(cls, kw, "reflect", "own"), order=(1, 0))
            add_(f"filter.{cls}.{j}.padder", e, pool(cls, kw, "symmetric", True, True), order=(1, 0))
    for st in (1, 2, 3, (1, 2), (3, 2)):
        ss = num(st) if isinstance(st, int) else T2(*st)
        for k in (1, 2, 3, 5):
            for cls, kw in (("SeparablePoolNd", lambda w, k=k, ss=ss: dict(kernel=symker(w, "ker", k), stride=ss)),
                            ("AvgPoolNd", lambda w, k=k, ss=ss: dict(kernel_size=num(k), stride=ss)),
                            ("GaussianPoolNd", lambda w, k=k, ss=ss: dict(kernel_size=num(k), sigma=num(1), stride=ss))):
                if cls == "SeparablePoolNd" or k in (2, 3):
                    add_(f"stride.{cls}.{k}.{str(st).replace(' ', '')}", f"pooling.{cls}.forward", pool(cls, kw, "reflect", False), stride=st)
    for k in (1, 2, 3, 4):
        add_(f"stride.none.{k}", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w, k=k: dict(kernel_size=num(k)), "replicate", False), stride=k)
    add_("filter.one", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", sizes["SeparablePoolNd"][0], "reflect", True), k=1)
    add_("filter.three", "pooling.SeparablePoolNd.forward", pool("SeparablePoolNd", sizes["SeparablePoolNd"][0], "reflect", True), k=3)
    add_("filter.avg.nopad", "pooling.AvgPoolNd.forward", pool("AvgPoolNd", lambda w: dict(kernel_size=num(3), count_include_pad=FALSE), "zeros", True), k=2, rank=4)

    def edge(cls, meth, **kw):
        def mk(w):
            e = w.do(w.get("filtering." + cls), **{k: (v(w) if callable(v) else v) for k, v in kw.items()})
            if meth == "component":
                return lambda x, a: dict(f=w.method(e, meth), args=[x, a.items[0], a])
            if meth in ("horizontal", "vertical"):
                return lambda x, a: dict(f=w.method(e, meth), args=[x])
            return lambda x, a: dict(f=w.method(e, meth), args=[x, a])
        return mk
    gk = dict(kernel_size=num(5), sigma=num(1))
    ek = dict(kernel_size=num(4), sigma=num(1))
    for cls, kw in (("Sobel", {}), ("Prewitt", {}), ("Scharr", {}), ("Farid", {}), ("GaussianGrad", gk), ("Sobel", dict(same_padder=K("symmetric")))):
        for meth in ("component", "magnitude", "all_components", "horizontal", "vertical"):
            add_(f"edge.{cls}.{meth}" + (".symmetric" if "same_padder" in kw else ""), f"filtering.{cls}.{meth}", edge(cls, meth, **kw), rank=4)
        add_(f"edge.{cls}.any" + (".symmetric" if "same_padder" in kw else ""), f"filtering.{cls}.component", edge(cls, "component", **kw), order=(1, 0))
    for cls, kw in (("Laplace", {}), ("LaplacianOfGaussian", gk), ("LaplacianOfGaussian", ek)):
        add_(f"edge.{cls}.{len(kw)}.{kw.get('kernel_size')}", f"filtering.{cls}.forward", edge(cls, "forward", **kw), rank=4)

    def unsharp(own):
        def mk(w):
            b = w.do(w.get("pooling.AvgPoolNd"), kernel_size=ki(w), **(dict(same_padder=K("replicate")) if own else {}))
            u = w.do(w.get("filtering.UnsharpMask"), b, w.real("amount"), **({} if own else dict(padder=K("reflect"))))
            return lambda x, a: dict(f=w.method(u, "forward"), args=[x, a])
        return mk
    add_("unsharp.own", "filtering.UnsharpMask.forward", unsharp(True))
    add_("unsharp.padder", "filtering.UnsharpMask.forward", unsharp(False))
    return out


def shape_of_results(ctx, rule, cs):
    def one(case):
        con = case.entry
        w = World(with_ref(ctx.src))
        summarise_padding(w)
        d = case.build(w)
        r = w.run(d["f"], *d["args"], **d.get("kw", {}))
        if r.undecided or r.returns is None:
            return [und_of(rule, case, r)]
        if not r.returns:
            ex = [e for e in r.events if e.kind == "raise" and not e.data.get("caught")]
            return [bad(rule, con, f"case {case.id}: the call raises {ex[-1].data['exc'] if ex else ''}")]
        base = tuple(dict.fromkeys(f for f in r.pc0 if isinstance(f, Node)))
        pads = Pads()
        m = w.ip.m
        out = []
        ts = [(p, t) for p, t, o in r.terms() if o is not None]
        axsy = [a.as_atom() for a, _ in d["want"] if a.as_atom() is not None]
        rx = m.rank_of(d["x"])
        if not ts:
            return [bad(rule, con, f"case {case.id}: the result is {str(r.value)[:60]} instead of a tensor")]
        for p, t in ts:
            what = f"case {case.id}" + (f" result {p}" if p else "")
            if m.rank_of(t) != rx:
                k = m.rank_of(t)
                out.append((bad if k.is_const and rx.is_const else und)(rule, con, f"{what}: {show(k)} axes instead of {show(rx)}"))
                continue
            nf = NF(w.ip, base, pads)
            for a, want in d["want"]:
                da = m.dim_of(t, a)
                if da == want or nf.equal(da, want, ()):
                    continue
                try:
                    wit = search(pads, nf.base, da, want, axsy)
                except NoEval:
                    wit = None
                out.append((bad if wit else und)(rule, con, f"{what}: axis {show(a)} has length {show(da, 6)[:160]} instead of {show(want, 6)[:120]}" + (f": {wit}" if wit else "")))
                break
        return out or [ok(rule, con, f"case {case.id}: all axes, e.g. {show(d['want'][0][1], 4)[:100]}")]
    return ctx.map(one, cs)


def same_pass(ctx):
    return run_cases(ctx, "same-widths", width_cases()) + shape_of_results(ctx, "same-shape", shape_cases())


# ====================================================================== calls complete
def uncaught(r):
    return [e for e in r.events if e.kind == "raise" and not e.data.get("caught")]


class DCase:
    """build(w) -> (callable, args, kwargs) on valid arguments"""

    def __init__(self, id, entry, build):
        self.id, self.entry, self.build = id, entry, build


def valid_cases():
    from . import filters, metrics, misc, cfa
    out = []

    def wrap(c, f):
        out.append(DCase(f.__module__.split(".")[-1] + ":" + c.id if f is not None else c.id, c.entry, f))
    for c in catalog_cases():
        b = c.build
        if c.id.startswith("MSSSIM"):
            def b(w, c=c):
                f, a, k = c.build(w)
                t = w.ip.m.cell_term(w.st, a[0].oid)
                r = w.ip.m.rank_of(t).as_int()
                for i in range(2, r or 2):
                    w.fact(ge0(sub(w.ip.m.dim_of(t, const(i)), const(200))))
                return f, a, k
        out.append(DCase(c.id, c.entry, b))
    srcs = [("pooling", pooling_cases())]
    for mod in (filters, metrics, misc, cfa):
        for n in sorted(vars(mod)):
            if n.endswith("_cases") and getattr(mod, n).__module__ == mod.__name__ and getattr(mod, n).__code__.co_argcount == 0:
                srcs.append((n, getattr(mod, n)()))
    srcs.append(("widths", width_cases()))
    for n, cs in srcs:
        for c in cs:
            if isinstance(c, FCase):
                def b(w, c=c):
                    d = c.build(w)
                    w.want_facts = d.get("facts", ())
                    return d["f"], d["args"], d.get("kw", {})
                out.append(DCase(f"{n}:{c.id}", c.entry, b))
    for c in shape_cases():
        def b(w, c=c):
            d = c.build(w)
            return d["f"], d["args"], d.get("kw", {})
        out.append(DCase("shape:" + c.id, c.entry, b))
    return out


def complete_pass(ctx):
    rule = "completes"

    def run(case, preset=None, facts=()):
        w = World(with_ref(ctx.src))
        if preset:
            w.preset = preset
        f, a, k = case.build(w)
        for q in facts:
            w.fact(q)
        for q in getattr(w, "want_facts", ()):
            w.fact(q)
        return w, w.run(f, *a, **k)

    def one(case):
        con = case.entry
        w, r = run(case)
        ev = uncaught(r)
        out = []
        if r.undecided or r.returns is None:
            return [und_of(rule, case, r)]
        if r.returns is False:
            ex = ev[-1] if ev else None
            return [bad(rule, con, f"case {case.id}: a call on valid arguments always raises" + (f" {ex.data['exc']}" if ex else ""), ex.where if ex else "")]
        axsy = [N_("isym", x) for x in ("n", "a0", "a1", "a2", "b")]
        for e in ev[:6]:
            fs = tuple(dict.fromkeys(f for f in e.pc if isinstance(f, Node)))
            txt = f"case {case.id}: a call on valid arguments can raise {e.data['exc']}"
            env = {}
            used = {n for f in fs for n in walk(f)}
            ax = [a for a in axsy if a in used]
            if N_("isym", "n") not in used:
                ax = []
            try:
                wit = search(Pads(), fs, ZERO, ONE, ax, found=env)
            except NoEval as q:
                out.append(und(rule, con, f"{txt} (not shown impossible: {q})", e.where))
                continue
            if not wit:
                out.append(und(rule, con, f"{txt} (not shown impossible)", e.where))
                continue
            # the same call with these values
            at = wit.split(" at ", 1)[-1]
            dims = [eq0(sub(P(subst(P(k), env)), v)) for k, v in env.items() if k.op != "isym"]
            try:
                w2, r2 = run(case, {k: v for k, v in env.items() if k.op == "isym"}, dims)
                ev2 = [q for q in uncaught(r2) if q.data["exc"] == e.data["exc"]]
                sure = r2.returns is False and not r2.undecided
                if not sure and ev2:
                    f2 = tuple(dict.fromkeys(f for f in ev2[0].pc if isinstance(f, Node)))
                    sure = bool(search(Pads(), f2, ZERO, ONE, ()))
            except (NoEval, Dead, Undecided):
                sure = False
            out.append((bad if sure else und)(rule, con, f"{txt}" + (f", for example with {at}" if at else ""), e.where))
        if not out:
            base = tuple(dict.fromkeys(f for f in r.pc0 if isinstance(f, Node)))
            pads = Pads()
            ax = [a for a in axsy if a in {n for f in base for n in walk(f)}]
            for p, t, o in r.terms():
                if o is None:
                    continue
                f = fits(w, t, base, pads, ax)
                if f:
                    return [bad(rule, con, f"case {case.id}: the shapes do not fit: {f[0]}")]
        return out or [ok(rule, con, f"case {case.id}: no path raises ({len(r.events)} events)")]
    return ctx.map(one, valid_cases())
