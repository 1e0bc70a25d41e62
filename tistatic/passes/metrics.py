"""Metrics and losses against their definitions."""
from .functional import *
from .functional import FCase, Want, run_cases, axes_of, dims_ge, K_, lens
from ..catalog import symker
from .filters import nums


def pair(w, rank=None):
    x, y = w.tensor("y_pred", rank), w.tensor("y_true", rank)
    same_shape(w, x, y) if rank is None else same_shape(w, x, y, rank=rank)
    return x, y


def metric_cases():
    out = []

    def mse(cls, id, red, axes, rank=4, **kw):
        def build(w):
            k = {a: (v(w) if callable(v) else v) for a, v in kw.items()}
            if "eps" in k:
                w.fact(gt0(k["eps"].p))
            if "max_value" in k:
                w.fact(gt0(k["max_value"].p))
            if red:
                k["reduction"] = K(red)
            m = w.do(w.get("metrics." + cls), **k)
            x, y = pair(w, rank)
            ck = {}
            ax = axes
            if axes == "sym":
                a = w.axes(2)
                ax = ck["reduce_axes"] = w.tup(a)
            elif axes is None:
                ax = w.tup([const(i) for i in range(rank)])
            else:
                ck["reduce_axes"] = axes if isinstance(axes, V) else w.tup([const(i) for i in axes])
                ax = w.tup([const(i) for i in (range(rank)[1:] if isinstance(axes, V) else axes)])
            ra = [x, y, ax, K(red or "mean")]
            if cls == "PSNR":
                ra += [k.get("max_value", num(1)), k.get("eps", num(0))]
            return dict(f=m, args=[x, y], kw=ck, ref=cls.lower(), rargs=ra)
        out.append(FCase(id, f"metrics.{cls}", build))
    for cls, kw in (("MSE", {}), ("PSNR", {}), ("PSNR", dict(eps=lambda w: w.real("eps"), max_value=lambda w: w.real("mx")))):
        e = ".eps" if kw else ""
        mse(cls, f"{cls}{e}.default", None, None, **kw)
        mse(cls, f"{cls}{e}.mean", "mean", (3, 1), **kw)
        mse(cls, f"{cls}{e}.sum", "sum", (0, 2), **kw)
        mse(cls, f"{cls}{e}.single", "mean", (2,), **kw)
        mse(cls, f"{cls}{e}.single.sum", "sum", (0,), rank=3, **kw)
        mse(cls, f"{cls}{e}.none", "none", (1, 2), **kw)
        mse(cls, f"{cls}{e}.slice", "mean", SLC(num(1), NONE, NONE), rank=3, **kw)
    return out


def ssim_cases():
    out = []

    def ssim(cls, id, blur="ker", mode=None, content=None, reduce=None, full=False, sample=True, crop=True, Ks=False, rank=4,
             weights=None, use_prod=True, eps=False, swap=False):
        def build(w):
            kw = {}
            if blur in ("gaussian", "mean"):
                kw["blur"] = K(blur)
                ker = w.do(w.ip.lookup("tiref.gauss"), num(11), num(Fraction(3, 2)), num(0)) if blur == "gaussian" else nums([Fraction(1, 11)] * 11)
                kers = [ker]
            elif blur == "default":
                kers = [w.do(w.ip.lookup("tiref.gauss"), num(11), num(Fraction(3, 2)), num(0))]
            elif blur == "ker":
                kers = [symker(w, "ker")]
                w.fact(ge0(sub(lens(w, kers[0]), const(2))))
                kw["blur"] = w.do(w.get("pooling.SeparablePoolNd"), kernel=kers[0])
            elif blur == "per":
                kers = [symker(w, "ker0"), symker(w, "ker1")]
                for k in kers:
                    w.fact(ge0(sub(lens(w, k), const(2))))
                kw["blur"] = w.do(w.get("pooling.SeparablePoolNd"), kernel=TUP(tuple(kers)))
            else:
                kers = [symker(w, "ker", blur)]
                kw["blur"] = w.do(w.get("pooling.SeparablePoolNd"), kernel=kers[0])
            if mode:
                kw["padder"] = K(mode)
            if not sample:
                kw["use_sample_covariance"] = FALSE
            if not crop:
                kw["crop_border"] = FALSE
            k1, k2 = num(Fraction(1, 100)), num(Fraction(3, 100))
            if Ks:
                k1, k2 = kw["K1"], kw["K2"] = w.real("K1"), w.real("K2")
            ev = num(Fraction(1, 10**8))
            ws = nums([Fraction(q, 10000) for q in (448, 2856, 3001, 2363, 1333)])
            if cls == "MS_SSIM":
                if weights:
                    ws = kw["weights"] = TUP(tuple(w.real(f"w{i}") for i in range(weights)))
                if not use_prod:
                    kw["use_prod"] = FALSE
                if eps:
                    ev = kw["eps"] = w.real("eps")
                    w.fact(gt0(ev.p))
            m = w.do(w.get("metrics." + cls), **kw)
            x, y = pair(w, rank)
            ck = {}
            cax = list(range(rank))[2:] if content is None else list(content)
            rax = list(range(rank))[1:] if reduce is None else list(reduce)
            if content is not None:
                ck["content_axes"] = w.tup([const(q) for q in cax])
            if reduce is not None:
                ck["reduce_axes"] = w.tup([const(q) for q in rax])
            if full:
                ck["full"] = TRUE
            t = w.ip.m.cell_term(w.st, x.oid)
            ks = [kers[i if len(kers) > 1 else 0] for i in range(len(cax))]
            f = 2 ** (len(ws.items) - 1) if cls == "MS_SSIM" else 1
            for q, k in zip(cax, ks):
                w.fact(gt0(sub(w.ip.m.dim_of(t, const(q)), mul(const(f), lens(w, k)))))
            ra = [x, y, w.tup([const(q) for q in cax]), w.tup([const(q) for q in rax]), TUP(tuple(ks)), K_(mode), k1, k2, K(sample), K(crop)]
            if swap:
                ra[0], ra[1] = y, x
            if cls == "MS_SSIM":
                ra += [ws, K(use_prod), ev]
            ref = "ms_ssim" if cls == "MS_SSIM" else "ssim_both" if full else "ssim"
            return dict(f=m, args=[x, y], kw=ck, ref=ref, rargs=ra)
        out.append(FCase(id, f"metrics.{cls}", build))
    S_, M_ = "SSIM", "MS_SSIM"
    ssim(S_, "SSIM.default", "default")
    ssim(S_, "SSIM.mean", "mean")
    ssim(S_, "SSIM.ker")
    ssim(S_, "SSIM.swapped", swap=True)
    ssim(S_, "SSIM.pad", mode="reflect")
    ssim(S_, "SSIM.pad.nocrop", mode="replicate", crop=False)
    ssim(S_, "SSIM.pad.full", "per", mode="symmetric", full=True)
    ssim(S_, "SSIM.pad.two", 2, mode="reflect")
    ssim(S_, "SSIM.pad.three", 3, mode="replicate", content=(2,))
    ssim(S_, "SSIM.desc", "per", content=(3, 1), reduce=(2, 3))
    ssim(S_, "SSIM.desc.pad", "per", mode="reflect", content=(3, 2), reduce=(0, 1, 2, 3))
    ssim(S_, "SSIM.one", content=(1,), reduce=(1, 2), rank=3)
    ssim(S_, "SSIM.K", Ks=True, sample=False)
    ssim(S_, "SSIM.rank5", Ks=True, rank=5)
    ssim(M_, "MS.one", weights=1)
    ssim(M_, "MS.one.sum", weights=1, use_prod=False)
    ssim(M_, "MS.one.pad", 3, weights=1, mode="reflect")
    ssim(M_, "MS.channels", weights=2, reduce=(1,))
    ssim(S_, "SSIM.channels", reduce=(1,))
    ssim(M_, "MS.two", weights=2, eps=True)
    ssim(M_, "MS.two.sum", weights=2, use_prod=False, Ks=True)
    ssim(M_, "MS.two.pad", "per", weights=2, mode="reflect", content=(3, 2), reduce=(0, 1, 2, 3))
    ssim(M_, "MS.two.nocrop", weights=2, mode="replicate", crop=False, sample=False)
    ssim(M_, "MS.three", weights=3, eps=True, reduce=(1, 2, 3))
    ssim(M_, "MS.three.line", 2, weights=3, rank=3, content=(1,), reduce=(0, 1, 2), eps=True)
    ssim(M_, "MS.three.sum", 2, weights=3, use_prod=False, Ks=True)
    ssim(M_, "MS.rank5", 2, weights=2, rank=5)
    ssim(M_, "MS.pad.two", 2, weights=2, mode="replicate", use_prod=False)
    ssim(M_, "MS.default")
    ssim(M_, "MS.default.gauss", "default")
    return out


def loss_cases():
    out = []
    for cls, kind in (("GaussianEdgeLoss", "l1"), ("WeightedMul", "mul"), ("WeightedDiv", "div"), ("WeightedSum", "sum")):
        for size, order in ((5, 1), (5, 2)):
            def build(w, cls=cls, kind=kind, size=size, order=order):
                s = w.real("sigma")
                w.fact(gt0(s.p))
                m = w.do(w.get("contrib.edge_loss." + cls), kernel_size=num(size), sigma=s, order=num(order))
                x, y = pair(w, 4)
                return dict(f=m, args=[x, y], ref="edge_loss", rargs=[x, y, num(size), s, num(order), K(kind)])
            out.append(FCase(f"{cls}.{size}.{order}", f"contrib.edge_loss.{cls}", build))
    return out


def metrics_pass(ctx):
    return run_cases(ctx, "metric-definition", metric_cases()) + run_cases(ctx, "loss-definition", loss_cases(), roll=2)


def ssim_pass(ctx):
    return run_cases(ctx, "ssim-definition", ssim_cases(), roll=2)
