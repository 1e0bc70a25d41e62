"""Reference definitions of the documented operations, interpreted like the package itself.

They are written for readability: one axis at a time, parameters already expanded per axis.  Padding is taken from
the package's Padder (its own behaviour is decided by C08/C09)."""
SOURCE = '''
from math import ceil, exp, log10
import torch
from torchimage.padding import Padder
from torchimage.shapes.conv_like import n_original_elements_1d


def same_widths(k, s, n):
    total = k - 1 if s == 1 else (ceil(n / s) - 1) * s + k - n
    total = max(total, 0)
    after = total // 2
    return (total - after, after)


def widths_of(to_same, args, n):
    p = to_same(*args)
    return [tuple(p.pad_width[i - n]) for i in range(n)]


def widths_list(axes):
    return [same_widths(k, s, n) for k, s, n in axes]


def pool1(x, axis, kernel, stride):
    if len(kernel) == 0:
        return x
    return x.unfold(axis, len(kernel), stride) @ torch.tensor(kernel, dtype=x.dtype, device=x.device)


def pool(x, axes, kernels, strides):
    for i in range(len(axes)):
        x = pool1(x, axes[i], kernels[i], strides[i])
    return x


def pad_same(x, axes, sizes, strides, mode):
    widths = [same_widths(sizes[i], strides[i], x.shape[axes[i]]) for i in range(len(axes))]
    return Padder(mode=mode, pad_width=widths).forward(x, axes=axes)


def padpool(x, axes, kernels, strides, mode):
    if mode is not None:
        x = pad_same(x, axes, [len(k) for k in kernels], strides, mode)
    return pool(x, axes, kernels, strides)


def gauss(size, sigma, order):
    """sampled derivative of a Gaussian that is normalised on its window, as a correlation kernel"""
    r = size // 2
    xs = [r - i for i in range(2 * r + 1)]
    g = [exp(-0.5 / (sigma * sigma) * x * x) for x in xs]
    total = sum(g)
    v = sigma * sigma
    if order == 0:
        h = [1 for x in xs]
    elif order == 1:
        h = [-x / v for x in xs]
    elif order == 2:
        h = [x * x / (v * v) - 1 / v for x in xs]
    elif order == 3:
        h = [3 * x / (v * v) - x * x * x / (v * v * v) for x in xs]
    k = [h[i] * g[i] / total for i in range(size)]
    if order == 0 and size % 2 == 0:
        z = sum(k)
        k = [q / z for q in k]
    return k


def gauss_pool(x, axes, sizes, sigmas, orders, strides, mode):
    kernels = [gauss(sizes[i], sigmas[i], orders[i]) for i in range(len(axes))]
    return padpool(x, axes, kernels, strides, mode)


def avg1(x, axis, size, stride):
    return x.unfold(axis, size, stride).sum(-1) / size


def avg_pool(x, axes, sizes, strides, mode):
    if mode is not None:
        x = pad_same(x, axes, sizes, strides, mode)
    for i in range(len(axes)):
        x = avg1(x, axes[i], sizes[i], strides[i])
    return x


def avg_originals(x, axes, sizes, strides, mode):
    """windows of the padded input, summed and divided by the number of original cells they hold"""
    lengths = [x.shape[a] for a in axes]
    y = avg_pool(x, axes, sizes, strides, mode)
    for i in range(len(axes)):
        n, k, s = lengths[i], sizes[i], strides[i]
        counts = torch.tensor(n_original_elements_1d(n, same_widths(k, s, n), k, s), dtype=x.dtype, device=x.device)
        shape = [1] * x.ndim
        shape[axes[i]] = counts.shape[0]
        y = y * k / counts.view(*shape)
    return y


def filter_(x, axes, kernels, mode):
    return padpool(x, axes, kernels, [1 for a in axes], mode)


def component(x, edge_axis, smooth_axes, edge, smooths, mode):
    """edge kernel along one axis, then the smoothing kernels along the others"""
    y = filter_(x, [edge_axis], [edge], mode)
    if len(smooth_axes) == 0:
        return y
    return filter_(y, smooth_axes, smooths, mode)


def components(x, axes, edge, smooth, mode):
    out = []
    for a in axes:
        others = [b for b in axes if b != a]
        out.append(component(x, a, others, edge, [smooth for b in others], mode))
    return out


def magnitude(x, axes, edge, smooth, mode, epsilon, p):
    cs = components(x, axes, edge, smooth, mode)
    if p == 1:
        y = cs[0]
        for c in cs[1:]:
            y = y + c
        return y + epsilon
    y = cs[0] ** p
    for c in cs[1:]:
        y = y + c ** p
    return (y + epsilon) ** (1 / p)


def normalized(k):
    z = sum(k)
    return [v / z for v in k]


def reduced(x, axes, reduction):
    if reduction == "mean":
        return x.mean(dim=axes)
    if reduction == "sum":
        return x.sum(dim=axes)
    return x


def mse(y, t, axes, reduction):
    return reduced((y - t) * (y - t), axes, reduction)


def psnr(y, t, axes, reduction, max_value, eps):
    return 20 * log10(max_value) - 10 * torch.log10(mse(y, t, axes, reduction) + eps)


def moments(a, b, axes, kernels, mode, sample):
    blur = lambda v: filter_(v, axes, kernels, mode)
    n = 1
    for k in kernels:
        n = n * len(k)
    f = n / (n - 1) if sample else 1
    ma, mb = blur(a), blur(b)
    va = (blur(a * a) - ma * ma) * f
    vb = (blur(b * b) - mb * mb) * f
    cov = (blur(a * b) - ma * mb) * f
    return ma, mb, va, vb, cov


def cs_map(a, b, axes, kernels, mode, K2, sample):
    ma, mb, va, vb, cov = moments(a, b, axes, kernels, mode, sample)
    c2 = K2 * K2
    return (2 * cov + c2) / (va + vb + c2)


def ssim_map(a, b, axes, kernels, mode, K1, K2, sample):
    ma, mb, va, vb, cov = moments(a, b, axes, kernels, mode, sample)
    c1, c2 = K1 * K1, K2 * K2
    return ((2 * ma * mb + c1) * (2 * cov + c2)) / ((ma * ma + mb * mb + c1) * (va + vb + c2))


def inner(m, axes, kernels, mode, crop):
    """the map without the cells whose window reaches into the padding"""
    if crop and mode is not None:
        for i in range(len(axes)):
            n = m.shape[axes[i]]
            before, after = same_widths(len(kernels[i]), 1, n)
            m = m.narrow(axes[i], before, n - after - before)
    return m


def ssim(a, b, axes, reduce_axes, kernels, mode, K1, K2, sample, crop):
    m = ssim_map(a, b, axes, kernels, mode, K1, K2, sample)
    return inner(m, axes, kernels, mode, crop).mean(dim=reduce_axes)


def ssim_both(a, b, axes, reduce_axes, kernels, mode, K1, K2, sample, crop):
    m = ssim_map(a, b, axes, kernels, mode, K1, K2, sample)
    return inner(m, axes, kernels, mode, crop).mean(dim=reduce_axes), m


def ms_ssim(a, b, axes, reduce_axes, kernels, mode, K1, K2, sample, crop, weights, use_prod, eps):
    score = 1 if use_prod else 0
    for i in range(len(weights)):
        if i == len(weights) - 1:
            m = ssim_map(a, b, axes, kernels, mode, K1, K2, sample)
        else:
            m = cs_map(a, b, axes, kernels, mode, K2, sample)
        s = inner(m, axes, kernels, mode, crop).mean(dim=axes, keepdim=True)
        if use_prod:
            score = score * s.clamp(min=eps) ** weights[i]
        else:
            score = score + s * weights[i]
        for x in axes:
            a, b = avg1(a, x, 2, 2), avg1(b, x, 2, 2)
    return score.mean(dim=reduce_axes)


def edges(y, size, sigma, order):
    e, s = gauss(size, sigma, order), normalized(gauss(size, sigma, 0))
    return torch.cat(components(y, (2, 3), e, s, "reflect"), dim=1)


def edge_loss(y, t, size, sigma, order, kind):
    p, q = edges(y, size, sigma, order), edges(t, size, sigma, order)
    if kind == "sum":
        return (q.abs().mean(dim=(2, 3)) - p.abs().mean(dim=(2, 3))).abs().mean()
    d = (q - p).abs()
    if kind == "mul":
        d = d * q
    elif kind == "div":
        d = d / q
    return d.mean()


def unsharp(x, axes, kernels, mode, amount, threshold):
    d = x - filter_(x, axes, kernels, mode)
    if threshold > 0:
        d = torch.where(d.abs() < threshold, 0, d)
    return x + amount * d


def crop(x, axes, sizes, gen):
    """a window of the given size per axis; its first index is drawn from all that fit"""
    for i in range(len(axes)):
        if sizes[i] is not None:
            n = x.shape[axes[i]]
            first = torch.randint(0, n - sizes[i] + 1, (), generator=gen).item()
            x = x.narrow(axes[i], first, sizes[i])
    return x


def gauss_noise(x, sigma, gen):
    return x + sigma * torch.randn(x.shape, dtype=x.dtype, device=x.device, generator=gen)


def poisson_gauss_noise(x, k, sigma, gen):
    return k * torch.poisson(x / k, generator=gen) + sigma * torch.randn(x.shape, dtype=x.dtype, device=x.device, generator=gen)


def poly(x, coefficients):
    y = torch.zeros_like(x)
    for c in coefficients:
        y = y * x + c
    return y


def power_scalar(x, e, epsilon):
    return power(x, torch.tensor(e, dtype=x.dtype, device=x.device), epsilon)


def power(x, e, epsilon):
    """signed power: fractional exponents of negative numbers act on the magnitude, of zero on epsilon"""
    frac = torch.floor(e) != e
    base = torch.where(frac & (x == 0), x + epsilon, x)
    return torch.where(frac & (x < 0), -((-x) ** e), base ** e)


def summary(x):
    return {"mean": x.mean().item(), "std": x.std().item(), "min": x.min().item(), "25%": x.quantile(0.25).item(),
            "50%": x.quantile(0.5).item(), "75%": x.quantile(0.75).item(), "max": x.max().item()}


def conv_length(n, k, stride, dilation):
    """number of window positions"""
    return (n - dilation * (k - 1) - 1) // stride + 1


def widths_to_torch(w):
    out = []
    for pair in reversed(w):
        out = out + [pair[0], pair[1]]
    return tuple(out)


def widths_to_numpy(w, ndim):
    out = [(0, 0) for i in range(ndim - len(w) // 2)]
    for i in reversed(range(0, len(w), 2)):
        out.append((w[i], w[i + 1]))
    return tuple(out)


def interpolator(like, keys, weights):
    return type(like)({k: v for k, v in zip(keys, weights)})
'''
