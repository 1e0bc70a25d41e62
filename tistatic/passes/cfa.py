"""Colour filter arrays: cell-by-cell definition of the layout conversions, mosaicing and demosaicing."""
from .functional import *
from .functional import Want, FCase, run_cases
from ..catalog import SENSORS

RGB = {"R": 0, "G": 1, "B": 2}


def image(w, ch, name="x", half=True, rank=4):
    h, v = w.isym("h"), w.isym("v")
    w.fact(ge0(sub(h, ONE)))
    w.fact(ge0(sub(v, ONE)))
    d = (mul(const(2), h), mul(const(2), v)) if half else (h, v)
    lead = tuple(w.isym(f"bs{i}") for i in range(rank - 3))
    return w.tensor(name, shape=lead + (const(ch),) + d), lead, h, v


def tin(name, idx):
    n = N_("tin", name)
    return P(N_("cell", n, tuple((const(i), P(j)) for i, j in enumerate(idx))))


def parity(w, rank, chans):
    """index classes: channel, row parity, column parity"""
    out = []
    for c in range(chans):
        for r in (0, 1):
            for s in (0, 1):
                q, p = w.isym("q"), w.isym("p")
                out.append((f"channel {c}, row parity {r}, column parity {s}",
                            {rank - 3: const(c), rank - 2: add(mul(const(2), q), const(r)), rank - 1: add(mul(const(2), p), const(s))}))
    return out


def chan(w, rank, chans):
    return [(f"channel {c}", {rank - 3: const(c)}) for c in range(chans)]


def halves(idx):
    """(row//2, row%2, col//2, col%2) of an index class 2q+r, 2p+s"""
    out = []
    for j in idx[-2:]:
        r = j.const % 2
        out += [mul(const(Fraction(1, 2)), sub(j, const(r))), int(r)]
    return out


def conversions():
    out = []

    def add_(id, fn, build):
        out.append(FCase(id, "cfa.utils." + fn, build))
    for rank in (3, 4, 5):
        def b(w, rank=rank):
            x, lead, h, v = image(w, 1, rank=rank)

            def cell(idx):
                c = idx[-3].as_int()
                return tin("x", idx[:-3] + [ZERO, add(mul(const(2), idx[-2]), const(c // 2)), add(mul(const(2), idx[-1]), const(c % 2))])
            return dict(f=w.get("cfa.utils.bayer_1c_to_4c"), args=[x],
                        expect=lambda w: [Want(shape=lead + (const(4), h, v), cell=cell, slices=lambda w: chan(w, rank, 4))])
        add_(f"1c_to_4c.{rank}", "bayer_1c_to_4c", b)

        def b(w, rank=rank):
            x, lead, h, v = image(w, 4, half=False, rank=rank)

            def cell(idx):
                q, r, p, s = halves(idx)
                return tin("x", idx[:-3] + [const(2 * r + s), q, p])
            return dict(f=w.get("cfa.utils.bayer_4c_to_1c"), args=[x],
                        expect=lambda w: [Want(shape=lead + (ONE, mul(const(2), h), mul(const(2), v)), cell=cell, slices=lambda w: parity(w, rank, 1))])
        add_(f"4c_to_1c.{rank}", "bayer_4c_to_1c", b)
    for s0 in SENSORS:
        for low in (False, True):
            for rank in ((3, 4, 5) if not low else (4,)):
                sen = K(s0.lower() if low else s0)
                tag = f"{s0.lower() if low else s0}.{rank}"

                def b(w, rank=rank, s0=s0, sen=sen):
                    x, lead, h, v = image(w, 3, rank=rank)

                    def cell(idx):
                        q, r, p, s = halves(idx)
                        return tin("x", idx[:-3] + [const(RGB[s0[2 * r + s]]), idx[-2], idx[-1]])
                    return dict(f=w.get("cfa.utils.rgb_to_1c_bayer"), args=[x, sen],
                                expect=lambda w: [Want(shape=lead + (ONE, mul(const(2), h), mul(const(2), v)), cell=cell, slices=lambda w: parity(w, rank, 1))])
                add_(f"rgb_to_1c.{tag}", "rgb_to_1c_bayer", b)

                def b(w, rank=rank, s0=s0, sen=sen):
                    x, lead, h, v = image(w, 3, rank=rank)

                    def cell(idx):
                        c = idx[-3].as_int()
                        return tin("x", idx[:-3] + [const(RGB[s0[c]]), add(mul(const(2), idx[-2]), const(c // 2)), add(mul(const(2), idx[-1]), const(c % 2))])
                    return dict(f=w.get("cfa.utils.rgb_to_4c_bayer"), args=[x, sen],
                                expect=lambda w: [Want(shape=lead + (const(4), h, v), cell=cell, slices=lambda w: chan(w, rank, 4))])
                add_(f"rgb_to_4c.{tag}", "rgb_to_4c_bayer", b)

                def b(w, rank=rank, s0=s0, sen=sen):
                    x, lead, h, v = image(w, 4, half=False, rank=rank)

                    def cell(idx):
                        c = "RGB"[idx[-3].as_int()]
                        src = [i for i in range(4) if s0[i] == c]
                        r = ZERO
                        for i in src:
                            r = add(r, mul(const(Fraction(1, len(src))), tin("x", idx[:-3] + [const(i), idx[-2], idx[-1]])))
                        return r
                    return dict(f=w.get("cfa.utils.downsample_4c_bayer_to_rgb"), args=[x, sen],
                                expect=lambda w: [Want(shape=lead + (const(3), h, v), cell=cell, slices=lambda w: chan(w, rank, 3))])
                add_(f"down4c.{tag}", "downsample_4c_bayer_to_rgb", b)

                def b(w, rank=rank, s0=s0, sen=sen):
                    x, lead, h, v = image(w, 1, rank=rank)

                    def cell(idx):
                        c = "RGB"[idx[-3].as_int()]
                        src = [i for i in range(4) if s0[i] == c]
                        r = ZERO
                        for i in src:
                            r = add(r, mul(const(Fraction(1, len(src))), tin("x", idx[:-3] + [
                                ZERO, add(mul(const(2), idx[-2]), const(i // 2)), add(mul(const(2), idx[-1]), const(i % 2))])))
                        return r
                    return dict(f=w.get("cfa.utils.downsample_1c_bayer_to_rgb"), args=[x, sen],
                                expect=lambda w: [Want(shape=lead + (const(3), h, v), cell=cell, slices=lambda w: chan(w, rank, 3))])
                add_(f"down1c.{tag}", "downsample_1c_bayer_to_rgb", b)
    return out


def conversions_pass(ctx):
    return run_cases(ctx, "cfa-layout", conversions())


# ---------------------------------------------------------------------- convolution and demosaicing
def beg(s0):
    r = divmod(s0.index("R"), 2)
    b = divmod(s0.index("B"), 2)
    return {"R": r, "B": b, "GR": (r[0], 1 - r[1]), "GB": (b[0], 1 - b[1])}


def kind(s0):
    return {v: k for k, v in beg(s0).items()}


def ext(x, ent):
    return P(N_("cell", x, ent))


# Malvar-He-Cutler 5x5 filters (times 8), as documented for MATLAB's demosaic
G_AT_RB = [[0, 0, -1, 0, 0], [0, 0, 2, 0, 0], [-1, 2, 4, 2, -1], [0, 0, 2, 0, 0], [0, 0, -1, 0, 0]]
H = Fraction(1, 2)
RB_AT_G_ROW = [[0, 0, H, 0, 0], [0, -1, 0, -1, 0], [-1, 4, 5, 4, -1], [0, -1, 0, -1, 0], [0, 0, H, 0, 0]]
RB_AT_G_COL = [list(r) for r in zip(*RB_AT_G_ROW)]
D = Fraction(-3, 2)
RB_AT_BR = [[0, 0, D, 0, 0], [0, 2, 0, 2, 0], [D, 0, 6, 0, D], [0, 2, 0, 2, 0], [0, 0, D, 0, 0]]


def wiener(color, pos):
    """filter that estimates a colour at a relative position, or None for the measured colour"""
    if pos[0] == color:
        return None
    if color == "G":
        return G_AT_RB
    if pos in ("R", "B"):
        return RB_AT_BR
    return RB_AT_G_ROW if pos[1] == color else RB_AT_G_COL


def reflected(w, x, rank):
    """the whole-sample reflected extension of the last two axes of x, as a term (addressed from the content)"""
    t = w.ip.m.cell_term(w.st, x.oid)
    n = N_("padded", t, (const(rank - 2), const(rank - 1)), ((const(9), const(9)),) * 2, ("reflect", "reflect"), ((), ()))
    w.ip.rank.setdefault(n, const(rank))
    return n


def conv_cases():
    out = []

    def add_(id, fn, build):
        out.append(FCase(id, fn, build))
    for s0 in SENSORS:
        for cls, un in (("BayerConv2d", False), ("BayerConv2dUnshuffle", True)):
            for ci, co, ks, bias, rank in ((1, 2, 5, False, 4), (2, 3, 3, True, 4), (2, 2, 3, True, 3), (1, 1, 7, False, 4), (1, 2, 3, False, 4)):
                if un and rank != 4:
                    continue

                def b(w, s0=s0, cls=cls, un=un, ci=ci, co=co, ks=ks, bias=bias, rank=rank):
                    c = w.do(w.get("cfa." + cls), num(ci), num(co), num(ks), K(bias))
                    x, lead, h, v = image(w, ci, rank=rank)
                    n = reflected(w, x, rank)
                    kd = kind(s0)
                    cd = w.method(c, "conv_dict")
                    W = {}
                    for pos in kd.values():
                        m = w.ip.m.getitem(w.st, cd, K(pos))
                        wt = w.ip.m.cell_term(w.st, w.ip.getattr(w.st, m, "weight").oid).as_atom()
                        bv = w.ip.getattr(w.st, m, "bias")
                        W[pos] = (wt, w.ip.m.cell_term(w.st, bv.oid).as_atom() if bias else None)

                    def term(idx, nf):
                        if un:
                            o, q4 = divmod(idx[-3].as_int(), 4)
                            r, s = divmod(q4, 2)
                            row, col = add(mul(const(2), idx[-2]), const(r)), add(mul(const(2), idx[-1]), const(s))
                        else:
                            o = idx[-3].as_int()
                            q, r, p, s = halves(idx)
                            row, col = idx[-2], idx[-1]
                        wt, bs = W[kd[(r, s)]]
                        acc = P(N_("cell", bs, ((ZERO, const(o)),))) if bs is not None else ZERO
                        for c_ in range(ci):
                            for a in range(ks):
                                for e in range(ks):
                                    wc = P(N_("cell", wt, tuple((const(i), const(v)) for i, v in enumerate((o, c_ if ci > 1 else 0, a, e)))))
                                    acc = add(acc, mul(wc, padat(nf, n, dict(enumerate(idx[:-3] + [const(c_), add(row, const(a - ks // 2)), add(col, const(e - ks // 2))])))))
                        return acc
                    if un:
                        w_ = Want(shape=lead + (const(4 * co), h, v), cell=term, slices=lambda w: chan(w, 4, 4 * co))
                    else:
                        w_ = Want(shape=lead + (const(co), mul(const(2), h), mul(const(2), v)), cell=term, slices=lambda w: parity(w, rank, co))
                    return dict(f=c, args=[x, K(s0)], expect=lambda w: [w_])
                add_(f"{cls}.{s0}.{ci}{co}{ks}.{rank}", "cfa." + cls, b)

        def b(w, s0=s0, rank=4):
            x, lead, h, v = image(w, 1, rank=rank)
            y = w.tensor("y", shape=lead + (const(2), mul(const(2), h), mul(const(2), v)))
            kd = kind(s0)

            def cell(idx):
                q, r, p, s = halves(idx)
                pos = kd[(r, s)]
                c = "RGB"[idx[-3].as_int()]
                if pos[0] == c:
                    return tin("x", idx[:-3] + [ZERO] + idx[-2:])
                return tin("y", idx[:-3] + [const([k for k in "RGB" if k != pos[0]].index(c))] + idx[-2:])
            return dict(f=w.get("cfa.last_step_demosaic"), args=[x, y, K(s0)],
                        expect=lambda w: [Want(shape=lead + (const(3), mul(const(2), h), mul(const(2), v)), cell=cell, slices=lambda w: parity(w, rank, 3))])
        for rank in (3, 4, 5):
            add_(f"last_step.{s0}.{rank}", "cfa.last_step_demosaic", lambda w, b=b, rank=rank: b(w, rank=rank))
        for clamp in (None, "c"):
            def b(w, s0=s0, clamp=clamp):
                x, lead, h, v = image(w, 1)
                n = reflected(w, x, 4)
                kd = kind(s0)
                hi = w.real("c") if clamp else None

                def cell(idx, nf):
                    q, r, p, s = halves(idx)
                    f = wiener("RGB"[idx[1].as_int()], kd[(r, s)])
                    if f is None:
                        acc = tin("x", [idx[0], ZERO, idx[2], idx[3]])
                    else:
                        acc = ZERO
                        for a in range(5):
                            for e in range(5):
                                if f[a][e]:
                                    acc = add(acc, mul(const(Fraction(f[a][e]) / 8), padat(nf, n, {0: idx[0], 1: ZERO, 2: add(idx[2], const(a - 2)), 3: add(idx[3], const(e - 2))})))
                    return P(N_("fnc", "clamp", acc, ZERO, hi.p if hi else ONE))
                return dict(f=w.get("cfa.demosaic"), args=[x, K(s0)] + ([hi] if hi else []),
                            expect=lambda w: [Want(shape=lead + (const(3), mul(const(2), h), mul(const(2), v)), cell=cell, slices=lambda w: parity(w, 4, 3))])
            add_(f"demosaic.{s0}" + (".clamp" if clamp else ""), "cfa.demosaic", b)
        for ks in (3, 5, 7):
            if ks > 3 and s0 != SENSORS[0]:
                continue

            def b(w, s0=s0, ks=ks):
                keys = [c + pos for pos in ("R", "B", "GR", "GB") for c in "RGB" if c != pos[0]]
                W = [w.tensor("w" + k, shape=(const(ks), const(ks)), np=True) for k in keys]
                ip = w.do(w.ip.lookup("tiref.interpolator"), w.get("cfa.demosaic"), TUP(tuple(K(k) for k in keys)), TUP(tuple(W)))
                x, lead, h, v = image(w, 1)
                n = reflected(w, x, 4)
                kd = kind(s0)
                hi = w.real("c")

                def cell(idx, nf):
                    q, r, p, s = halves(idx)
                    pos, c = kd[(r, s)], "RGB"[idx[1].as_int()]
                    if pos[0] == c:
                        acc = tin("x", [idx[0], ZERO, idx[2], idx[3]])
                    else:
                        acc = ZERO
                        for a in range(ks):
                            for e in range(ks):
                                acc = add(acc, mul(tin("w" + c + pos, [const(a), const(e)]), padat(nf, n, {
                                    0: idx[0], 1: ZERO, 2: add(idx[2], const(a - ks // 2)), 3: add(idx[3], const(e - ks // 2))})))
                    return P(N_("fnc", "clamp", acc, ZERO, hi.p))
                return dict(f=ip, args=[x, K(s0), hi],
                            expect=lambda w: [Want(shape=lead + (const(3), mul(const(2), h), mul(const(2), v)), cell=cell, slices=lambda w: parity(w, 4, 3))])
            add_(f"interpolator.{s0}.{ks}", "cfa.bayer_conv.PreTrainedBilinearInterpolator", b)
    return out


def padat(nf, n, pos):
    """cell of the extension n at a position relative to the content"""
    r = nf.m.rank_of(n)
    shift = {nf.m_axis(a): b for a, (b, _) in zip(n.args[1], n.args[2])}
    idx = {const(i - r.as_int()): add(v, shift.get(i, ZERO)) for i, v in pos.items()}
    return nf.n_padded(n, idx, ())[0][1]


def conv_pass(ctx):
    return run_cases(ctx, "cfa-convolution", conv_cases())
