"""Scenario harness: abstract objects and abstract calls of the package's public entry points."""
import sys
import time
from .interp import *
from . import lin

sys.setrecursionlimit(40000)


class Anchor(Exception):
    """a public name the checks are anchored on has disappeared"""


class World:
    """one interpreted copy of the package"""

    def __init__(self, source, ndspec=True):
        self.src = source
        self.ip = Interp(source)
        self.ip.load_all()
        self.st = self.ip.st
        self.nds = False
        self.suffix = ""
        if ndspec:
            self.nds = self.ip.m.install_ndspec()
        self.ip.phase = "setup"

    # ---------------------------------------------------------- symbolic inputs
    def get(self, dotted):
        v = self.ip.lookup("torchimage." + dotted)
        if v is None:
            raise Anchor("torchimage." + dotted)
        return v

    def tensor(self, name, rank=None, shape=None, np=False):
        """caller-owned tensor; rank None = symbolic"""
        n = N_("tin", name + self.suffix)
        if shape is not None:
            shape = tuple(P(x) for x in shape)
            rank = len(shape)
            self.ip.rank[("shape", n)] = shape
            for d in shape:
                self.fact(ge0(d))
        if rank is None:
            self.ip.rank[n] = self.isym("n")
        else:
            self.ip.rank[n] = P(rank)
        ph, self.ip.phase = self.ip.phase, "input"
        t = self.ip.cell(self.st, P(n), lib="np" if np else "torch")
        self.ip.phase = ph
        return t

    def int(self, name):
        return N(self.isym(name), "int")

    def real(self, name):
        return N(P(N_("sym", name + self.suffix)), "float")

    preset = {}

    def isym(self, name):
        n = N_("isym", name + self.suffix)
        return self.preset.get(n, P(n))

    def opaque(self, name, ty=None):
        return S(N_("sym", name + self.suffix), ty)

    def generator(self, name="gen"):
        return S(N_("sym", name + self.suffix), "generator")

    def fact(self, c):
        self.st.assume(c)

    def axes(self, k, order=None):
        """k distinct symbolic axes of a rank-n tensor; order: permutation giving a strict order"""
        n = self.isym("n")
        ax = [self.isym(f"a{i}") for i in range(k)]
        self.fact(ge0(sub(n, ONE)))
        for a in ax:
            self.fact(ge0(a))
            self.fact(gt0(sub(n, a)))
        if order is not None:
            for i, j in zip(order, order[1:]):
                self.fact(gt0(sub(ax[j], ax[i])))
        else:
            for i in range(k):
                for j in range(i):
                    self.fact(not_(eq0(sub(ax[i], ax[j]))))
        return ax

    def tup(self, xs):
        return TUP(tuple(N(x, "int") if isinstance(x, Poly) else x for x in xs))

    def list(self, xs):
        ph, self.ip.phase = self.ip.phase, "input"
        r = self.ip.lst(self.st, tuple(N(x, "int") if isinstance(x, Poly) else x for x in xs))
        self.ip.phase = ph
        return r

    # ---------------------------------------------------------- running
    def entry_frame(self):
        """a pseudo frame so that events outside package code have a location"""
        import ast as _ast
        mod = next(iter(self.src.files))
        fn = FN(_ast.parse("pass"), None, mod, (), {}, "<entry>")
        return Ctx(fn, "entry", 0)

    def do(self, f, *args, **kw):
        """call in the current state; returns value or raises Dead"""
        st = self.st
        st.frames.setdefault("entry", {})
        self.ip.stack.append(self.entry_frame())
        try:
            return self.ip.call(st, f, list(args), dict(kw))
        finally:
            self.ip.stack.pop()

    def method(self, o, name):
        st = self.st
        self.ip.stack.append(self.entry_frame())
        st.frames.setdefault("entry", {})
        try:
            if isinstance(o, U):
                raise Undecided("object is a union")
            return self.ip.getattr(st, o, name)
        finally:
            self.ip.stack.pop()

    def run(self, f, *args, **kw):
        """call as the analysed call; returns Result"""
        return self.attempt(lambda: self.do(f, *args, **kw))

    def attempt(self, go):
        """a sequence of calls as the analysed call; returns Result"""
        ip = self.ip
        ip.phase = "call"
        ne, nu = len(ip.events), len(ip.undecided)
        pc0 = self.st.pc
        r = Result(self)
        r.pc0 = pc0
        try:
            r.value = go()
            r.returns = True
        except Dead:
            r.value = None
            r.returns = False
        except Undecided as e:
            r.value = None
            r.returns = None
            ip.undecided.append(("?", 0, "?", str(e)))
        r.events = ip.events[ne:]
        r.undecided = ip.undecided[nu:]
        ip.phase = "setup"
        return r


class Result:
    def __init__(self, w):
        self.w = w

    def terms(self):
        return result_terms(self.w, self.value)


def result_terms(w, v):
    """tensor terms reachable from an abstract result value: list of (path, Poly, oid)"""
    out = []
    st = w.st
    m = w.ip.m

    def go(v, path, d=0):
        if d > 6:
            return
        if isinstance(v, T):
            out.append((path, m.cell_term(st, v.oid), v.oid))
        elif isinstance(v, TUP):
            for i, x in enumerate(v.items):
                go(x, path + (i,), d + 1)
        elif isinstance(v, LST):
            go(st.heap[v.oid].c, path, d + 1)
        elif isinstance(v, SQ):
            go(v.elem, path + ("*",), d + 1)
        elif isinstance(v, U):
            for i, (c, x) in enumerate(v.alts):
                go(x, path + ("alt%d" % i,), d + 1)
        elif isinstance(v, IT):
            for i, x in enumerate(v.items):
                go(x, path + (i,), d + 1)
        elif isinstance(v, N):
            out.append((path, v.p, None))
        elif isinstance(v, S):
            out.append((path, P(v.n), None))
        elif isinstance(v, DCT):
            for k, x in st.heap[v.oid].k.items():
                go(x, path + (repr(k),), d + 1)
    go(v, ())
    return out
