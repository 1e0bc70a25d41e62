"""Abstract values, heap records and states of the abstract interpreter."""
from .terms import *
from .terms import ge0, gt0, eq0, not_, and_, or_, phi, bphi


class V:
    __slots__ = ()
    _f = ()

    def key(self):
        return (type(self).__name__,) + tuple(getattr(self, f) for f in self._f)

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return type(self).__name__ + "(" + ", ".join(repr(getattr(self, f)) for f in self._f) + ")"


def _mkclass(name, fields, defaults=()):
    ns = {"__slots__": tuple(fields), "_f": tuple(fields)}
    nd = len(fields) - len(defaults)

    def __init__(self, *a, **k):
        for i, f in enumerate(fields):
            if i < len(a):
                v = a[i]
            elif f in k:
                v = k[f]
            else:
                v = defaults[i - nd]
            setattr(self, f, v)
    ns["__init__"] = __init__
    return type(name, (V,), ns)


K_ = _mkclass("K", ["v"])


class K(K_):
    """constant: str, None, bool, Ellipsis"""
    __slots__ = ()

    def key(self):
        return ("K", type(self.v).__name__, self.v)


N = _mkclass("N", ["p", "ty"], (None,))           # number
B = _mkclass("B", ["c"])                          # symbolic boolean
S = _mkclass("S", ["n", "ty"], (None,))           # opaque symbolic python value
T = _mkclass("T", ["oid"])                        # tensor / ndarray reference
TUP = _mkclass("TUP", ["items", "names"], (None,))
LST = _mkclass("LST", ["oid"])
DCT = _mkclass("DCT", ["oid"])
SQ = _mkclass("SQ", ["len", "var", "elem", "over", "kind"], ((), "tuple"))   # symbolic-length sequence
SLC = _mkclass("SLC", ["a", "b", "c"])
BM = _mkclass("BM", ["self", "fn"])
CLS = _mkclass("CLS", ["oid"])
INST = _mkclass("INST", ["oid"])
MOD = _mkclass("MOD", ["name"])
EXT = _mkclass("EXT", ["path"])
XM = _mkclass("XM", ["self", "name"])             # method of a builtin/external value
NDS = _mkclass("NDS", ["kind", "items", "item_ndim"])   # kind: 'item' | 'seq' ; items tuple
SUPER = _mkclass("SUPER", ["cls", "self"])
XI = _mkclass("XI", ["oid"])                      # instance of an external class (nn.Conv2d ...)
U = _mkclass("U", ["alts"])                       # tuple of (cond, V)
RNG = _mkclass("RNG", ["a", "b", "s"])            # range with symbolic bounds
IT = _mkclass("IT", ["items"])                    # materialised iterator


class FN(V):
    __slots__ = ("node", "fid", "mod", "defaults", "kwdefaults", "qual", "cls", "deco")
    _f = ("node", "fid", "mod", "qual", "cls", "deco")

    def __init__(self, node, fid, mod, defaults, kwdefaults, qual, cls=None, deco=()):
        self.node, self.fid, self.mod, self.defaults = node, fid, mod, defaults
        self.kwdefaults, self.qual, self.cls, self.deco = kwdefaults, qual, cls, deco

    def key(self):
        return ("FN", id(self.node), self.fid, self.qual, self.cls, self.deco)

    def __repr__(self):
        return f"FN({self.qual})"


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
FULL = SLC(NONE, NONE, NONE)
IVAR = N_("ivar", 0)


def num(c):
    return N(const(c), "float" if isinstance(c, float) else "int")


def boolv(c):
    return K(c) if isinstance(c, bool) else B(c)


class Rec:
    """heap record; treated as immutable, replaced on update"""
    __slots__ = ("kind", "d", "owner")

    def __init__(self, kind, owner, **d):
        self.kind, self.d, self.owner = kind, d, owner

    def set(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return Rec(self.kind, self.owner, **d)

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def same(self, o):
        return self is o or (self.kind == o.kind and self.d == o.d)

    def __repr__(self):
        return f"Rec({self.kind},{self.owner},{self.d})"


class State:
    __slots__ = ("frames", "heap", "pc", "dead", "nograd")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = ()
        self.dead = False
        self.nograd = False

    def clone(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc, s.dead, s.nograd = self.pc, self.dead, self.nograd
        return s

    def become(self, o):
        self.frames, self.heap, self.pc, self.dead, self.nograd = o.frames, o.heap, o.pc, o.dead, o.nograd

    def assume(self, c):
        if c is True:
            return
        if c is False:
            self.dead = True
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Dead(Exception):
    """the current abstract state is unreachable"""


class Undecided(Exception):
    """a construct the interpreter cannot interpret"""
