"""Provenance (taint) analyses over the value-dependence graph: device, dtype, gradient."""
from .terms import *

# operators whose result takes dtype/device from their first tensor argument
FIRST = {"getitem", "gather", "view", "flatten", "unsqueeze", "squeeze", "flip", "roll", "unfold", "expand", "permute", "transpose",
         "swapaxes", "movedim", "reshape", "store", "scatter", "amax", "amin", "max_", "min_", "sum", "mean", "prod", "median", "std",
         "var", "norm", "cumsum", "cumprod", "logsumexp", "nansum", "nanmean", "quantile", "clamp", "fn1", "sort", "topk", "mode",
         "reflection_pad2d", "fpad", "diag", "repeat", "detach", "nograd", "bcast", "inv", "masked_scatter", "maywrite", "module",
         "index_select", "pow", "cbwrite", "alias", "contiguous", "kthvalue", "tril", "triu", "round", "floor", "ceil", "abs", "std_mean"}
ALL = {"matmul", "conv1d", "conv2d", "conv3d", "conv", "min", "max", "tbin", "einsum", "where", "cat", "stack", "module"}
PYNUM = {"sym", "isym", "dim", "rank", "len", "item_", "tolist", "math", "elem", "lit", "ivar", "imu", "item", "floordiv", "mod", "ceil",
         "floor", "round", "trunc", "argint", "slen", "vsum", "vmm", "vprod", "fconst", "numel", "argsort", "ndslen", "pred", "strlit",
         "id", "finfo", "iinfo", "attr", "meta", "range", "div0", "extend", "union", "alt", "sorted"}
NPOPS = {"carr", "npcall", "npfull", "nparray", "numpy"}

IN, PAR, PY, DEF, ZD, TOP, INT = "in", "par", "py", "def", "0d", "?", "fix:torch.int64"
CONTRACT = {"matmul", "conv1d", "conv2d", "conv3d", "conv", "einsum"}


class Prov:
    """kind: 'device' or 'dtype'.  Labels: in (the caller's tensors), par (module parameters), py (python scalar),
    def (framework default), 0d (0-dimensional default tensor), fix:<x> (hard coded), ? (unknown)"""

    def __init__(self, ip, kind, inputs=None):
        self.ip, self.kind, self.inputs = ip, kind, inputs
        self.memo = {}
        self.conf = {}
        self.active = set()

    def spec(self, s):
        """label set of a dtype/device value"""
        if s is None:
            return None
        if isinstance(s, Poly):
            s = s.as_atom()
        if isinstance(s, str):
            return frozenset(["fix:" + s])
        if not isinstance(s, Node):
            return frozenset([TOP])
        if s.op == self.kind:
            return self.of(s.args[0])
        if s.op == "phi":
            a, b = self.spec(s.args[1]), self.spec(s.args[2])
            return (a or frozenset([DEF])) | (b or frozenset([DEF]))
        if s.op in ("device_lit", "dtype_lit", "ext"):
            txt = " ".join(str(a) for a in s.args)
            return frozenset(["fix:" + txt])
        if s.op == "default_dtype":
            return frozenset([DEF])
        return frozenset([TOP])

    def conflict(self, node, a, b):
        self.conf.setdefault(node, (a, b))

    def mix(self, node, sets):
        """combine operands of one elementwise/contracting operation"""
        acc = frozenset([PY])
        for s in sets:
            out = set()
            for a in acc:
                for b in s:
                    out.add(self.mix1(node, a, b))
            acc = frozenset(out)
        return acc

    def mix1(self, node, a, b):
        if a == b:
            return a
        if TOP in (a, b):
            return TOP
        if PY in (a, b):
            return b if a == PY else a
        if ZD in (a, b):
            return b if a == ZD else a
        s = {a, b}
        if s == {IN, PAR}:
            return IN
        if s <= {IN, PAR} or a == b:
            return IN
        if self.kind == "dtype" and ("fix:torch.bool" in s):
            return a if b == "fix:torch.bool" else b
        if self.kind == "dtype" and INT in s and not (isinstance(node, Node) and node.op in CONTRACT):
            return a if b == INT else b  # integer operands promote to the floating type without rounding it
        self.conflict(node, a, b)
        # promotion: keep the non-input label so that the result is reported as well
        return b if a in (IN, PAR) else a

    def of(self, x):
        if x is None or isinstance(x, (int, float, bool, str)):
            return frozenset([PY])
        if isinstance(x, tuple):
            r = frozenset([PY])
            for y in x:
                r = r | self.of(y)
            return r
        if isinstance(x, Poly):
            at = x.as_atom()
            if at is not None:
                return self.of(at)
            ats = x.atoms()
            # mixing is per expression: every pair of tensor atoms meets in some sum or product
            return self.mix(x, [self.of(a) for a in ats])
        if x in self.memo:
            return self.memo[x]
        if x in self.active:
            return frozenset()
        self.active.add(x)
        n = len(self.active)
        r = self._of(x)
        self.active.discard(x)
        self.memo[x] = r
        return r

    def ctor(self, n, d, v, zero_d=False):
        s = self.spec(d if self.kind == "dtype" else v)
        if s is None:
            return frozenset([ZD if zero_d else DEF])
        return s

    def _of(self, n):
        op, a = n.op, n.args
        k = self.kind
        if op == "tin":
            return frozenset([IN])
        if op == "param":
            return frozenset([PAR])
        if op in PYNUM:
            return frozenset([PY])
        if op == "phi":
            return self.of(a[1]) | self.of(a[2])
        if op == "mu":
            d = self.ip.mu_defs.get(n)
            return (self.of(d[0]) | self.of(d[1])) if d else frozenset([TOP])
        if op == "tensor":
            data, d, v = a
            s = d if k == "dtype" else v
            if s is not None:
                return self.spec(s)
            if isinstance(data, Poly):
                r = self.of(data)
                if r != frozenset([PY]):
                    return r
                return frozenset([ZD])
            if isinstance(data, (int, float)):
                return frozenset([ZD])
            return frozenset([DEF])
        if op == "full":
            return self.ctor(n, a[2], a[3], a[0] == ())
        if op == "empty":
            return self.ctor(n, a[2], a[3], a[0] == ())
        if op == "full_like":
            s = a[2] if k == "dtype" else a[3]
            return self.spec(s) if s is not None else self.of(a[0])
        if op == "empty_like":
            s = a[2] if k == "dtype" else a[3]
            return self.spec(s) if s is not None else self.of(a[0])
        if op == "eye":
            return self.ctor(n, a[1], a[2])
        if op == "arange" and k == "dtype" and a[-2] is None and all(isinstance(y, (int, Poly)) and is_int(P(y)) for y in a[:-2] if y is not None):
            return frozenset([INT])
        if op in ("arange", "linspace", "logspace", "hann_window", "hamming_window"):
            return self.ctor(n, a[-2], a[-1])
        if op == "cast":
            s = a[1] if k == "dtype" else a[2]
            return self.spec(s) if s is not None else self.of(a[0])
        if op == "rng":
            if len(a) >= 6:
                return self.ctor(n, a[4], a[5], a[3] == ())
            return frozenset([PY]) if len(a) == 3 else frozenset([TOP])
        if op == "rngl":
            s = a[5] if k == "dtype" else a[6]
            return self.spec(s) if s is not None else self.of(a[3])
        if op == "randint":
            return frozenset([ZD if a[4] == () else DEF]) if k == "device" else frozenset(["fix:torch.int64"])
        if op in ("cmp", "any", "all", "isnan", "isfinite"):
            if k == "dtype":
                self.of(a[0] if op != "cmp" else a[1])
                return frozenset(["fix:torch.bool"])
            return self.mix(n, [self.of(x) for x in a if isinstance(x, (Poly, Node))])
        if op.startswith("arg") or op == "nonzero":
            return frozenset(["fix:torch.int64"]) if k == "dtype" else self.of(a[0])
        if op in NPOPS:
            return frozenset([DEF])
        if op == "from_numpy":
            return self.of(a[0])
        if op in ("cat", "stack"):
            return self.mix(n, [self.of(t) for t in a[0]])
        if op == "where":
            ls = [self.of(x) for x in a[1:]]
            c = self.of(a[0])
            if k == "device":
                ls.append(c)
            return self.mix(n, ls)
        if op == "tbin":
            return self.mix(n, [self.of(x) for x in a[1:]])
        if op == "pow":
            return self.mix(n, [self.of(a[0]), self.of(a[1])])
        if op in ALL or op == "clamp":
            return self.mix(n, [self.of(x) for x in a if isinstance(x, (Poly, Node))])
        if op in ("sum", "mean", "prod", "cumsum") and k == "dtype":
            for x in a[2:]:
                if isinstance(x, Node) and x.op in ("ext", "dtype_lit", "dtype", "default_dtype"):
                    return self.spec(x)
        if op == "masked_scatter":
            return self.mix(n, [self.of(a[0]), self.of(a[2])])
        if op in ("store", "scatter"):
            vals = [self.of(x) for x in a[2:] if isinstance(x, (Poly, Node))]
            base = self.of(a[0])
            self.mix(n, [base] + vals)
            return base
        if op == "seqterm":
            return frozenset([TOP])
        if op in FIRST:
            return self.of(a[0])
        return frozenset([TOP])


# ------------------------------------------------------------------ gradient
CUT = {"detach": "detach()", "nograd": "a no-grad block", "item_": "item()/float()", "tolist": "tolist()", "numpy": "numpy()",
       "nparray": "numpy conversion", "argmax": "argmax", "argmin": "argmin", "argsort": "argsort", "argsort_t": "argsort"}
CUTFN = {"round", "floor", "ceil", "trunc", "sign", "sgn", "heaviside", "isnan", "logical_not"}


def value_args(n):
    """arguments through which the value of n is (differentiably) carried"""
    op, a = n.op, n.args
    if op == "phi":
        return a[1:]
    if op in ("cmp", "dim", "rank", "len", "dtype", "device", "isym", "sym", "randint", "rng", "any", "all", "pred", "numel", "slen",
              "full", "empty", "arange", "linspace", "eye", "rank", "vec", "idx", "imu", "bmu", "floordiv", "mod"):
        return ()
    if op == "full_like" or op == "empty_like":
        return (a[1],) if op == "full_like" else ()
    if op in ("getitem", "gather", "view", "flip", "unfold", "unsqueeze", "bcast", "expand", "roll", "reflection_pad2d", "fpad",
              "index_select", "permute", "transpose", "squeeze"):
        return (a[0],)
    if op == "store":
        return (a[0], a[2])
    if op == "scatter":
        return (a[0],) + a[2:]
    if op == "cast":
        return (a[0],)
    if op == "where":
        return a[1:]
    if op == "masked_scatter":
        return (a[0], a[2])
    if op == "tensor":
        return (a[0],)
    return a


def grad_walk(ip, roots):
    """-> (inputs reached differentiably: set of tin nodes, cuts: list of (node, what))"""
    seen = set()
    stack = list(roots)
    ins = set()
    cuts = []
    while stack:
        v = stack.pop()
        if isinstance(v, tuple):
            stack.extend(v)
            continue
        if isinstance(v, Poly):
            stack.extend(v.atoms())
            continue
        if not isinstance(v, Node) or v in seen:
            continue
        seen.add(v)
        if v.op == "tin":
            ins.add(v)
            continue
        what = CUT.get(v.op)
        if what is None and v.op == "fn1" and v.args[1] in CUTFN:
            what = v.args[1] + "()"
        if what is None and v.op == "tensor" and has_tin(ip, v.args[0]):
            what = "torch.tensor()"
        if what is None and v.op == "tcall" and v.args[0] in CUTFN:
            what = str(v.args[0])
        if what:
            if has_tin(ip, v.args):
                cuts.append((v, what))
            continue
        if v.op == "mu":
            d = ip.mu_defs.get(v)
            if d:
                stack.extend(x for x in d if isinstance(x, (Poly, Node)))
            continue
        stack.extend(value_args(v))
    return ins, cuts


def has_tin(ip, x):
    """does an input value (not merely its shape) occur in x"""
    seen = set()
    stack = [x]
    while stack:
        v = stack.pop()
        if isinstance(v, tuple):
            stack.extend(v)
        elif isinstance(v, Poly):
            stack.extend(v.atoms())
        elif isinstance(v, Node) and v not in seen:
            seen.add(v)
            if v.op == "tin":
                return True
            if v.op == "mu":
                d = ip.mu_defs.get(v)
                if d:
                    stack.extend(y for y in d if isinstance(y, (Poly, Node)))
                continue
            stack.extend(value_args(v))
    return False
