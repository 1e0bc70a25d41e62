"""Interprocedural abstract interpreter over the syntax trees of the analysed package.

It never imports or runs the analysed code: it walks the AST of every function reachable
from an entry, inlining calls, and builds a value-dependence graph (terms.py) for every
value, an alias-aware abstract heap, and a log of events (in-place writes, attribute
writes, raises, operations on None, random draws ...).  Branches whose condition is not
decided by constants or linear facts are both analysed and joined with gated phi terms;
loops of unknown length are summarised by widening changed locations to mu terms.
"""
import ast
import os
import builtins as _bi
from .vals import *
from .terms import *
from .terms import ge0, gt0, eq0, not_, and_, or_, phi, bphi
from . import lin

MAXDEPTH = 60
MISSING = K("<missing>")


class Event:
    __slots__ = ("kind", "file", "line", "func", "data", "pc", "stack")

    def __init__(self, kind, file, line, func, data, pc, stack):
        self.kind, self.file, self.line, self.func = kind, file, line, func
        self.data, self.pc, self.stack = data, pc, stack

    def __repr__(self):
        return f"{self.kind}@{self.file}:{self.line}({self.func}) {self.data}"

    @property
    def where(self):
        return f"{self.file}:{self.line} in {self.func}"


class Ctx:
    def __init__(self, fn, fid, base):
        self.fn, self.fid, self.base = fn, fid, base
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.line = 0
        self.tries = []


class Source:
    """parsed package"""

    def __init__(self, repo, pkg="torchimage"):
        self.repo, self.pkg = repo, pkg
        self.files = {}
        self.errors = []
        root = os.path.join(repo, pkg)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, repo)
                    mod = rel[:-3].replace(os.sep, ".")
                    ispkg = mod.endswith(".__init__")
                    if ispkg:
                        mod = mod[:-9]
                    with open(p, encoding="utf-8") as fh:
                        txt = fh.read()
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        self.files[mod] = (rel, ast.parse(txt, rel), ispkg)


def plain_while(s):
    """while True: if c: break; rest  ->  while not c: rest"""
    while isinstance(s.test, ast.Constant) and s.test.value and not s.orelse and s.body and isinstance(s.body[0], ast.If) \
            and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Break) and len(s.body) > 1:
        r = _PLAIN.get(s)
        if r is None:
            t = s.body[0].test
            r = ast.copy_location(ast.While(ast.copy_location(ast.UnaryOp(ast.Not(), t), t), s.body[1:], []), s)
            _PLAIN[s] = r
        s = r
    return s


_PLAIN = {}


class Interp:
    def __init__(self, source):
        self.src = source
        self.st = State()
        self.events = []
        self._evseen = set()
        self.modules = {}
        self.mod_state = {}
        self._ctr = 0
        self.stack = []
        self.phase = "import"
        self.mu_defs = {}
        self.mu_ids = {}
        self.loop_n = {}
        self.loop_info = {}
        self.undecided = []
        self._dec = {}
        self.functions = set()
        self.site_n = {}
        self.steps = 0
        self.written = {}
        self.intrinsics = {}
        self.rank = {}
        self.inst_forward = {}
        self.budget = 400000
        self.cellops = {}
        self.loop_hooks = []
        from . import models
        self.m = models.Models(self)

    # ------------------------------------------------------------ utilities
    def newid(self):
        self._ctr += 1
        return self._ctr

    def alloc(self, st, kind, **d):
        oid = self.newid()
        st.heap[oid] = Rec(kind, self.phase, **d)
        return oid

    def cell(self, st, term, **kw):
        d = dict(term=term, base=None, view=None, parents=None, alias=(), lib="torch", fresh=True)
        d.update(kw)
        return T(self.alloc(st, "cell", **d))

    def lst(self, st, items):
        return LST(self.alloc(st, "list", c=items if isinstance(items, V) else TUP(tuple(items)), arr=False))

    def arr(self, st, items):
        return LST(self.alloc(st, "list", c=items if isinstance(items, V) else TUP(tuple(items)), arr=True))

    def dct(self, st, d):
        return DCT(self.alloc(st, "dict", k=dict(d), isset=False))

    def site(self):
        k = tuple((c.fn.qual if c.fn else "?", c.line) for c in self.stack[-4:])
        n = self.site_n.get(k, 0)
        self.site_n[k] = n + 1
        return "/".join(f"{a}:{b}" for a, b in k[-2:]) + f"#{n}"

    @property
    def ctx(self):
        return self.stack[-1]

    def loc(self):
        for c in reversed(self.stack):
            if c.fn is not None:
                return self.src.files[c.fn.mod][0], c.line, c.fn.qual
        return "?", 0, "?"

    def event(self, kind, st, **data):
        f, l, q = self.loc()
        stk = tuple((c.fn.qual, c.line) for c in self.stack if c.fn is not None)
        key = (kind, f, l, q, tuple(sorted((k, repr(v)) for k, v in data.items())), stk)
        if key in self._evseen and kind not in ("raise",):
            return
        self._evseen.add(key)
        self.events.append(Event(kind, f, l, q, data, st.pc, stk))

    def note_undecided(self, st, what):
        f, l, q = self.loc()
        self.undecided.append((f, l, q, what))

    def opaque(self, st, what, *args):
        self.note_undecided(st, what)
        return S(N_("opaque", what, *[self.freeze(st, a) for a in args]))

    # ------------------------------------------------------------ facts
    def decide(self, st, c):
        if isinstance(c, bool):
            return c
        if c in st.pc:
            return True
        n = not_(c)
        if isinstance(n, bool):
            return not n
        if n in st.pc:
            return False
        key = (c, st.pc)
        if key in self._dec:
            return self._dec[key]
        r = self._decide(st, c)
        self._dec[key] = r
        return r

    def _decide(self, st, c):
        if c.op == "and":
            rs = [self.decide(st, a) for a in c.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        elif c.op == "or":
            rs = [self.decide(st, a) for a in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        facts = self.relevant(st, c)
        if not facts and c.op not in ("ge0", "gt0", "eq0", "and", "or"):
            return None
        if c.op not in ("ge0", "gt0", "eq0", "and", "or") and not any(
                f.op in ("or",) for f in facts):
            return None
        if lin.entails(facts, c, 2):
            return True
        n = not_(c)
        if lin.entails(facts, n, 2):
            return False
        return None

    def relevant(self, st, c):
        def at(x):
            return set(n for n in walk(x) if n.op not in ("ge0", "gt0", "eq0", "and", "or", "not"))
        want = at(c)
        out = []
        pool = [(f, at(f)) for f in st.pc]
        for _ in range(3):
            more = False
            rest = []
            for f, a in pool:
                if a & want:
                    out.append(f)
                    if len(a) < 25:
                        want |= a
                    more = True
                else:
                    rest.append((f, a))
            pool = rest
            if not more or len(out) > 40:
                break
        return out

    # ------------------------------------------------------------ freezing values into term arguments
    def freeze(self, st, v, depth=0):
        if depth > 8:
            return N_("deep")
        if isinstance(v, N):
            return v.p
        if isinstance(v, K):
            return v.v if not isinstance(v.v, type(Ellipsis)) else "..."
        if isinstance(v, B):
            return v.c
        if isinstance(v, S):
            return v.n
        if isinstance(v, T):
            return self.m.cell_term(st, v.oid)
        if isinstance(v, TUP):
            return tuple(self.freeze(st, x, depth + 1) for x in v.items)
        if isinstance(v, LST):
            r = st.heap.get(v.oid)
            return self.freeze(st, r.c, depth + 1)
        if isinstance(v, SLC):
            return N_("slc", *[self.freeze(st, x, depth + 1) for x in (v.a, v.b, v.c)])
        if isinstance(v, SQ):
            return N_("vec", v.len, v.var, self.freeze(st, v.elem, depth + 1),
                      tuple((i, self.freeze(st, x, depth + 1)) for i, x in v.over))
        if isinstance(v, DCT):
            r = st.heap.get(v.oid)
            return N_("dict", tuple((repr(k), self.freeze(st, x, depth + 1)) for k, x in r.k.items()))
        if isinstance(v, NDS):
            return N_("nds", v.kind, tuple(self.freeze(st, x, depth + 1) for x in v.items))
        if isinstance(v, U):
            return N_("union", *[N_("alt", c, self.freeze(st, x, depth + 1)) for c, x in v.alts])
        if isinstance(v, INST):
            r = st.heap.get(v.oid)
            return N_("inst", v.oid)
        if isinstance(v, EXT):
            return N_("ext", v.path)
        if isinstance(v, FN):
            return N_("fn", v.qual)
        return N_("val", type(v).__name__, repr(v)[:60])

    # ------------------------------------------------------------ joins
    def join_val(self, st, c, a, b):
        if a == b:
            return a
        if isinstance(a, N) and isinstance(b, N):
            return N(phi(c, a.p, b.p), a.ty if a.ty == b.ty else None)
        if isinstance(a, (B, K)) and isinstance(b, (B, K)) and \
                all(isinstance(x, B) or isinstance(x.v, bool) for x in (a, b)):
            ca = a.c if isinstance(a, B) else a.v
            cb = b.c if isinstance(b, B) else b.v
            return boolv(bphi(c, ca, cb))
        if isinstance(a, T) and isinstance(b, T):
            ra, rb = st.heap[a.oid], st.heap[b.oid]
            return T(self.alloc(st, "cell", term=None, base=None, view=None,
                                parents=((c, a.oid), (not_(c), b.oid)), alias=(), lib=ra.lib, fresh=False))
        if isinstance(a, TUP) and isinstance(b, TUP) and len(a.items) == len(b.items):
            return TUP(tuple(self.join_val(st, c, x, y) for x, y in zip(a.items, b.items)), a.names)
        if isinstance(a, SLC) and isinstance(b, SLC):
            return SLC(*[self.join_val(st, c, x, y) for x, y in zip((a.a, a.b, a.c), (b.a, b.b, b.c))])
        if isinstance(a, NDS) and isinstance(b, NDS) and a.kind == b.kind and len(a.items) == len(b.items):
            return NDS(a.kind, tuple(self.join_val(st, c, x, y) for x, y in zip(a.items, b.items)), a.item_ndim)
        if isinstance(a, SQ) and isinstance(b, SQ) and a.len == b.len and a.kind == b.kind:
            from .models import subst_v
            el = self.join_val(st, c, a.elem, subst_v(b.elem, {b.var: P(a.var)}))
            pos = [i for i, _ in a.over] + [i for i, _ in b.over]
            over = []
            for i in dict.fromkeys(pos):
                over.append((i, self.join_val(st, c, self.m.sq_get(st, a, i), self.m.sq_get(st, b, i))))
            return SQ(a.len, a.var, el, tuple(over), a.kind)
        alts = []
        for cc, v in ((c, a), (not_(c), b)):
            sub_ = v.alts if isinstance(v, U) else ((True, v),)
            for c2, v2 in sub_:
                c3 = and_(cc, c2)
                if c3 is False:
                    continue
                for i, (c4, v4) in enumerate(alts):
                    if v4 == v2:
                        alts[i] = (or_(c4, c3), v4)
                        break
                    if isinstance(v4, T) and isinstance(v2, T) or isinstance(v4, N) and isinstance(v2, N):
                        # merge same-kind alternatives
                        alts[i] = (or_(c4, c3), self.join_val(st, c4, v4, v2))
                        break
                else:
                    alts.append((c3, v2))
        if len(alts) == 1:
            return alts[0][1]
        return U(tuple(alts))

    def join_rec(self, st, c, r1, r2):
        if r1.same(r2):
            return r1
        if r1.kind != r2.kind:
            return Rec(r1.kind, r1.owner, **r1.d)
        if r1.kind == "cell":
            if r1.term is not None and r2.term is not None:
                return r1.set(term=phi(c, r1.term, r2.term), alias=tuple(dict.fromkeys(r1.alias + r2.alias)))
            return r1
        if r1.kind == "list":
            return r1.set(c=self.join_val(st, c, r1.c, r2.c))
        if r1.kind == "dict":
            keys = list(r1.k)
            keys += [k for k in r2.k if k not in r1.k]
            return r1.set(k={k: self.join_val(st, c, r1.k.get(k, MISSING), r2.k.get(k, MISSING)) for k in keys})
        if r1.kind in ("inst", "class", "xinst"):
            keys = list(r1.attrs)
            keys += [k for k in r2.attrs if k not in r1.attrs]
            return r1.set(attrs={k: self.join_val(st, c, r1.attrs.get(k, MISSING), r2.attrs.get(k, MISSING))
                                 for k in keys})
        return r1

    def join(self, c, s1, s2):
        """s1 holds under c, s2 otherwise"""
        if s1 is None or s1.dead:
            return s2
        if s2 is None or s2.dead:
            return s1
        st = State()
        st.nograd = s1.nograd and s2.nograd
        k = 0
        while k < len(s1.pc) and k < len(s2.pc) and s1.pc[k] is s2.pc[k]:
            k += 1
        pc = s1.pc[:k]
        r1, r2 = s1.pc[k:], s2.pc[k:]
        common = tuple(x for x in r1 if x in r2)
        r1 = [x for x in r1 if x not in common]
        r2 = [x for x in r2 if x not in common]
        pc = pc + common
        if len(r1) <= 3 and len(r2) <= 3:
            o = or_(and_(*r1), and_(*r2))
            if o is not True and o is not False and o not in pc:
                pc = pc + (o,)
        st.pc = pc
        st.heap = dict(s2.heap)
        h2 = s2.heap
        diffs = []
        for oid, r in s1.heap.items():
            q = h2.get(oid)
            if q is None:
                st.heap[oid] = r
            elif q is not r:
                diffs.append(oid)
        for oid in diffs:
            st.heap[oid] = self.join_rec(st, c, s1.heap[oid], h2[oid])
        for fid, vs in s1.frames.items():
            ws = s2.frames.get(fid)
            if ws is None:
                st.frames[fid] = vs
                continue
            if ws is vs:
                st.frames[fid] = vs
                continue
            out = {}
            for n, v in vs.items():
                w = ws.get(n, MISSING)
                out[n] = v if v is w else self.join_val(st, c, v, w)
            for n, w in ws.items():
                if n not in vs:
                    out[n] = self.join_val(st, c, MISSING, w)
            st.frames[fid] = out
        for fid, ws in s2.frames.items():
            if fid not in s1.frames:
                st.frames[fid] = ws
        return st

    def fork(self, st, c, f1, f2):
        d = self.decide(st, c)
        if d is True:
            return f1(st)
        if d is False:
            return f2(st)
        s1, s2 = st.clone(), st.clone()
        s1.assume(c)
        s2.assume(not_(c))
        v1 = v2 = None
        try:
            v1 = f1(s1)
        except Dead:
            s1.dead = True
        try:
            v2 = f2(s2)
        except Dead:
            s2.dead = True
        if s1.dead and s2.dead:
            st.dead = True
            raise Dead()
        if s1.dead:
            st.become(s2)
            return v2
        if s2.dead:
            st.become(s1)
            return v1
        j = self.join(c, s1, s2)
        st.become(j)
        if v1 is None and v2 is None:
            return None
        return self.join_val(st, c, v1, v2)

    def alts(self, st, v):
        return [(c, x) for c, x in v.alts if x != MISSING and self.decide(st, c) is not False]

    def lift(self, st, v, f):
        if not isinstance(v, U):
            return f(st, v)
        al = self.alts(st, v)
        if not al:
            st.dead = True
            raise Dead()
        if len(al) == 1:
            if not isinstance(al[0][0], bool):
                st.assume(al[0][0])
            return f(st, al[0][1])
        return self._lift(st, al, f)

    def _lift(self, st, al, f):
        (c, x) = al[0]
        if len(al) == 1:
            return f(st, x)
        return self.fork(st, c, lambda s: f(s, x), lambda s: self._lift(s, al[1:], f))

    def one(self, st, v):
        """collapse a union that has one feasible alternative"""
        if isinstance(v, U):
            al = self.alts(st, v)
            if len(al) == 1:
                return al[0][1]
            if al and len(al) < len(v.alts):
                return U(tuple(al))
        return v

    # ------------------------------------------------------------ module loading
    def load(self, mod):
        if mod in self.modules:
            return self.modules[mod]
        rel, tree, ispkg = self.src.files[mod]
        if "." in mod:
            self.load(mod.rsplit(".", 1)[0])
        if mod in self.modules:
            return self.modules[mod]
        fid = ("mod", mod)
        self.modules[mod] = fid
        self.st.frames[fid] = {"__name__": K(mod)}
        fn = FN(tree, None, mod, (), {}, mod)
        ctx = Ctx(fn, fid, 0)
        self.stack.append(ctx)
        old = self.phase
        self.phase = "import"
        try:
            self.exec_block(tree.body, self.st)
        except Dead:
            self.note_undecided(self.st, "module body raises")
            self.st.dead = False
        finally:
            self.phase = old
            self.stack.pop()
        if "." in mod:
            par, leaf = mod.rsplit(".", 1)
            if par in self.modules:
                self.st.frames[("mod", par)].setdefault(leaf, MOD(mod))
        return fid

    def load_all(self):
        for m in self.src.files:
            self.load(m)

    def modattr(self, st, mod, name):
        self.load(mod)
        fr = st.frames.get(("mod", mod))
        if fr is None:
            fr = self.st.frames[("mod", mod)]
            st.frames[("mod", mod)] = fr
        if name in fr:
            return fr[name]
        if mod + "." + name in self.src.files:
            self.load(mod + "." + name)
            return MOD(mod + "." + name)
        return None

    def lookup(self, dotted):
        """dotted public name -> value in the import state"""
        parts = dotted.split(".")
        if parts[0] not in self.src.files:
            return None
        self.load(parts[0])
        v = MOD(parts[0])
        for p in parts[1:]:
            if isinstance(v, MOD):
                v = self.modattr(self.st, v.name, p)
            elif isinstance(v, CLS):
                v = self.class_lookup(self.st, v, p)
            else:
                v = None
            if v is None:
                return None
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, body, st):
        for s in body:
            if st.dead:
                raise Dead()
            self.exec_stmt(s, st)
        if st.dead:
            raise Dead()

    def exec_stmt(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Undecided("analysis budget exceeded")
        self.ctx.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_undecided(st, "statement " + type(s).__name__)
            return
        m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, st)

    def s_Pass(self, s, st):
        pass

    def s_Global(self, s, st):
        self.ctx.globals.update(s.names)

    def s_Nonlocal(self, s, st):
        self.ctx.nonlocals.update(s.names)

    def s_Import(self, s, st):
        for a in s.names:
            if a.name.split(".")[0] == self.src.pkg:
                self.load(a.name)
                v = MOD(a.name if a.asname else a.name.split(".")[0])
            else:
                v = EXT(self.m.canon(a.name if a.asname else a.name.split(".")[0]))
            self.assign_name(st, a.asname or a.name.split(".")[0], v)

    def s_ImportFrom(self, s, st):
        mod = self.ctx.fn.mod
        if s.level:
            base = mod.split(".")
            if not self.src.files[mod][2]:
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            target = ".".join(base + (s.module.split(".") if s.module else []))
        else:
            target = s.module
        if target.split(".")[0] != self.src.pkg:
            if target == "__future__":
                return
            for a in s.names:
                self.assign_name(st, a.asname or a.name, EXT(self.m.canon(target + "." + a.name)))
            return
        if target not in self.src.files:
            self.event("missing-import", st, name=target)
            for a in s.names:
                self.assign_name(st, a.asname or a.name, S(N_("unresolved", target + "." + a.name)))
            return
        self.load(target)
        for a in s.names:
            if a.name == "*":
                fr = self.st.frames[("mod", target)]
                al = fr.get("__all__")
                names = None
                if al is not None:
                    kind, it = self.iterate(st, al)
                    if kind == "known":
                        names = [x.v for x in it if isinstance(x, K)]
                if names is None:
                    names = [n for n in fr if not n.startswith("_")]
                for n in names:
                    v = self.modattr(st, target, n)
                    if v is None:
                        self.event("missing-import", st, name=target + "." + n)
                    else:
                        self.assign_name(st, n, v)
                continue
            v = self.modattr(st, target, a.name)
            if v is None:
                self.event("missing-import", st, name=target + "." + a.name)
                v = S(N_("unresolved", target + "." + a.name))
            self.assign_name(st, a.asname or a.name, v)

    def decorators(self, node, st):
        out = []
        for d in node.decorator_list:
            v = self.ev(d, st)
            out.append(v)
        return out

    def s_FunctionDef(self, s, st):
        fn = self.make_fn(s, st, s.name)
        v = fn
        deco = []
        for d in reversed(self.decorators(s, st)):
            if isinstance(d, EXT):
                nm = d.path.split(".")[-1]
                deco.append(nm if d.path.startswith("builtins.") else d.path)
            elif isinstance(d, XM) and isinstance(d.self, FN):       # @prop.setter
                deco.append("prop." + d.name)
            elif isinstance(d, (FN, CLS, INST)):
                v = self.call(st, d, [v if not deco else self.redeco(v, deco)], {})
                deco = []
            elif isinstance(d, S) and d.ty == "nograd":
                deco.append("no_grad")
            elif isinstance(d, S) and d.ty == "passdeco":
                pass
            else:
                deco.append("?")
                self.note_undecided(st, "decorator")
        if deco and isinstance(v, FN):
            v = self.redeco(v, deco)
        old = st.frames[self.ctx.fid].get(s.name)
        if "prop.setter" in deco and isinstance(old, FN):
            return
        self.assign_name(st, s.name, v)

    def redeco(self, f, deco):
        return FN(f.node, f.fid, f.mod, f.defaults, f.kwdefaults, f.qual, f.cls, tuple(f.deco) + tuple(deco))

    def make_fn(self, node, st, name):
        a = node.args
        defaults = tuple(self.ev(d, st) for d in a.defaults)
        kwd = {k.arg: self.ev(d, st) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        c = self.ctx
        q = name if isinstance(c.fn.node, ast.Module) else c.fn.qual + "." + name
        fid = None if isinstance(c.fid, tuple) and c.fid[0] == "mod" else c.fid
        if isinstance(c.fn.node, ast.ClassDef):
            fid = c.fn.fid
        return FN(node, fid, c.fn.mod, defaults, kwd, q)

    def s_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        fid = self.newid()
        st.frames[fid] = {}
        c = self.ctx
        q = s.name if isinstance(c.fn.node, ast.Module) else c.fn.qual + "." + s.name
        outer = None if isinstance(c.fid, tuple) else c.fid
        fn = FN(s, outer, c.fn.mod, (), {}, q)
        self.stack.append(Ctx(fn, fid, 0))
        try:
            self.exec_block(s.body, st)
        finally:
            self.stack.pop()
        attrs = st.frames.pop(fid)
        oid = self.alloc(st, "class", name=q, mod=c.fn.mod, bases=tuple(bases), attrs={})
        cls = CLS(oid)
        for n, v in list(attrs.items()):
            if isinstance(v, FN):
                attrs[n] = FN(v.node, v.fid, v.mod, v.defaults, v.kwdefaults, v.qual, cls, v.deco)
        st.heap[oid] = st.heap[oid].set(attrs=attrs)
        self.assign_name(st, s.name, cls)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        r = st.clone()
        self.ctx.returns.append((r, v))
        st.dead = True
        raise Dead()

    def s_Raise(self, s, st):
        exc = "Exception"
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                e = e.func
            v = self.ev(e, st)
            exc = v.path.split(".")[-1] if isinstance(v, EXT) else getattr(e, "id", "Exception")
        self.do_raise(st, exc)

    EXC_PARENTS = {"IndexError": "LookupError", "KeyError": "LookupError", "ModuleNotFoundError": "ImportError",
                   "ZeroDivisionError": "ArithmeticError", "NotImplementedError": "RuntimeError",
                   "RecursionError": "RuntimeError", "OverflowError": "ArithmeticError",
                   "FloatingPointError": "ArithmeticError", "UnicodeError": "ValueError"}

    def do_raise(self, st, exc, implicit=False):
        self.event("raise", st, exc=exc, implicit=implicit, caught=self.catch(st, exc))
        st.dead = True
        raise Dead()

    def catch(self, st, exc):
        for c in reversed(self.stack):
            for names, states in reversed(c.tries):
                e = exc
                ok = "*" in names or "Exception" in names or "BaseException" in names
                while e and not ok:
                    ok = e in names
                    e = self.EXC_PARENTS.get(e)
                if ok:
                    states.append(st.clone())
                    return True
        return False

    def may_raise(self, st, exc, cond):
        """record that exc may be raised here (only matters inside a try)"""
        for c in self.stack:
            if c.tries:
                s2 = st.clone()
                s2.assume(cond)
                if self.catch(s2, exc):
                    st.assume(not_(cond))
                return

    def s_Try(self, s, st):
        names = set()
        for h in s.handlers:
            if h.type is None:
                names.add("*")
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                for t in ts:
                    names.add(getattr(t, "id", getattr(t, "attr", "*")))
        states = []
        base = st.clone()
        c = self.ctx
        c.tries.append((names, states))
        n_ret = len(c.returns)
        dead = False
        try:
            self.exec_block(s.body, st)
        except Dead:
            dead = True
        finally:
            c.tries.remove((names, states))
        if not dead and s.orelse:
            try:
                self.exec_block(s.orelse, st)
            except Dead:
                dead = True
        res = None if dead else st
        for h in s.handlers[:1] if len(s.handlers) == 1 else s.handlers:
            for hs in states:
                hs.dead = False
                # frames of callees are gone; drop to this frame's view
                if h.name:
                    hs.frames[c.fid][h.name] = S(N_("exc"))
                try:
                    self.exec_block(h.body, hs)
                except Dead:
                    continue
                if res is None:
                    res = hs
                else:
                    lits = [x for x in hs.pc if x not in base.pc]
                    res = self.join(and_(*lits) if lits else N_("bsym", "exc" + self.site()), hs, res)
            if len(s.handlers) > 1:
                break
        if res is None:
            st.dead = True
        else:
            st.become(res)
        if s.finalbody and not st.dead:
            self.exec_block(s.finalbody, st)
        if st.dead:
            raise Dead()

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        d = self.decide(st, c)
        if d is True:
            return
        s2 = st.clone()
        s2.assume(not_(c))
        self.event("raise", s2, exc="AssertionError", implicit=False, caught=self.catch(s2, "AssertionError"))
        if d is False:
            st.dead = True
            raise Dead()
        st.assume(c)

    def s_If(self, s, st):
        c = self.cond(s.test, st)

        def then(x):
            self.exec_block(s.body, x)

        def other(x):
            if s.orelse:
                self.exec_block(s.orelse, x)
        self.fork(st, c, then, other)

    def s_With(self, s, st):
        old = st.nograd
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if isinstance(v, S) and v.ty == "nograd":
                st.nograd = True
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
        self.exec_block(s.body, st)
        st.nograd = old

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[self.ctx.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st)
                i = self.index(t.slice, st)
                self.lift(st, o, lambda x, ob: self.m.delitem(x, ob, i))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, st)
                if isinstance(o, INST):
                    r = st.heap[o.oid]
                    at = dict(r.attrs)
                    at.pop(t.attr, None)
                    st.heap[o.oid] = r.set(attrs=at)

    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_Name(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st)
            v = self.ev(s.value, st)
            r = self.m.augassign(st, s.op, cur, v)
            self.assign_name(st, t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(st, o, t.attr)
            v = self.ev(s.value, st)
            r = self.m.augassign(st, s.op, cur, v)
            self.setattr(st, o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.index(t.slice, st)
            v = self.ev(s.value, st)

            def go(x, ob):
                cur = self.m.getitem(x, ob, i)
                r = self.m.augassign(x, s.op, cur, v)
                self.m.setitem(x, ob, i, r, aug=True)
                return NONE
            self.lift(st, o, go)
        else:
            self.note_undecided(st, "augassign target")

    def assign_name(self, st, name, v):
        c = self.ctx
        if name in c.globals:
            fid = ("mod", c.fn.mod)
            if self.phase == "call":
                self.mark_written(st, ("var", fid, name))
                self.event("setglobal", st, name=name)
            st.frames[fid][name] = v
            return
        if name in c.nonlocals:
            f = c.fn.fid
            while f is not None:
                fr = st.frames.get(f)
                if fr is not None and name in fr:
                    fr[name] = v
                    return
                f = fr.get("$parent") if fr else None
        st.frames[c.fid][name] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.assign_name(st, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            self.lift(st, o, lambda x, ob: self.setattr(x, ob, t.attr, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            i = self.index(t.slice, st)
            self.lift(st, o, lambda x, ob: self.m.setitem(x, ob, i, v) or NONE)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        else:
            self.note_undecided(st, "assign target")

    def unpack(self, t, v, st):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]

        def go(x, val):
            kind, items = self.iterate(x, val, want=None if star else n)
            if kind == "known":
                if star:
                    k = star[0]
                    after = n - k - 1
                    if len(items) < n - 1:
                        self.do_raise(x, "ValueError", True)
                    mid = items[k:len(items) - after]
                    items = items[:k] + [self.lst(x, mid)] + items[len(items) - after:]
                if len(items) != n:
                    self.do_raise(x, "ValueError", True)
                for e, it in zip(t.elts, items):
                    self.assign(e, it, x)
            else:
                for k, e in enumerate(t.elts):
                    it = self.m.getitem(x, val, num(k))
                    self.assign(e, it, x)
            return NONE
        self.lift(st, v, go)

    # ------------------------------------------------------------ loops
    def iterate(self, st, v, want=None):
        """('known', [V...]) or ('sym', SQ)"""
        return self.m.iterate(st, v, want)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        self.lift(st, it, lambda x, v: self._for(s, x, v) or NONE)

    def _for(self, s, st, it):
        kind, items = self.iterate(st, it)
        if kind == "known" and len(items) <= 300:
            self.run_known(st, items, lambda x, v: (self.assign(s.target, v, x), self.exec_block(s.body, x)),
                           s.orelse)
            return
        if kind == "sym" and isinstance(it, RNG) and it.s != ONE:
            up = self.decide(st, ge0(sub(it.s, ONE)))
            if up or self.decide(st, ge0(sub(neg(it.s), ONE))):
                self.range_loop(s, st, it, bool(up))
                return
        sq = items if kind == "sym" else None
        self.loop_unknown(st, s, sq, s.target)

    def range_loop(self, s, st, r, up):
        """for t in range(a, b, s): …  ->  a counter and a while loop"""
        w = _PLAIN.get((s, up))
        if w is None:
            nm = lambda x, cx: ast.copy_location(ast.Name(f"<{x}:{s.lineno}>", cx), s)
            L = lambda n: ast.copy_location(n, s)
            w = L(ast.While(L(ast.Compare(nm("at", ast.Load()), [ast.Lt() if up else ast.Gt()], [nm("end", ast.Load())])),
                            [L(ast.Assign([s.target], nm("at", ast.Load()))),
                             L(ast.Assign([nm("at", ast.Store())], L(ast.BinOp(nm("at", ast.Load()), ast.Add(), nm("by", ast.Load()))))),
                             *s.body], s.orelse))
            _PLAIN[(s, up)] = w
        for x, v in (("at", r.a), ("end", r.b), ("by", r.s)):
            self.assign_name(st, f"<{x}:{s.lineno}>", N(v, "int"))
        self.s_While(w, st)

    def run_known(self, st, items, body, orelse=()):
        c = self.ctx
        loop = {"break": [], "cont": []}
        c.loops.append(loop)
        base = len(st.pc)
        basepc = st.pc
        dead = False
        try:
            for v in items:
                loop["cont"] = []
                try:
                    body(st, v)
                except Dead:
                    st.dead = True
                self.merge_states(st, loop["cont"], basepc)
                if st.dead:
                    dead = True
                    break
        finally:
            c.loops.pop()
        if not st.dead and orelse:
            try:
                self.exec_block(orelse, st)
            except Dead:
                st.dead = True
        self.merge_states(st, loop["break"], basepc)
        if st.dead:
            raise Dead()

    def merge_states(self, st, others, basepc):
        """join `others` (each alive, reached under its own pc) into st"""
        for o in reversed(others):
            if st.dead:
                st.become(o)
                continue
            k = 0
            while k < len(o.pc) and k < len(st.pc) and o.pc[k] is st.pc[k]:
                k += 1
            lits = o.pc[k:]
            c = and_(*lits) if lits else N_("bsym", "m" + self.site())
            j = self.join(c, o, st.clone())
            st.become(j)

    def s_Break(self, s, st):
        self.ctx.loops[-1]["break"].append(st.clone())
        st.dead = True
        raise Dead()

    def s_Continue(self, s, st):
        self.ctx.loops[-1]["cont"].append(st.clone())
        st.dead = True
        raise Dead()

    def s_While(self, s, st):
        for hook in self.loop_hooks:
            if hook(s, st):
                return
        c = self.ctx
        s = plain_while(s)
        loop = {"break": [], "cont": []}
        basepc = st.pc
        n = 0
        while True:
            cnd = self.cond(s.test, st)
            d = self.decide(st, cnd)
            if d is False:
                break
            if d is None or loop["break"] and isinstance(s.test, ast.Constant):
                self.loop_unknown(st, s, None, None, extra_breaks=loop["break"])
                return
            n += 1
            if n > 200:
                raise Undecided("while loop does not terminate abstractly")
            c.loops.append(loop)
            loop["cont"] = []
            try:
                self.exec_block(s.body, st)
            except Dead:
                st.dead = True
            finally:
                c.loops.pop()
            self.merge_states(st, loop["cont"], basepc)
            if st.dead:
                break
        self.merge_states(st, loop["break"], basepc)
        if st.dead:
            raise Dead()

    def loop_unknown(self, st, s, sq, target, extra_breaks=(), max_it=6):
        """summarise a loop with an unknown number of iterations"""
        at = (self.ctx.fn.qual, s.lineno)
        self.loop_n[at] = self.loop_n.get(at, -1) + 1
        key = f"{at[0]}:{at[1]}:{self.loop_n[at]}"
        c = self.ctx
        init = st.clone()
        cur = st.clone()
        breaks = []
        basepc = st.pc
        mus = {}
        var = N_("isym", "iter:" + key)
        info = self.loop_info[key] = {"pc": basepc, "cond": None, "var": None, "len": None, "breaks": False}
        for it in range(max_it):
            sb = cur.clone()
            loop = {"break": [], "cont": []}
            c.loops.append(loop)
            try:
                if target is not None:
                    if sq is not None:
                        info["var"], info["len"] = var, sq.len
                        sb.assume(ge0(P(var)))
                        sb.assume(gt0(sub(sq.len, P(var))))
                        v = self.m.sq_get(sb, sq, P(var))
                    else:
                        v = S(N_("iterval", key))
                    self.assign(target, v, sb)
                else:
                    cnd = self.cond(s.test, sb)
                    info["cond"] = cnd
                    if self.decide(sb, cnd) is False:
                        sb.dead = True
                    else:
                        sb.assume(cnd)
                if not sb.dead:
                    self.exec_block(s.body, sb)
            except Dead:
                sb.dead = True
            finally:
                c.loops.pop()
            self.merge_states(sb, loop["cont"], basepc)
            breaks = loop["break"]
            info["breaks"] = bool(breaks)
            if sb.dead:
                break
            changed = self.widen(key, init, cur, sb, mus)
            if not changed:
                break
        else:
            self.note_undecided(st, "loop did not stabilise")
        out = cur
        if target is None:
            try:
                cnd = self.cond(s.test, out)
                if self.decide(out, cnd) is True:
                    out.dead = True
                else:
                    out.assume(not_(cnd))
            except Dead:
                out.dead = True
        st.become(out)
        if not st.dead and s.orelse:
            try:
                self.exec_block(s.orelse, st)
            except Dead:
                st.dead = True
        self.merge_states(st, list(breaks) + list(extra_breaks), basepc)
        if st.dead:
            raise Dead()

    def widen(self, key, init, cur, nxt, mus):
        """fold nxt into cur; returns True when cur changed"""
        changed = False
        for oid, r in nxt.heap.items():
            if oid not in cur.heap:
                cur.heap[oid] = r
        for fid, vs in list(cur.frames.items()):
            ws = nxt.frames.get(fid)
            if ws is None or ws is vs:
                continue
            for n, w in ws.items():
                if n not in vs:
                    continue
                v = vs[n]
                if v == w:
                    continue
                nv = self.widen_val(key, ("v", str(fid), n), v, w, cur, nxt, mus)
                if nv != v:
                    vs[n] = nv
                    changed = True
        for oid in list(cur.heap):
            r, q = cur.heap[oid], nxt.heap.get(oid)
            if q is None or q is r or r.same(q):
                continue
            loc = ("h", oid)
            if r.kind == "cell":
                if r.term is None or q.term is None or r.term == q.term:
                    continue
                m = self.mu(key, loc, "mu")
                if m not in mus:
                    mus[m] = (r.term, q.term)
                    self.mu_defs[m] = mus[m]
                    cur.heap[oid] = r.set(term=P(m))
                    changed = True
                else:
                    old = self.mu_defs[m]
                    self.mu_defs[m] = (old[0], q.term)
                    if r.term != P(m):
                        cur.heap[oid] = r.set(term=P(m))
                        changed = True
            elif r.kind == "list":
                nv = self.widen_val(key, loc, r.c, q.c, cur, nxt, mus, seq=True)
                if nv != r.c:
                    cur.heap[oid] = r.set(c=nv)
                    changed = True
            elif r.kind == "dict":
                k = dict(r.k)
                for kk, w in q.k.items():
                    v = k.get(kk, MISSING)
                    if v != w:
                        nv = self.widen_val(key, loc + (repr(kk),), v, w, cur, nxt, mus)
                        if nv != v:
                            k[kk] = nv
                            changed = True
                if k != r.k:
                    cur.heap[oid] = r.set(k=k)
            else:
                k = dict(r.attrs)
                for kk, w in q.attrs.items():
                    v = k.get(kk, MISSING)
                    if v != w:
                        nv = self.widen_val(key, loc + (kk,), v, w, cur, nxt, mus)
                        if nv != v:
                            k[kk] = nv
                            changed = True
                if k != r.attrs:
                    cur.heap[oid] = r.set(attrs=k)
        return changed

    def mu(self, key, loc, op):
        return N_(op, key, self.locname(key, loc))

    def locname(self, key, loc):
        """name of a loop-carried location that does not depend on allocation numbers"""
        tail = loc[2:] if len(loc) > 2 else ()
        ids = self.mu_ids.setdefault((key, loc[0], tail), {})
        i = ids.setdefault(loc, len(ids))
        return ".".join([loc[0] + str(i)] + [str(t) for t in tail])

    def widen_val(self, key, loc, v, w, cur, nxt, mus, seq=False):
        if v == w:
            return v
        if isinstance(v, U) or isinstance(w, U) or self._kind(v) != self._kind(w):
            va = list(v.alts) if isinstance(v, U) else [(True, v)]
            wa = list(w.alts) if isinstance(w, U) else [(True, w)]
            groups = {}
            for _, x in va + wa:
                groups.setdefault(self._kind(x), []).append(x)
            out = []
            for gi, (k, xs) in enumerate(sorted(groups.items())):
                acc = xs[0]
                for x in xs[1:]:
                    acc = self.widen_val(key, loc + ("g" + k,), acc, x, cur, nxt, mus)
                out.append(acc)
            if len(out) == 1:
                return out[0]
            alts = []
            rest = True
            for i, x in enumerate(out):
                if i == len(out) - 1:
                    alts.append((rest, x))
                else:
                    b = N_("bmu", key, self.locname(key, loc), i)
                    alts.append((and_(rest, b), x))
                    rest = and_(rest, not_(b))
            return U(tuple(alts))
        if isinstance(v, N):
            op = "imu" if (v.ty == "int" or is_int(v.p)) and (w.ty == "int" or is_int(w.p)) else "mu"
            m = self.mu(key, loc, op)
            if v.p == P(m):
                self.mu_defs[m] = (self.mu_defs.get(m, (v.p,))[0], w.p)
                return v
            mus[m] = (v.p, w.p)
            self.mu_defs[m] = (v.p, w.p)
            return N(P(m), "int" if op == "imu" else None)
        if isinstance(v, (B, K)) and self._kind(v) == "bool":
            m = self.mu(key, loc, "bmu")
            i = v.c if isinstance(v, B) else v.v
            if i is m and m in self.mu_defs:
                i = self.mu_defs[m][0]
            self.mu_defs[m] = (i, (w.c if isinstance(w, B) else w.v))
            return B(m)
        if isinstance(v, T):
            m = self.mu(key, loc, "mu")
            for o in (v.oid, w.oid):
                if o not in cur.heap and o in nxt.heap:
                    cur.heap[o] = nxt.heap[o]
            tw = self.m.cell_term(nxt, w.oid)
            if m in self.mu_defs and cur.heap[v.oid].d.get("mu") is m:
                self.mu_defs[m] = (self.mu_defs[m][0], tw)
                have = self.m.roots(cur, v.oid)
                new = self.m.roots(nxt, w.oid)
                own = lambda ro, h: set(h[o].owner if h[o].owner != "call" else "call" for o in ro if o in h)
                if own(new, nxt.heap) - own(have, cur.heap):
                    r = cur.heap[v.oid]
                    cur.heap[v.oid] = r.set(alias=tuple(r.alias) + (w.oid,))
                return v
            tv = self.m.cell_term(cur, v.oid)
            self.mu_defs[m] = (tv, tw)
            oid = self.newid()
            cur.heap[oid] = Rec("cell", self.phase, term=P(m), base=None, view=None, parents=None,
                                alias=(v.oid, w.oid), lib=cur.heap[v.oid].lib, fresh=False, mu=m)
            return T(oid)
        if isinstance(v, TUP) and len(v.items) == len(w.items) and not seq:
            return TUP(tuple(self.widen_val(key, loc + (i,), a, b, cur, nxt, mus)
                             for i, (a, b) in enumerate(zip(v.items, w.items))), v.names)
        if isinstance(v, (TUP, SQ)):
            if isinstance(v, TUP) and isinstance(w, TUP) and len(v.items) == len(w.items):
                return TUP(tuple(self.widen_val(key, loc + (i,), a, b, cur, nxt, mus)
                                 for i, (a, b) in enumerate(zip(v.items, w.items))), v.names)
            items = []
            for z in (v, w):
                if isinstance(z, TUP):
                    items += list(z.items)
                else:
                    items.append(z.elem)
                    items += [x for _, x in z.over]
            el = None
            for x in items:
                el = x if el is None or el == x else self.widen_val(key, loc + ("el",), el, x, cur, nxt, mus)
            if isinstance(v, SQ) and v.elem == el:
                return v
            return SQ(P(self.mu(key, loc + ("len",), "imu")), IVAR, el if el is not None else NONE, (), "list")
        if isinstance(v, SLC):
            return SLC(*[self.widen_val(key, loc + (i,), a, b, cur, nxt, mus)
                         for i, (a, b) in enumerate(zip((v.a, v.b, v.c), (w.a, w.b, w.c)))])
        if isinstance(v, (LST, DCT, INST)) and v.oid in cur.heap:
            # different containers across iterations
            return S(N_("mu", key, self.locname(key, loc)))
        if isinstance(v, S) and v.n.op == "mu":
            return v
        m = self.mu(key, loc, "mu")
        self.mu_defs[m] = (self.freeze(cur, v), self.freeze(nxt, w))
        return S(m)

    def _kind(self, v):
        if isinstance(v, K):
            return "bool" if isinstance(v.v, bool) else ("none" if v.v is None else "const")
        if isinstance(v, B):
            return "bool"
        if isinstance(v, (TUP, SQ)):
            return "seq"
        return type(v).__name__

    # ------------------------------------------------------------ expressions
    def cond(self, e, st):
        """evaluate e in boolean context -> bool | Node"""
        if isinstance(e, ast.BoolOp):
            return self._boolcond(e.op, e.values, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st))
        v = self.ev(e, st)
        return self.m.truth(st, v)

    def _boolcond(self, op, vals, st):
        isand = isinstance(op, ast.And)
        c = self.cond(vals[0], st)
        if len(vals) == 1:
            return c
        d = self.decide(st, c)
        if d is not None:
            if d != isand:
                return d
            return self._boolcond(op, vals[1:], st)
        # evaluate the rest in a state where it is actually evaluated
        s1, s2 = st.clone(), st.clone()
        s1.assume(c if isand else not_(c))
        s2.assume(not_(c) if isand else c)
        try:
            r = self._boolcond(op, vals[1:], s1)
        except Dead:
            st.become(s2)
            return (not isand)
        j = self.join(c if isand else not_(c), s1, s2)
        st.become(j)
        return and_(c, r) if isand else or_(c, r)

    def ev(self, e, st):
        self.steps += 1
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return self.opaque(st, "expression " + type(e).__name__)
        if st.dead:
            raise Dead()
        v = m(e, st)
        if isinstance(v, U):
            v = self.one(st, v)
        return v

    def ev_Constant(self, e, st):
        v = e.value
        if isinstance(v, bool) or v is None or v is Ellipsis or isinstance(v, str):
            return K(v)
        if isinstance(v, (int, float)):
            return num(v)
        return S(N_("pyconst", repr(v)))

    def ev_JoinedStr(self, e, st):
        parts = []
        ok = True
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(str(p.value))
            else:
                try:
                    v = self.ev(p.value, st)
                except Dead:
                    raise
                if isinstance(v, K) and isinstance(v.v, str) and p.conversion == -1 and p.format_spec is None:
                    parts.append(v.v)
                elif isinstance(v, N) and v.p.as_int() is not None and v.ty == "int" and p.format_spec is None:
                    parts.append(str(v.p.as_int()))
                else:
                    ok = False
                    parts.append(self.freeze(st, v) if isinstance(v, (S, N)) else "?")
        if ok:
            return K("".join(parts))
        return S(N_("fstr", tuple(parts)), "str")

    def ev_Name(self, e, st):
        n = e.id
        c = self.ctx
        fr = st.frames.get(c.fid)
        if fr is not None and n in fr and n not in c.globals:
            v = fr[n]
            return self.chk_missing(st, v, n)
        fid = c.fn.fid
        if isinstance(c.fid, int) and fr is not None and "$parent" in fr:
            fid = fr["$parent"]
        while fid is not None:
            f = st.frames.get(fid)
            if f is None:
                break
            if n in f:
                return self.chk_missing(st, f[n], n)
            fid = f.get("$parent")
        v = self.modattr(st, c.fn.mod, n)
        if v is not None:
            return self.chk_missing(st, v, n)
        if hasattr(_bi, n):
            return EXT("builtins." + n)
        if n in ("__file__", "__doc__"):
            return S(N_("sym", n), "str")
        self.event("unbound", st, name=n)
        self.do_raise(st, "NameError", True)

    def chk_missing(self, st, v, n):
        if v is MISSING or v == MISSING:
            self.event("unbound", st, name=n)
            self.do_raise(st, "NameError", True)
        if isinstance(v, U) and any(x == MISSING for _, x in v.alts):
            al = tuple((c, x) for c, x in v.alts if x != MISSING)
            if len(al) == 1:
                return al[0][1]
            return U(al)
        return v

    def ev_Tuple(self, e, st):
        return self._seq(e, st, False)

    def ev_List(self, e, st):
        v = self._seq(e, st, True)
        return self.lst(st, v)

    def ev_Set(self, e, st):
        v = self._seq(e, st, True)
        return self.m.make_set(st, v)

    def _seq(self, e, st, lst):
        out = None
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st)
                kind, its = self.iterate(st, v)
                if kind == "known":
                    items.extend(its)
                else:
                    a = TUP(tuple(items))
                    a = a if out is None else self.m.concat(st, out, a)
                    out = self.m.concat(st, a, its)
                    items = []
            else:
                items.append(self.ev(x, st))
        t = TUP(tuple(items))
        return t if out is None else self.m.concat(st, out, t)

    def ev_Dict(self, e, st):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st)
                if isinstance(o, DCT):
                    d.update(st.heap[o.oid].k)
                continue
            kv = self.ev(k, st)
            d[self.m.dkey(st, kv)] = self.ev(v, st)
        return self.dct(st, d)

    def ev_IfExp(self, e, st):
        c = self.cond(e.test, st)
        return self.fork(st, c, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

    def ev_BoolOp(self, e, st):
        return self._boolval(isinstance(e.op, ast.And), e.values, st)

    def _boolval(self, isand, vals, st):
        v = self.ev(vals[0], st)
        if len(vals) == 1:
            return v
        c = self.m.truth(st, v)
        if isand:
            return self.fork(st, c, lambda s: self._boolval(isand, vals[1:], s), lambda s: self.falsy(s, v))
        return self.fork(st, c, lambda s: self.truthy(s, v), lambda s: self._boolval(isand, vals[1:], s))

    def falsy(self, st, v):
        if isinstance(v, B):
            return FALSE
        return self.one(st, v)

    def truthy(self, st, v):
        if isinstance(v, B):
            return TRUE
        return self.one(st, v)

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return boolv(not_(self.cond(e.operand, st)))
        v = self.ev(e.operand, st)
        return self.lift(st, v, lambda s, x: self.m.unary(s, e.op, x))

    def ev_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.m.binop(st, e.op, a, b)

    def ev_Compare(self, e, st):
        left = self.ev(e.left, st)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st)
            v = self.m.compare(st, op, left, right)
            if res is None:
                res = v
            else:
                if isinstance(res, T) or isinstance(v, T):
                    res = v
                else:
                    res = boolv(and_(self.m.truth(st, res), self.m.truth(st, v)))
            left = right
        return res

    def ev_Attribute(self, e, st):
        o = self.ev(e.value, st)
        return self.lift(st, o, lambda s, x: self.getattr(s, x, e.attr))

    def index(self, e, st):
        if isinstance(e, ast.Slice):
            return SLC(*[self.ev(x, st) if x is not None else NONE for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple):
            return TUP(tuple(self.index(x, st) for x in e.elts))
        return self.ev(e, st)

    def ev_Slice(self, e, st):
        return self.index(e, st)

    def ev_Subscript(self, e, st):
        o = self.ev(e.value, st)
        i = self.index(e.slice, st)
        return self.lift(st, o, lambda s, x: self.lift(s, i, lambda s2, y: self.m.getitem(s2, x, y)))

    def ev_Lambda(self, e, st):
        return self.make_fn(e, st, "<lambda>")

    def ev_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v

    def ev_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        y = st.frames[self.ctx.fid].get("$yield")
        self.m.list_append(st, y, v)
        return NONE

    def ev_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        y = st.frames[self.ctx.fid].get("$yield")
        self.m.list_extend(st, y, v)
        return NONE

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def ev_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen")

    def ev_SetComp(self, e, st):
        r = self._comp(e, st, "list")
        return self.m.make_set(st, st.heap[r.oid].c)

    def ev_DictComp(self, e, st):
        pair = ast.copy_location(ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), e)
        g = ast.copy_location(ast.ListComp(elt=pair, generators=e.generators), e)
        r = self._comp(g, st, "list")
        kind, items = self.iterate(st, r)
        d = {}
        if kind == "known":
            for it in items:
                d[self.m.dkey(st, it.items[0])] = it.items[1]
            return self.dct(st, d)
        return self.opaque(st, "dict comprehension of unknown length")

    def _comp(self, e, st, kind):
        # own scope whose parent is the current frame
        c = self.ctx
        fid = self.newid()
        it0 = self.ev(e.generators[0].iter, st)
        it0 = self.one(st, it0)
        if isinstance(it0, U):
            return self.lift(st, it0, lambda s, x: self._comp2(e, s, kind, x))
        return self._comp2(e, st, kind, it0)

    def _comp2(self, e, st, kind, it0):
        c = self.ctx
        fid = self.newid()
        isclass = isinstance(c.fn.node, ast.ClassDef)
        parent = c.fid if not (isinstance(c.fid, tuple)) and not isclass else None
        st.frames[fid] = {"$parent": parent} if parent is not None else {}
        fn = FN(c.fn.node, parent, c.fn.mod, (), {}, c.fn.qual)
        ctx = Ctx(fn, fid, 0)
        ctx.line = c.line
        ctx.tries = c.tries
        self.stack.append(ctx)
        try:
            k, items = self.iterate(st, it0)
            if k == "sym":
                r = self._comp_sym(e, st, items)
                if kind == "list" and isinstance(r, SQ):
                    r = self.lst(st, r)
                return r
            out = self.lst(st, ())

            def rec(gi, s):
                if gi == len(e.generators):
                    self.m.list_append(s, out, self.ev(e.elt, s), quiet=True)
                    return
                g = e.generators[gi]
                if gi == 0:
                    its = items
                    kk = "known"
                else:
                    v = self.one(s, self.ev(g.iter, s))
                    kk, its = self.iterate(s, v)
                if kk != "known":
                    v = self.opaque(s, "nested comprehension of unknown length")
                    self.m.list_append(s, out, v, quiet=True)
                    return

                def body(x, v):
                    self.assign(g.target, v, x)
                    self._comp_ifs(g.ifs, x, lambda y: rec(gi + 1, y))
                self.run_known(s, its, body)
            rec(0, st)
            if kind == "gen":
                r = st.heap[out.oid].c
                return IT(r.items) if isinstance(r, TUP) else r
            return out
        finally:
            self.stack.pop()
            if not any(isinstance(n, (ast.Lambda,)) for n in ast.walk(e.elt if hasattr(e, "elt") else e)):
                st.frames.pop(fid, None)

    def _comp_ifs(self, ifs, st, f):
        if not ifs:
            f(st)
            return
        c = self.cond(ifs[0], st)
        self.fork(st, c, lambda s: self._comp_ifs(ifs[1:], s, f), lambda s: None)

    def _comp_sym(self, e, st, sq):
        g = e.generators[0]
        if len(e.generators) > 1:
            return self.opaque(st, "comprehension over symbolic sequences")
        if g.ifs:
            # filtered: unknown sublist; keep element description
            var = sq.var
            s2 = st
            self.assign(g.target, sq.elem, s2)
            s2.assume(ge0(P(var)))
            s2.assume(gt0(sub(sq.len, P(var))))
            cnds = [self.cond(i, s2) for i in g.ifs]
            v = self.ev(e.elt, s2)
            ln = P(N_("len", N_("filter", sq.len, var, and_(*cnds))))
            return SQ(ln, var, self.m.mark_filtered(v, var, cnds), (), "list")
        var = sq.var
        mark = len(st.pc)
        s2 = st.clone()
        s2.assume(ge0(P(var)))
        s2.assume(gt0(sub(sq.len, P(var))))
        self.assign(g.target, sq.elem, s2)
        el = self.ev(e.elt, s2)
        over = []
        for i, v in sq.over:
            self.assign(g.target, v, s2)
            over.append((i, self.ev(e.elt, s2)))
        for oid, r in s2.heap.items():
            if oid not in st.heap:
                st.heap[oid] = r
            elif st.heap[oid] is not r:
                st.heap[oid] = r
        return SQ(sq.len, var, el, tuple(over), "list")

    # ------------------------------------------------------------ attributes
    def class_mro(self, st, cls):
        out = []
        ext = []

        def go(c):
            if isinstance(c, CLS):
                if c in out:
                    out.remove(c)
                out.append(c)
                for b in st.heap[c.oid].bases:
                    go(b)
            elif isinstance(c, EXT):
                ext.append(c.path)
        go(cls)
        return out, ext

    def class_lookup(self, st, cls, name, after=None):
        mro, ext = self.class_mro(st, cls)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            a = st.heap[c.oid].attrs
            if name in a:
                return a[name]
        return None

    def is_module(self, st, cls):
        return any(p.startswith("torch.nn") for p in self.class_mro(st, cls)[1])

    def getattr(self, st, o, name):
        if isinstance(o, U):
            return self.lift(st, o, lambda s, x: self.getattr(s, x, name))
        if isinstance(o, INST):
            r = st.heap[o.oid]
            if name in r.attrs:
                return self.chk_missing(st, r.attrs[name], name)
            if name == "__class__":
                return r.cls
            if name == "__dict__":
                return self.dct(st, {K(k): v for k, v in r.attrs.items()})
            v = self.class_lookup(st, r.cls, name)
            if v is not None:
                return self.bind(st, v, o, r.cls)
            if self.class_lookup(st, r.cls, "__getattr__") is not None:
                return self.call(st, BM(o, self.class_lookup(st, r.cls, "__getattr__")), [K(name)], {})
            _, ext = self.class_mro(st, r.cls)
            if ext:
                return XM(o, name)
            self.event("no-attr", st, obj=r.cls and st.heap[r.cls.oid].name, attr=name)
            self.do_raise(st, "AttributeError", True)
        if isinstance(o, CLS):
            v = self.class_lookup(st, o, name)
            if v is not None:
                if isinstance(v, FN) and "classmethod" in v.deco:
                    return BM(o, v)
                return v
            if name == "__name__":
                return K(st.heap[o.oid].name)
            return XM(o, name)
        if isinstance(o, MOD):
            v = self.modattr(st, o.name, name)
            if v is None:
                self.event("missing-import", st, name=o.name + "." + name)
                return S(N_("unresolved", o.name + "." + name))
            return v
        if isinstance(o, EXT):
            return self.m.ext_attr(st, o, name)
        if isinstance(o, SUPER):
            icls = st.heap[o.self.oid].cls if isinstance(o.self, INST) else o.self
            v = self.class_lookup(st, icls, name, after=o.cls)
            if v is not None:
                return self.bind(st, v, o.self, icls)
            return XM(o, name)
        if o == NONE:
            if name in ("__class__", "__doc__"):
                return S(N_("sym", "NoneType"))
            self.event("none-op", st, op="." + name)
            self.do_raise(st, "AttributeError", True)
        return self.m.value_attr(st, o, name)

    def bind(self, st, v, self_, cls):
        if isinstance(v, FN):
            if "staticmethod" in v.deco:
                return v
            if "classmethod" in v.deco:
                return BM(cls, v)
            if "property" in v.deco or "functools.cached_property" in v.deco:
                return self.call_fn(st, v, [self_], {})
            return BM(self_, v)
        return v

    def mark_written(self, st, loc):
        self.written.setdefault(loc, self.loc())

    def setattr(self, st, o, name, v):
        if isinstance(o, U):
            return self.lift(st, o, lambda s, x: self.setattr(s, x, name, v) or NONE)
        if isinstance(o, (INST, CLS)):
            r = st.heap[o.oid]
            cls = r.cls if isinstance(o, INST) else o
            sv = self.class_lookup(st, cls, "__setattr__")
            at = dict(r.attrs)
            at[name] = v
            st.heap[o.oid] = r.set(attrs=at)
            if r.owner != "call" and self.phase == "call":
                self.mark_written(st, ("attr", o.oid, name))
            self.event("setattr", st, owner=r.owner, oid=o.oid, attr=name,
                       cls=st.heap[cls.oid].name)
            return NONE
        if isinstance(o, MOD):
            st.frames[("mod", o.name)][name] = v
            self.mark_written(st, ("var", ("mod", o.name), name))
            return NONE
        if o == NONE:
            self.event("none-op", st, op="." + name + "=")
            self.do_raise(st, "AttributeError", True)
        self.m.set_value_attr(st, o, name, v)
        return NONE

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self.ev_super(e, st)
        f = self.ev(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.one(st, self.ev(a.value, st))
                if isinstance(v, U):
                    v = self.alts(st, v)[0][1]
                kind, items = self.iterate(st, v)
                if kind == "known":
                    args.extend(items)
                else:
                    args.append(("*", items))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if isinstance(v, DCT):
                    for kk, vv in st.heap[v.oid].k.items():
                        if isinstance(kk, K):
                            kwargs[kk.v] = vv
                else:
                    self.note_undecided(st, "**kwargs")
            else:
                kwargs[k.arg] = v
        self.ctx.line = e.lineno
        return self.lift(st, f, lambda s, g: self.call(s, g, list(args), dict(kwargs)))

    def ev_super(self, e, st):
        c = self.ctx
        if e.args:
            cls = self.ev(e.args[0], st)
            slf = self.ev(e.args[1], st)
            return SUPER(cls, slf)
        i = len(self.stack) - 1
        fr = st.frames[c.fid]
        fn = c.fn
        cls = fn.cls
        if cls is None:
            for cc in reversed(self.stack):
                if cc.fn is not None and cc.fn.cls is not None:
                    cls, fr, fn = cc.fn.cls, st.frames[cc.fid], cc.fn
                    break
        a0 = fn.node.args.args[0].arg
        return SUPER(cls, fr[a0])

    def call(self, st, f, args, kwargs):
        if isinstance(f, U):
            return self.lift(st, f, lambda s, g: self.call(s, g, args, kwargs))
        if isinstance(f, FN):
            return self.call_fn(st, f, args, kwargs)
        if isinstance(f, BM):
            if isinstance(f.fn, FN):
                return self.call_fn(st, f.fn, [f.self] + args, kwargs)
            return self.call(st, f.fn, [f.self] + args, kwargs)
        if isinstance(f, CLS):
            return self.instantiate(st, f, args, kwargs)
        if isinstance(f, INST):
            r = st.heap[f.oid]
            v = self.class_lookup(st, r.cls, "__call__")
            if v is not None:
                return self.call_fn(st, v, [f] + args, kwargs)
            if self.is_module(st, r.cls):
                v = self.class_lookup(st, r.cls, "forward")
                if v is not None:
                    return self.call_fn(st, v, [f] + args, kwargs)
            self.do_raise(st, "TypeError", True)
        if isinstance(f, EXT):
            return self.m.call_ext(st, f.path, args, kwargs)
        if isinstance(f, XM):
            return self.m.call_method(st, f.self, f.name, args, kwargs)
        if f == NONE:
            self.event("none-op", st, op="call")
            self.do_raise(st, "TypeError", True)
        return self.m.call_value(st, f, args, kwargs)

    def instantiate(self, st, cls, args, kwargs):
        r = st.heap[cls.oid]
        key = (r.mod, r.name)
        h = self.intrinsics.get(key)
        if h is not None:
            return h(st, cls, args, kwargs)
        oid = self.alloc(st, "inst", cls=cls, attrs={})
        o = INST(oid)
        init = self.class_lookup(st, cls, "__init__")
        if init is not None:
            self.call_fn(st, init, [o] + args, kwargs)
        else:
            # dataclass / namedtuple-like: unsupported beyond kwargs
            _, ext = self.class_mro(st, cls)
            if (args or kwargs) and not any(p.startswith("torch.nn") for p in ext):
                for k, v in kwargs.items():
                    at = dict(st.heap[oid].attrs)
                    at[k] = v
                    st.heap[oid] = st.heap[oid].set(attrs=at)
                if args:
                    self.note_undecided(st, "constructor without __init__")
        return o

    def bind_args(self, st, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        symstar = None
        for i, v in enumerate(args):
            if isinstance(v, tuple) and v[0] == "*":
                symstar = (i, v[1])
        if symstar:
            i, sq = symstar
            if a.vararg and i == len(names) and len(args) == i + 1:
                for n, v in zip(names, args[:i]):
                    out[n] = v
                out[a.vararg.arg] = sq
                args = []
                names_left = []
            else:
                n_need = len(names) - i
                args = args[:i] + [self.m.sq_get(st, sq, const(k)) for k in range(max(n_need, 0))]
                self.note_undecided(st, "star-args of unknown length")
        for i, n in enumerate(names):
            if n in out:
                continue
            if i < len(args):
                out[n] = args[i]
        extra = args[len(names):]
        if a.vararg and a.vararg.arg not in out:
            out[a.vararg.arg] = TUP(tuple(extra))
        elif extra:
            self.event("bad-call", st, fn=fn.qual)
            self.do_raise(st, "TypeError", True)
        kwextra = {}
        kwn = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if (k in names and k not in out) or k in kwn:
                out[k] = v
            elif a.kwarg:
                kwextra[K(k)] = v
            else:
                self.event("bad-call", st, fn=fn.qual)
                self.do_raise(st, "TypeError", True)
        nd = len(fn.defaults)
        for n, d in zip(names[len(names) - nd:], fn.defaults):
            out.setdefault(n, d)
        for n in kwn:
            if n not in out and n in fn.kwdefaults:
                out[n] = fn.kwdefaults[n]
        if a.kwarg:
            out[a.kwarg.arg] = self.dct(st, kwextra)
        for n in names + kwn:
            if n not in out:
                self.event("bad-call", st, fn=fn.qual)
                self.do_raise(st, "TypeError", True)
        return out

    def call_fn(self, st, fn, args, kwargs):
        h = self.intrinsics.get((fn.mod, fn.qual))
        if h is not None:
            return h(st, fn, args, kwargs)
        if len(self.stack) > MAXDEPTH or sum(1 for c in self.stack if c.fn is not None and c.fn.node is fn.node) > 8:
            return self.opaque(st, "recursion " + fn.qual)
        self.functions.add((self.src.files[fn.mod][0], fn.qual))
        vars_ = self.bind_args(st, fn, args, kwargs)
        fid = self.newid()
        if fn.fid is not None:
            vars_["$parent"] = fn.fid
        st.frames[fid] = vars_
        ctx = Ctx(fn, fid, len(st.pc))
        ctx.line = fn.node.lineno
        nograd = st.nograd
        if "no_grad" in fn.deco or any(isinstance(d, str) and d.endswith(("no_grad", "inference_mode")) for d in fn.deco):
            st.nograd = True
        self.stack.append(ctx)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st)
                st.nograd = nograd
                self.drop_frame(st, fn, fid)
                return v
            gen = self.is_gen(fn.node)
            if gen:
                st.frames[fid]["$yield"] = self.lst(st, ())
            basepc = st.pc
            try:
                self.exec_block(fn.node.body, st)
                ctx.returns.append((st.clone(), NONE))
            except Dead:
                pass
            rets = ctx.returns
            if not rets:
                st.dead = True
                raise Dead()
            res, val = rets[-1]
            for s, v in reversed(rets[:-1]):
                k = 0
                while k < len(s.pc) and k < len(res.pc) and s.pc[k] is res.pc[k]:
                    k += 1
                lits = s.pc[k:]
                if lits:
                    c = and_(*lits)
                else:
                    lits = res.pc[k:]
                    c = not_(and_(*lits)) if lits else N_("bsym", "ret" + self.site())
                j = self.join(c, s, res)
                val = self.join_val(j, c, v, val)
                res = j
            st.become(res)
            st.nograd = nograd
            if gen:
                y = st.frames[fid]["$yield"]
                val = st.heap[y.oid].c
                if isinstance(val, TUP):
                    val = IT(val.items)
            self.drop_frame(st, fn, fid)
            return val
        finally:
            self.stack.pop()

    _gen = {}

    def is_gen(self, node):
        k = id(node)
        if k not in self._gen:
            r = False
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    continue
                stack.extend(ast.iter_child_nodes(n))
            self._gen[k] = (r, node)
        return self._gen[k][0]

    _nested = {}

    def drop_frame(self, st, fn, fid):
        k = id(fn.node)
        if k not in self._nested:
            self._nested[k] = (any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn.node
                                   for n in ast.walk(fn.node)), fn.node)
        if not self._nested[k][0]:
            st.frames.pop(fid, None)
