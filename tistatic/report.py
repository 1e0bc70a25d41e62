"""Obligations, findings, evidence and the command line of the checks."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TI_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known-findings.txt")

OK, BAD, UND = "ok", "violation", "undecided"


class Ob:
    """one obligation: status, rule, construct (function / entry), text"""
    __slots__ = ("status", "rule", "construct", "text", "where")

    def __init__(self, status, rule, construct, text="", where=""):
        self.status, self.rule, self.construct, self.text, self.where = status, rule, construct, text, where

    @property
    def key(self):
        return f"{self.rule}|{self.construct}"

    def line(self):
        return f"[{self.rule}] {self.construct}: {self.text}" + (f" ({self.where})" if self.where else "")


def ok(rule, construct, text=""):
    return Ob(OK, rule, construct, text)


def bad(rule, construct, text="", where=""):
    return Ob(BAD, rule, construct, text, where)


def und(rule, construct, text="", where=""):
    return Ob(UND, rule, construct, text, where)


class Timeout(BaseException):
    pass


_JOB = None


def _worker(i):
    fn, items, limit, deadline = _JOB
    from .harness import Anchor, Undecided
    name = getattr(items[i], "id", str(items[i]))

    def h(*a):
        raise Timeout()
    t0 = time.time()
    left = int(deadline - t0)
    if left < 3:
        return ("ok", [und("analysis", name, "time budget of the check used up")], 0, name)
    limit = min(limit, left)
    signal.signal(signal.SIGALRM, h)
    signal.alarm(limit)
    try:
        r = fn(items[i])
    except Anchor as e:
        return ("anchor", str(e), time.time() - t0, name)
    except Undecided as e:
        r = [und("analysis", name, "cannot interpret: " + str(e))]
    except Timeout:
        r = [und("analysis", name, f"analysis time limit of {limit}s")]
    except RecursionError:
        r = [und("analysis", name, "recursion limit of the analysis")]
    except MemoryError:
        r = [und("analysis", name, "memory limit of the analysis")]
    except Exception as e:
        tb = traceback.format_exc().strip().splitlines()
        r = [und("analysis", name, f"analysis failed: {type(e).__name__}: {e} @ {tb[-3].strip() if len(tb) > 2 else ''}")]
        if os.environ.get("TI_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    return ("ok", r, time.time() - t0, name)


class Ctx:
    def __init__(self, prop, tier, source):
        self.prop, self.tier, self.src = prop, tier, source
        self.items = 0
        self.deadline = time.time() + 600
        self.slow = []
        self.functions = set()
        self.notes = {}

    def map(self, fn, items, limit=100):
        """run fn over items in forked workers; concatenated obligations"""
        global _JOB
        items = list(items)
        if not items:
            return []
        _JOB = (fn, items, limit if self.tier == "quick" else limit * 4, self.deadline)
        n = min(len(items), int(os.environ.get("TI_JOBS", os.cpu_count() or 4)))
        out = []
        if n <= 1 or os.environ.get("TI_SERIAL"):
            res = [_worker(i) for i in range(len(items))]
        else:
            with mp.get_context("fork").Pool(n) as pool:
                res = pool.map(_worker, range(len(items)), chunksize=1)
        for kind, r, dt, name in res:
            if kind == "anchor":
                raise AnchorGone(r)
            out += r
            if dt > 5:
                self.slow.append((name, round(dt, 1)))
        self.items += len(items)
        return out


class AnchorGone(Exception):
    pass


def known_findings(prop):
    out = {}
    try:
        with open(KNOWN) as f:
            for ln in f:
                ln = ln.strip()
                if ln.startswith("known:"):
                    d = dict(p.split("=", 1) for p in ln[6:].split(" :: ")[0].split() if "=" in p)
                    if d.get("property") == prop:
                        out[d["key"].replace("%20", " ")] = ln.split(" :: ", 1)[1] if " :: " in ln else ""
    except FileNotFoundError:
        pass
    return out


def finish(prop, spec, tier, obs, ctx, t0):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(prop)
    viol, kn = {}, {}
    for o in obs:
        if o.status == BAD:
            (kn if o.key in known else viol).setdefault(o.key, []).append(o)
    n_ok = sum(o.status == OK for o in obs)
    unds = [o for o in obs if o.status == UND]
    rules = {}
    for o in obs:
        rules.setdefault(o.rule, {OK: 0, BAD: 0, UND: 0})[o.status] += 1
    samples = []
    seen = set()
    for o in obs:
        if o.rule not in seen and o.status == OK:
            seen.add(o.rule)
            samples.append(o.line()[:400])
    cov = dict(
        explanation=spec["explain"],
        obligations=len(obs), discharged=n_ok, undecided=len(unds), failed=len(obs) - n_ok - len(unds),
        analysed_calls=ctx.items,
        analysed_functions=len(ctx.src.files) and sorted(ctx.functions) or [],
        modules=len(ctx.src.files),
        rules={k: dict(v) for k, v in sorted(rules.items())},
        samples=samples[:12],
        undecided_list=[o.line()[:300] for o in unds[:40]],
        checker_cmd=f"./check {prop} --tier {tier}",
    )
    cov.update(ctx.notes)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"], coverage=cov, assumptions=spec.get("assume", []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if viol:
        ev["coverage"]["violating"] = [v[0].line()[:600] for v in viol.values()][:50]
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    tmp = f"{evp}.{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, evp)
    print(f"{prop} {spec['title']}")
    print(f"  analysed {len(ctx.src.files)} modules, {ctx.items} abstract calls; {len(obs)} obligations: {n_ok} discharged, "
          f"{len(unds)} undecided, {len(obs) - n_ok - len(unds)} failed; {time.time() - t0:.1f}s")
    for r, c in sorted(rules.items()):
        print(f"  rule {r}: {c[OK]} ok, {c[UND]} undecided, {c[BAD]} failed")
    for o in unds[:25]:
        print("  UNDECIDED " + o.line()[:300])
    for k, v in kn.items():
        print(f"KNOWN-FINDING: property={prop} {known[k] or v[0].line()}")
    if viol:
        for k, v in viol.items():
            print("  FAILED " + v[0].line()[:1500] + (f"  [+{len(v) - 1} more]" if len(v) > 1 else ""))
        print(f"VIOLATION property={prop} replay={evp}")
        return 1
    floor = spec.get("floor", 1)
    if len(obs) < floor:
        print(f"ERROR: only {len(obs)} obligations, expected at least {floor}: the analysis has lost its anchors")
        return 3
    return 0


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        i = argv.index("--tier")
        tier = argv[i + 1]
        del argv[i:i + 2]
    from .passes import PROPS, load
    from .interp import Source
    rc = 0
    props = argv or sorted(PROPS)
    for prop in props:
        t0 = time.time()
        spec = PROPS[prop]
        fn = load(prop)
        try:
            src = Source(REPO)
        except SyntaxError as e:
            print(f"ERROR: cannot parse {e}")
            return 3
        ctx = Ctx(prop, tier, src)
        try:
            obs = fn(ctx)
        except AnchorGone as e:
            print(f"ERROR: public name {e} no longer exists; the check of {prop} cannot be anchored")
            return 3
        rc = max(rc, finish(prop, spec, tier, obs, ctx, t0))
    return rc


if __name__ == "__main__":
    sys.exit(main())
