"""One function of the program on symbolic arguments, against a definition over the integers."""
import itertools
import time

import z3

from vkit import build
from vkit import terms as tm
from vkit.check import TIER, Funcs, eq, ge, gt, le, leaves, lt, ne
from vkit.conc import NoValue
from vkit.hooks import HOOKS
from vkit.sx import E, Engine, Opq, P, S, St, UNIT, Unsupported, View
from vkit.terms import T, add, b_and, b_iff, b_implies, b_not, b_or, bx, cmp, ex, ite, sub

U8, U16, U32, U64, U128, U256, U512 = [(1 << n) - 1 for n in (8, 16, 32, 64, 128, 256, 512)]

EDGES = {
    8: [0, 1, 2, 63, 64, 127, 128, 254, 255],
    16: [0, 1, 2, 3, 7, 20, 100, 4999, 9999, 10000, 65534, 65535],
    32: [0, 1, 2, 31, 32, 63, 64, 65, 127, 128, 255, 256, (1 << 31) - 1, 1 << 31, U32],
    64: [0, 1, 2, 3, 7, 10, 99, 1000, 10 ** 6 + 1, 10 ** 9 - 1, 10 ** 9, 123456789012345, (1 << 63) + 12345, U64 - 1, U64],
    128: [0, 1, 2, 3, 1000003, 4295048016, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 3 << 64, (1 << 96) + 987654321, 79226673521066979257578248091,
          (1 << 127) + 3, U128 - 1, U128],
    256: [0, 1, 2, 3, 10 ** 30 + 7, (1 << 128) - 1, 1 << 128, (1 << 200) + 5, (1 << 255) + 9, U256 - 1, U256],
    512: [0, 1, 2, U256, 1 << 256, (1 << 511) + 9, U512 - 1, U512],
}


class Fx:
    """a run of one function"""

    def __init__(self, c, path, prog=None, hooks=(), feas_ms=1000, max_paths=4000):
        self.c = c
        self.prog = prog or build.program()
        self.fn = self.prog.find(path) if isinstance(path, str) else path
        self.e = Engine(self.prog, list(hooks) + HOOKS, feas_ms=feas_ms, max_paths=max_paths)
        self.N = self.e.N
        self.st = St()
        self.e.st = self.st
        self.inputs = {}            # name -> (term, bits)
        self.nref = 0

    # ------------------------------------------------------------- arguments
    def u(self, name, bits, lo=0, hi=None):
        t = self.N.named(name, lo, (1 << bits) - 1 if hi is None else hi)
        self.inputs[name] = (t, bits)
        return t

    def i(self, name, bits):
        t = self.N.named(name, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        self.inputs[name] = (t, -bits)
        return t

    def b(self, name):
        t = z3.Bool(name)
        self.inputs[name] = (t, 1)
        return t

    def arg_ty(self, n):
        return self.fn.locals[n + 1]

    def pointee(self, n):
        return self.e.tys[self.arg_ty(n)]["to"]

    def struct(self, tid, name, **over):
        """a value of the struct type; fields not given are arbitrary"""
        e = self.e
        if isinstance(tid, str):
            tid = self.prog.adt(tid)
        fs = e.tys[tid]["vars"][0]["f"]
        er = e.erase(tid)
        unknown = set(over) - {f[0] for f in fs}
        if unknown:
            raise Unsupported("no field %s in %s" % (unknown, e.tys[tid].get("str")))
        vals = []
        for f in fs:
            if f[0] in over:
                vals.append(over[f[0]])
            else:
                v = e.fresh_of(f[1], "%s.%s" % (name, f[0]))
                vals.append(v)
        if er is not None:
            return vals[er]
        return S(tuple(vals))

    def note_inputs(self, v, ty, name=""):
        for p, x in leaves(self.e, v, ty):
            if isinstance(x, T) and z3.is_const(x.e) and str(x.e) not in self.inputs:
                hi = x.hi or 0
                self.inputs[str(x.e)] = (x, hi.bit_length())

    def ref(self, v, ty):
        self.nref += 1
        b = ("fxarg", self.nref)
        self.st.mem[b] = v
        self.st.mty[b] = ty
        return P(b, (), None, ty)

    def field_ty(self, tid, name):
        return next(f[1] for f in self.e.tys[tid]["vars"][0]["f"] if f[0] == name)

    def enum(self, idx):
        return E(idx, {})

    # ------------------------------------------------------------- runs
    def run(self, args, pre=(), deadline=60):
        for p in pre:
            if p is not True:
                self.st.pc.append(bx(p))
        out = []
        try:
            for x in self.e.run(self.fn, list(args), self.st, min(self.c.deadline, time.time() + deadline)):
                out.append(FxEnd(self, x))
        finally:
            self.c.absorb(self.e)
        self.c.stats["ok_paths"] += sum(1 for x in out if x.kind == "ok")
        return out


class FxEnd:
    def __init__(self, fx, end):
        self.fx = fx
        self.e = fx.e
        self.end = end
        self.st = end.st
        fn = fx.fn
        t = fx.e.tys[fn.locals[0]]
        self.ty = fn.locals[0]
        v = end.value
        self.okc = True
        if end.kind == "panic":
            self.kind, self.value, self.okc = "panic", None, False
            return
        if end.kind != "ret":
            raise Unsupported(str(end.why))
        nm = t.get("name", "")
        if t["k"] == "adt" and nm.endswith("::Result"):
            oki, self.ty = 0, t["vars"][0]["f"][0][1]
        elif t["k"] == "adt" and nm.endswith("::Option"):
            oki, self.ty = 1, t["vars"][1]["f"][0][1]
        else:
            oki = None
        if oki is None:
            self.kind, self.value = "ok", v
        else:
            self.okc = eq(v.v, oki)
            if self.okc is False:
                self.kind, self.value = "err", None
            else:
                self.kind = "ok"
                self.value = v.pl[oki][0]

    @property
    def view(self):
        return View(self.e, self.value, self.ty)

    def after(self, p):
        """the referenced value at the end"""
        self.e.st = self.st
        return View(self.e, self.st.mem[p.base], self.st.mty[p.base])


def show(e, c, v, ty):
    """canonical text of a returned value"""
    out = []
    for _, y in leaves(e, v, ty):
        if tm.is_boolv(y):
            out.append("true" if c.ev(y) else "false")
        else:
            out.append(str(c.ev(y)))
    return ",".join(out)


def replay_fn(name, fx, order, want_err="err"):
    """replay of a function case: the snippet gets the inputs in the given order"""
    def rp(c, end):
        args = []
        for n in order:
            if isinstance(n, int):
                args.append(str(n))
                continue
            t = fx.inputs[n][0] if n in fx.inputs else n
            v = c.ev(t)
            args.append(("1" if v else "0") if isinstance(v, bool) else str(v))
        if end.kind == "panic":
            ret = "panic"
        elif end.kind == "err" or c.ev(end.okc) is not True:
            ret = want_err
        else:
            fx.e.st = end.st
            ret = "ok " + show(fx.e, c, end.value, end.ty)
        return ["func %s %s" % (name, " ".join(args))], {"ret": ret.strip()}
    return rp


def candidates(fx, extra=None, limit=3000):
    """concrete arguments tried when the solver finds no proof"""
    import random
    rnd = random.Random(7)
    names = list(fx.inputs)
    lists = []
    for n in names:
        t, bits = fx.inputs[n]
        if bits == 1:
            l = [False, True]
        elif bits < 0:
            m = 1 << (-bits - 1)
            l = [-m, -m + 1, -3, -1, 0, 1, 2, 77, m - 1]
        else:
            k = next((k for k in sorted(EDGES) if k >= bits), 512)
            l = [v for v in EDGES[k] if (t.lo or 0) <= v <= (t.hi if t.hi is not None else v)]
            for v in (t.lo, t.hi):
                if v is not None and v not in l:
                    l.append(v)
        if extra and n in extra:
            l = list(extra[n]) + [v for v in l if v not in extra[n]]
        lists.append(l)
    total = 1
    for l in lists:
        total *= len(l)
    if total <= limit:
        for vs in itertools.product(*lists):
            yield dict(zip(names, vs))
        return
    for _ in range(limit):
        d = {}
        for n, l in zip(names, lists):
            t, bits = fx.inputs[n]
            r = rnd.random()
            if r < 0.6 or bits in (1,) or bits < 0:
                d[n] = rnd.choice(l)
            else:
                hi = t.hi if t.hi is not None else (1 << bits) - 1
                lo = t.lo or 0
                if r < 0.85:
                    w = rnd.randrange(1, max(hi.bit_length(), 2))
                    v = rnd.getrandbits(w)
                else:
                    v = rnd.randrange(lo, hi + 1)
                d[n] = min(max(v, lo), hi)
        yield d


def spec(c, label, fx, ends, ok, refuse=None, name=None, order=(), extra=None, timeouts=(3, 10), hyp=(), witness=1, refine=None):
    """ok(end): goals when the function returns a value; refuse(end): the condition under which it may refuse"""
    done = {"ok": 0, "err": 0, "panic": 0}
    good = True
    for x in ends:
        rp = replay_fn(name, fx, order) if name else None
        if x.kind == "ok":
            goals = [("%s: %s" % (label, l), g) for l, g in ok(x)]
            if x.okc is not True:
                goals = [(l, b_implies(x.okc, g)) for l, g in goals]
                if refuse is not None:
                    goals.append(("%s: refuses only what it must" % label, b_implies(b_not(x.okc), refuse(x))))
        elif refuse is not None:
            goals = [("%s: refuses only what it must" % label, refuse(x))]
        else:
            goals = []
        rf = refine(x) if refine else None
        good &= prove_fn(c, fx, x, goals, rp, extra, timeouts, hyp, rf)
        done[x.kind] += 1
        if done[x.kind] <= witness and name and good and (rf is None or x.kind == "ok"):
            c.witness(x, fx.e, "%s %s" % (label, x.kind), replay=rp, extra=[h for h in hyp if h is not True], refine=rf, timeouts=(3, 3))
        if not good and any(o["verdict"] == "violated" for o in c.obls):
            break
    if ends and not any(x.kind == "ok" for x in ends):
        c.obls.append({"name": label + ": returns a value for some arguments", "verdict": "undecided"})
    return good


def prove_fn(c, fx, x, goals, rp, extra, timeouts=(3, 10), hyp=(), refine=None):
    """prove; without a proof or a usable counterexample of the solver, candidates are evaluated exactly"""
    n0 = len(c.obls)
    if c.prove(x, goals, fx.e, timeouts=timeouts, replay=rp, hyp=hyp, refine=refine):
        return True
    if any(o["verdict"] == "violated" for o in c.obls[n0:]):
        return False
    if refine is not None:
        return False
    bad = {o["name"] for o in c.obls[n0:] if o["verdict"] == "undecided"}
    conds = list(x.st.pc) + [bx(h) for h in hyp if h is not True]
    t1 = min(time.time() + 25, c.deadline - 2)
    from vkit.conc import Conc
    for l, g in goals:
        if l not in bad:
            continue
        for d in candidates(fx, extra):
            if time.time() > t1:
                break
            m = Fixed(fx, d)
            try:
                k = Conc(fx.e, m)
                if not all(k.ev(y) is True for y in conds) or k.ev(g) is True:
                    continue
            except (NoValue, ZeroDivisionError):
                continue
            ok, why, cs = c.case(x, fx.e, m, conds + [bx(b_not(g))], "cex", l, rp)
            if ok:
                o = next(o for o in c.obls[n0:] if o["name"] == l)
                o["verdict"], o["case"] = "violated", cs["id"] if cs else None
                o["by"] = "solver without proof; exact evaluation of the encoding at a concrete argument"
                return False
    return False


class Fixed:
    """a model that only fixes the inputs"""

    def __new__(cls, fx, d):
        s = z3.Solver()
        for n, v in d.items():
            t = fx.inputs[n][0]
            s.add((t == v) if isinstance(v, bool) else ex(t) == v)
        s.check()
        return s.model()
