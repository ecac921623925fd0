"""Concrete cases for paths with contracted functions: the real functions are executed on the concrete arguments."""
import time

import z3

from . import terms as tm
from .conc import Conc, NoValue
from .hooks import HOOKS
from .sx import BA, E, Engine, P, PB, S, St
from .terms import b_and, bx, ex


def concrete(c, v):
    """the value with every term evaluated"""
    if tm.is_scalar(v) or tm.is_boolv(v):
        return c.ev(v)
    if type(v) is S:
        return S(tuple(concrete(c, y) for y in v.f))
    if type(v) is E:
        return E(c.ev(v.v), {k: tuple(concrete(c, y) for y in pl) for k, pl in v.pl.items()})
    if type(v) is PB:
        return PB(c.ev(v.v), v.n)
    return v


def run_real(prog, fn, args):
    """leaves of the Ok value of the function on concrete arguments, or None; args: (value, type, by reference)"""
    from .check import leaves
    e = Engine(prog, HOOKS)
    st = St()
    e.st = st
    vals = []
    for n, (v, ty, ref) in enumerate(args):
        if ref:
            b = ("arg", n)
            st.mem[b] = v
            st.mty[b] = ty
            v = P(b, (), None, ty)
        vals.append(v)
    ends = [x for x in e.run(fn, vals, st, time.time() + 20)]
    if len(ends) != 1 or ends[0].kind != "ret":
        return None
    r = ends[0].value
    rt = fn.ret_ty if hasattr(fn, "ret_ty") else fn.locals[0]
    t = e.tys[rt]
    if t["k"] == "adt" and t["name"].endswith("::Result"):
        if r.v != 0:
            return None
        okty = t["vars"][0]["f"][0][1]
        r = r.pl[0][0]
    else:
        okty = rt
    return [y for _, y in leaves(e, r, okty)]


def refine(prog, e, conds, recs, prefer, limit=60, memo=None):
    """a model of the conditions in which every contracted function returns what the real one does; prefer: alternatives"""
    memo = {}
    for g in prefer:
        m = attempt(prog, e, conds, recs, g, limit, memo)
        if m is not None:
            return m
    return None


def attempt(prog, e, conds, recs, prefer, limit, memo):
    """one alternative. prefer: groups of optional conditions; recs: uses of contracts (arguments and results)"""
    N = e.N
    t1 = time.time() + limit
    base = [bx(c) for c in conds]
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*base)
    s.add(*N.closure(base, False))
    kept = []
    for g in prefer:
        if time.time() > t1:
            return None
        xs = [bx(y) for y in g]
        s.push()
        s.add(*xs)
        s.add(*N.closure(xs, False))
        if s.check() == z3.sat:
            kept.append(xs)
        else:
            s.pop()
    good = None
    for drop in range(3):
        w = World(N, base + [y for g in kept[:len(kept) - 2 * drop] for y in g])
        good = w.model(2000 if drop else 4000)
        if good is not None or time.time() > t1:
            break
    if good is None:
        return None
    for r in recs:
        tries = 0
        while True:
            if time.time() > t1:
                return None
            c = Conc(e, good)
            try:
                if c.ev(r.cond) is not True:
                    break
                av = [(concrete(c, v), ty, ref) for v, ty, ref in r.args]
                terms = []
                for v, ty, ref in r.args:
                    scalars(e, v, terms)
                vals = [c.ev(y) for y in terms]
            except NoValue:
                return None
            k = (r.fn.name, tuple(vals))
            if k not in memo:
                try:
                    memo[k] = run_real(prog, r.fn, av)
                except Exception:
                    memo[k] = None
            outs = memo[k]
            pins = [same(y, v) for y, v in zip(terms, vals) if not isinstance(y, (int, bool))]
            if outs is not None:
                w2 = w.add(pins + [same(y, v) for y, v in zip(r.outs, outs)])
                m = w2.model(3000)
                if m is not None:
                    good, w = m, w2
                    break
            tries += 1
            if tries > 1:
                return None
            w = w.add([z3.Not(z3.And(*pins)) if pins else z3.BoolVal(False)])
            good = w.model(3000)
            if good is None:
                return None
    return good


class World:
    """conditions with the variables they fix replaced by their values"""

    def __init__(self, N, xs, parent=None):
        self.N = N
        self.fixed = dict(parent.fixed) if parent else {}
        self.bad = parent.bad if parent else False
        self.cur = list(parent.cur) if parent else []
        xs = list(xs)
        xs += list(N.closure(xs, True))
        seen = {c.get_id() for c in self.cur}
        if self.fixed:
            xs = self.subst(xs, self.fixed)
        self.cur += [c for c in xs if c.get_id() not in seen]
        self.reduce()

    def reduce(self):
        for _ in range(12):
            new = defs(self.cur)
            if not new:
                break
            self.fixed.update(new)
            self.cur = self.subst(self.cur, new)
            if self.bad:
                return

    def subst(self, xs, new):
        d = z3.simplify(z3.substitute(z3.And(*xs), *new.values())) if xs else z3.BoolVal(True)
        if z3.is_false(d):
            self.bad = True
        return d.children() if z3.is_and(d) else [] if z3.is_true(d) else [d]

    def add(self, xs):
        return World(self.N, xs, self)

    def model(self, ms):
        if self.bad:
            return None
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*self.cur)
        if s.check() != z3.sat:
            return None
        m = s.model()
        f = z3.Solver()
        f.add(*[v == k for v, k in self.fixed.values()])
        f.add(*[d() == m[d] for d in m.decls() if d.arity() == 0])
        return f.model() if f.check() == z3.sat else None


def defs(cs):
    """variable id -> (variable, value) for the variables the conditions fix"""
    out, lo, hi = {}, {}, {}
    st = list(cs)
    while st:
        c = st.pop()
        if z3.is_and(c):
            st += c.children()
        elif z3.is_not(c) and var(c.arg(0)):
            out[c.arg(0).get_id()] = (c.arg(0), z3.BoolVal(False))
        elif var(c):
            out[c.get_id()] = (c, z3.BoolVal(True))
        elif z3.is_eq(c) or z3.is_le(c) or z3.is_ge(c):
            a, b = c.arg(0), c.arg(1)
            up = z3.is_le(c)
            if var(b):
                a, b, up = b, a, not up
            if not var(a) or not (z3.is_int_value(b) or z3.is_true(b) or z3.is_false(b)):
                continue
            if z3.is_eq(c):
                out[a.get_id()] = (a, b)
                continue
            k, v = a.get_id(), b.as_long()
            if up:
                hi[k] = min(v, hi.get(k, v))
            else:
                lo[k] = max(v, lo.get(k, v))
            if lo.get(k) is not None and lo.get(k) == hi.get(k):
                out[k] = (a, z3.IntVal(lo[k]))
    return out


def var(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


def same(y, v):
    return bx(y) == z3.BoolVal(bool(v)) if tm.is_boolv(y) else ex(y) == int(v)


def scalars(e, v, out):
    if tm.is_scalar(v) or tm.is_boolv(v):
        out.append(v)
    elif type(v) is S:
        for y in v.f:
            scalars(e, y, out)
    elif type(v) is E:
        scalars(e, v.v, out)
        for k in sorted(v.pl):
            for y in v.pl[k]:
                scalars(e, y, out)
    elif type(v) is PB:
        scalars(e, v.v, out)
