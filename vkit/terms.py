"""Scalar terms: unbounded integers with static bounds, and booleans, over z3.

Machine integers are mathematical integers here; every place where a machine operation could leave its type's
range is decided explicitly (a fork with the in-range and the wrapped result), so nothing is lost.
Products and quotients of two symbolic values are named: the name's *facts* are linear, its *defs* carry the
nonlinear definition. Feasibility checks use facts only (an over-approximation); proofs may use both.
"""
import z3

INF = None


class T:
    """symbolic integer with bounds lo <= e <= hi (hi None: unbounded)"""
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __repr__(self):
        return "T(%s)" % (str(self.e)[:60])


def ex(x):
    if isinstance(x, bool):
        raise TypeError("bool where an integer was expected")
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, T):
        return x.e
    if z3.is_expr(x) and z3.is_int(x):
        return x
    raise TypeError("not a scalar: %r" % (x,))


def bx(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def rng(x):
    if isinstance(x, int):
        return x, x
    return x.lo, x.hi


def is_scalar(x):
    return isinstance(x, (int, T)) and not isinstance(x, bool)


def is_boolv(x):
    return isinstance(x, bool) or z3.is_bool(x)


def _add(a, b):
    return None if a is None or b is None else a + b


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    return T(ex(a) + ex(b), _add(al, bl), _add(ah, bh))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo = None if al is None or bh is None else al - bh
    hi = None if ah is None or bl is None else ah - bl
    return T(ex(a) - ex(b), lo, hi)


def neg(a):
    return sub(0, a)


def cmp(op, a, b):
    """op in Lt Le Gt Ge Eq Ne; python bool when the bounds decide it"""
    if op == "Gt":
        return cmp("Lt", b, a)
    if op == "Ge":
        return cmp("Le", b, a)
    (al, ah), (bl, bh) = rng(a), rng(b)
    if op == "Lt":
        if ah is not None and bl is not None and ah < bl:
            return True
        if al is not None and bh is not None and al >= bh:
            return False
        return ex(a) < ex(b)
    if op == "Le":
        if ah is not None and bl is not None and ah <= bl:
            return True
        if al is not None and bh is not None and al > bh:
            return False
        return ex(a) <= ex(b)
    if op in ("Eq", "Ne"):
        r = None
        if isinstance(a, int) and isinstance(b, int):
            r = a == b
        elif (ah is not None and bl is not None and ah < bl) or (al is not None and bh is not None and al > bh):
            r = False
        elif ex(a).eq(ex(b)):
            r = True
        if r is not None:
            return r if op == "Eq" else not r
        e = ex(a) == ex(b)
        return e if op == "Eq" else z3.Not(e)
    raise ValueError(op)


def b_not(a):
    if isinstance(a, bool):
        return not a
    return z3.Not(a)


def b_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return bx(a) == bx(b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    lo = None if al is None or bl is None else min(al, bl)
    hi = None if ah is None or bh is None else max(ah, bh)
    return T(z3.If(c, ex(a), ex(b)), lo, hi)


class Names:
    """Named nonlinear terms and their definitions, shared by all paths of one engine."""

    def __init__(self):
        self.n = 0
        self.facts = {}      # name -> [linear z3 facts]
        self.defs = {}       # name -> [nonlinear definitions]
        self.origin = {}     # name -> (op, operands)
        self.cse = {}
        self.keep = []
        self._simp = {}
        self._vars = {}
        self.rng = {}        # name -> (lo, hi)
        self.kind = {}       # name -> 'key' for addresses

    def fresh(self, base, lo=None, hi=None, facts=(), defs=()):
        self.n += 1
        nm = "%s#%d" % (base, self.n)
        v = z3.Int(nm)
        return self._reg(v, nm, lo, hi, facts, defs)

    def named(self, nm, lo=None, hi=None):
        v = z3.Int(nm)
        return self._reg(v, nm, lo, hi, (), ())

    def _reg(self, v, nm, lo, hi, facts, defs):
        f = []
        if lo is not None:
            f.append(v >= lo)
        if hi is not None:
            f.append(v <= hi)
        if callable(facts):
            facts = facts(v)
        if callable(defs):
            defs = defs(v)
        f.extend(facts)
        self.facts[nm] = f
        self.rng[nm] = (lo, hi)
        if defs:
            self.defs[nm] = list(defs)
        return T(v, lo, hi)

    def key(self, *xs):
        k = []
        for x in xs:
            if isinstance(x, (int, str)):
                k.append(x)
            else:
                e = ex(x)
                n = self._simp.get(e.get_id())
                if n is None:
                    n = z3.simplify(e)
                    self._simp[e.get_id()] = n
                    self.keep.append(e)
                    self.keep.append(n)
                k.append(("e", n.get_id()))
        return tuple(k)

    def mul(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a * b
        if isinstance(b, int):
            a, b = b, a
        (al, ah), (bl, bh) = rng(a), rng(b)
        if isinstance(a, int):
            if a == 0:
                return 0
            if a == 1:
                return b
            c = [None if x is None else a * x for x in (bl, bh)]
            if a < 0:
                c.reverse()
            return T(ex(a) * ex(b), c[0], c[1])
        k1 = self.key(a, b)
        k = ("mul",) + tuple(sorted(k1))
        if k in self.cse:
            return self.cse[k]
        lo = hi = None
        if None not in (al, ah, bl, bh):
            c = [al * bl, al * bh, ah * bl, ah * bh]
            lo, hi = min(c), max(c)
        elif al is not None and bl is not None and al >= 0 and bl >= 0:
            lo = al * bl
        ea, eb = ex(a), ex(b)
        r = self.fresh("m", lo, hi, facts=lambda v: self._mul_facts(v, ea, eb, al, bl, ah, bh),
                       defs=lambda v: [v == ea * eb])
        self.origin[str(r.e)] = ("mul", a, b)
        self.cse[k] = r
        return r

    @staticmethod
    def _mul_facts(v, a, b, al, bl, ah, bh):
        f = []
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            f.append(z3.Implies(a == 0, v == 0))
            f.append(z3.Implies(b == 0, v == 0))
            f.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(v >= a, v >= b)))
            if bh is not None:
                f.append(v <= a * bh)
            if ah is not None:
                f.append(v <= b * ah)
            if bl > 0:
                f.append(v >= a * bl)
            if al > 0:
                f.append(v >= b * al)
        return f

    def divmod(self, a, b):
        """floor quotient and remainder for a >= 0, b > 0 (the caller has excluded b == 0)"""
        if isinstance(a, int) and isinstance(b, int):
            return a // b, a % b
        if isinstance(b, int) and b == 1:
            return a, 0
        k = ("div",) + self.key(a, b)
        if k in self.cse:
            return self.cse[k]
        (al, ah), (bl, bh) = rng(a), rng(b)
        if ah is not None and bl is not None and ah < bl and (al or 0) >= 0:
            r = (0, a)
            self.cse[k] = r
            return r
        ea = ex(a)
        qlo = 0 if bh is None or al is None else al // max(bh, 1)
        qhi = None if ah is None else ah // max(bl or 1, 1)
        if isinstance(b, int):
            q = self.fresh("q", qlo, qhi)
            r = T(ea - b * q.e, 0, b - 1)
            self.facts[str(q.e)] += [ea >= b * q.e, ea <= b * q.e + (b - 1)]
            self.cse[k] = (q, r)
            self.origin[str(q.e)] = ("div", a, b)
            return q, r
        q = self.fresh("q", qlo, qhi)
        eb = ex(b)
        p = self.mul(q, b)
        r = T(ea - ex(p), 0, None if bh is None else bh - 1)
        # valid only when b > 0; q <= a follows
        self.facts[str(q.e)] += [z3.Implies(eb > 0, z3.And(ex(p) <= ea, ea <= ex(p) + eb - 1)), q.e <= ea]
        self.origin[str(q.e)] = ("div", a, b)
        self.cse[k] = (q, r)
        return q, r

    def isqrt(self, a):
        if isinstance(a, int):
            import math
            return math.isqrt(a)
        k = ("sqrt",) + self.key(a)
        if k in self.cse:
            return self.cse[k]
        import math
        al, ah = rng(a)
        s = self.fresh("s", 0 if al is None else math.isqrt(max(al, 0)), None if ah is None else math.isqrt(ah))
        ea = ex(a)
        self.facts[str(s.e)] += [s.e <= ea]
        self.defs[str(s.e)] = [s.e * s.e <= ea, ea < (s.e + 1) * (s.e + 1)]
        self.origin[str(s.e)] = ("sqrt", a)
        self.cse[k] = s
        return s

    def vars_of(self, e):
        """names of the uninterpreted constants in e"""
        k = e.get_id()
        r = self._vars.get(k)
        if r is not None:
            return r[1]
        out = set()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = x.num_args()
            if c == 0:
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(str(x))
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add("@" + x.decl().name())
                stack.extend(x.children())
        self._vars[k] = (e, frozenset(out))
        return self._vars[k][1]

    def closure(self, exprs, with_defs, extra=None):
        """facts (and definitions) about every name the expressions mention, transitively"""
        todo = set()
        for e in exprs:
            todo |= self.vars_of(e)
        done = set()
        out = []
        while todo:
            v = todo.pop()
            if v in done:
                continue
            done.add(v)
            fs = list(self.facts.get(v, ()))
            if with_defs:
                fs += self.defs.get(v, ())
            out.extend(fs)
            for f in fs:
                todo |= self.vars_of(f) - done
        return out + self.monotone(done)

    def monotone(self, names):
        """consequences of the definitions: products with a common factor and quotients by a common divisor are monotone"""
        g = {}
        for v in sorted(names):
            o = self.origin.get(v)
            if not o:
                continue
            if o[0] == "mul":
                for i in (1, 2):
                    y = o[3 - i]
                    lo = rng(y)[0]
                    if lo is not None and lo >= 0:
                        g.setdefault(("m",) + self.key(y), []).append((v, o[i]))
            elif o[0] == "div":
                lo = rng(o[2])[0]
                if not isinstance(o[2], int) and lo is not None and lo > 0:
                    g.setdefault(("d",) + self.key(o[2]), []).append((v, o[1]))
        out = []
        for k in g:
            l = g[k]
            if len(l) > 8:
                continue
            for i in range(len(l)):
                for j in range(i):
                    (v, a), (w, b) = l[i], l[j]
                    x, y = z3.Int(v), z3.Int(w)
                    a, b = ex(a), ex(b)
                    out.append(z3.Implies(a <= b, x <= y))
                    out.append(z3.Implies(b <= a, y <= x))
                    if k[0] == "d":
                        # against the next multiple of the divisor
                        d = self.origin[v][2]
                        pv, pw = ex(self.mul(T(x, 0, None), d)), ex(self.mul(T(y, 0, None), d))
                        d = ex(d)
                        out += [(b >= pv + d) == (y >= x + 1), (a >= pw + d) == (x >= y + 1),
                                (b >= pv + 2 * d) == (y >= x + 2), (a >= pw + 2 * d) == (x >= y + 2)]
        # products and quotients of different operands: equal operands, equal results
        for op in ("mul", "div"):
            l = []
            for v in sorted(names):
                o = self.origin.get(v)
                if o and o[0] == op and not isinstance(o[1], int) and not isinstance(o[2], int):
                    l.append((v, o[1], o[2]))
            if len(l) > 10:
                continue
            for i in range(len(l)):
                for j in range(i):
                    (v, a, b), (w, c, d) = l[i], l[j]
                    kb_, kd = self.key(b), self.key(d)
                    if kb_ == kd or (op == "mul" and (self.key(a) in (self.key(c), kd) or kb_ == self.key(c))):
                        continue
                    if op == "div" and not all((rng(y)[0] or 0) > 0 for y in (b, d)):
                        h = z3.And(ex(a) == ex(c), ex(b) == ex(d), ex(b) > 0)
                    else:
                        h = z3.And(ex(a) == ex(c), ex(b) == ex(d))
                    out.append(z3.Implies(h, z3.Int(v) == z3.Int(w)))
                    if op == "mul":
                        out.append(z3.Implies(z3.And(ex(a) == ex(d), ex(b) == ex(c)), z3.Int(v) == z3.Int(w)))
        return out
