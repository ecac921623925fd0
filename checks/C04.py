"""C04: a swap walks the segments of the curve in order, and every part of it is accounted for."""
import re

from vkit.refine import refine as complete
from vkit.sx import NOHOOK, S, U
from . import C03
from . import swapkit as sk
from .fnkit import *

UP, DOWN = 0, 1
START, TOP = "start", "price"
IN, OUT = "in", "out"


# ------------------------------------------------------------------------------- the segment formulas, decided in C03
def term(x, lo=None, hi=None):
    return x if isinstance(x, int) else T(ex(x), x.lo if lo is None else lo, x.hi if hi is None else hi)


class Kernels:
    """the exact formulas of one segment; the same terms for the code and the reference"""

    def __init__(self, e):
        self.e, self.N = e, e.N

        self.log = []

    def delta(self, side, lo, hi, liq, up):
        v = C03.delta(self.N, side, lo, hi, liq, up)
        self.log.append(("delta", side, up, (lo, hi, liq), v))
        return v

    def next(self, which, p, liq, a):
        if isinstance(a, int) and a == 0:
            return True, p
        dom, v = C03.next_price(self.N, which, p, T(ex(liq), 1, U128) if not isinstance(liq, int) else liq, a)
        v = ite(eq(a, 0), p, v)
        self.log.append(("next", which, None, (p, liq, a), v))
        return dom, v

    def facts(self, used):
        """what C03 and the tasks 'stays ...' decide about the formulas: direction and containment in the segment"""
        out = []
        nx = [u for u in used if u[0] == "next"]
        seen = set()
        for _, which, _, (p, liq, a), v in nx:
            up = which in ("quote_in", "base_out")
            out.append(b_implies(ge(v, 0), ge(v, p) if up else le(v, p)))
            side = "quote" if which.startswith("quote") else "base"
            for _, s, u, (lo, hi, l2), d in [y for y in used if y[0] == "delta"]:
                if s != side or u != which.endswith("in"):
                    continue
                here, end = (lo, hi) if up else (hi, lo)
                k = (id(v), id(d))
                if k in seen:
                    continue
                seen.add(k)
                same = b_and(eq(here, p), eq(l2, liq))
                if sk.simp(same) is False:
                    continue
                out.append(b_implies(b_and(same, lt(a, d)), le(v, end) if up else ge(v, end)))
        # functions: equal arguments, equal values
        for i, x in enumerate(used):
            for y in used[:i]:
                if x[:3] == y[:3] and x[4] is not y[4]:
                    c = sk.simp(b_and(*[eq(p, q) for p, q in zip(x[3], y[3])]))
                    if c is not False:
                        out.append(b_implies(c, eq(x[4], y[4])))
        return out


def khook(ks):
    def d(e, st, fn, a, t):
        m = re.search(r"get_delta_amount_(base|quote)_unsigned(_256)?$", fn.name)
        if fn.blocks is None or fn.argc != 4 or not all(tm.is_scalar(y) for y in a[:3]) or type(a[3]) is not E or not isinstance(a[3].v, int):
            return NOHOOK
        lo, hi, liq = a[:3]
        v = ks.delta(m[1], lo, hi, liq, a[3].v == UP)
        st.notes.append(ks.last())
        for c in (le(lo, hi), gt(lo, 0), le(v, U256 if m[2] else U64)):
            e.assume(st, bx(c))
        return E(0, {0: (term(v, 0, U256 if m[2] else U64),)})

    def n(e, st, fn, a, t):
        if fn.blocks is None or fn.argc != 4 or not all(tm.is_scalar(y) for y in a[:3]):
            return NOHOOK
        p, liq, amt, base = a
        b = base if isinstance(base, bool) else sk.simp(base)
        if not isinstance(b, bool):
            return NOHOOK
        which = ("base_in" if b else "quote_in") if fn.name.endswith("input") else ("quote_out" if b else "base_out")
        dom, v = ks.next(which, p, liq, amt)
        if ks.last()[4] is v:
            st.notes.append(ks.last())
        for c in (gt(p, 0), gt(liq, 0), dom, ge(v, 0), le(v, U128)):
            e.assume(st, bx(c))
        return E(0, {0: (term(v, 0, U128),)})
    return [(re.compile(r"::get_delta_amount_(base|quote)_unsigned(_256)?$"), d),
            (re.compile(r"::get_next_sqrt_price_from_(input|output)$"), n)]


# ------------------------------------------------------------------------------- the reference walk
class Walk:
    """the walk by definition: from the current price, segment by segment, until the amount is used up or the curve ends"""

    def __init__(self, fx, end, ks, w, sell, how, cases):
        self.fx, self.e, self.ks, self.w, self.sell, self.how = fx, fx.e, ks, w, sell, how
        self.cases, self.asked = dict(cases), []
        self.given = []
        self.end = end

    def ask(self, name, c):
        c = sk.simp(c)
        if isinstance(c, bool):
            return c
        for v in (True, False):
            if self.follows(c if v else b_not(c)):
                return v
        v = self.cases.setdefault(name, True)
        self.asked.append((name, c if v else b_not(c)))
        self.given.append(self.asked[-1][1])
        return v

    def follows(self, c):
        """does the condition hold on the path, by linear reasoning"""
        N = self.e.N
        s = getattr(self.end, "known", None)
        if s is None:
            xs = list(self.end.st.pc)
            s = z3.SimpleSolver()
            s.set("timeout", 500)
            s.set("rlimit", 2_000_000)
            s.add(*xs)
            s.add(*N.closure(xs, False))
            self.end.known = s
        ys = [bx(h) for h in self.given] + [bx(b_not(c))]
        s.push()
        s.add(*ys)
        s.add(*N.closure(ys, False))
        r = s.check()
        s.pop()
        return r == z3.unsat

    def segments(self):
        """(lower end, upper end, liquidity) in the order of the walk"""
        w = self.w
        lows = [w["start"]] + [p for p, _ in w["points"][:-1]]
        segs = [(lo, p, l) for lo, (p, l) in zip(lows, w["points"])]
        return segs[::-1] if self.sell else segs

    def go(self):
        ks, w = self.ks, self.w
        k0 = len(ks.log)
        cur, left, other = w["price"], w["amount"], 0
        stop = w["stop"] if not self.sell and self.how == IN else None
        self.hyps = []
        for i, (lo, hi, liq) in enumerate(self.segments()):
            last = self.sell and i == len(w["points"]) - 1
            if self.sell:
                if not (last and self.how == IN) and not self.ask("in%d" % i, gt(cur, lo)):
                    continue
                end = lo
            else:
                end = hi
                if stop is not None:
                    end = stop if self.ask("stop%d" % i, lt(stop, hi)) else hi
                if not self.ask("in%d" % i, gt(end, cur)):
                    continue
            a, b = (end, cur) if self.sell else (cur, end)
            moved, other_side = ("base", "quote") if self.sell == (self.how == IN) else ("quote", "base")
            whole = ks.delta(moved, a, b, liq, self.how == IN)
            which = moved + "_" + self.how
            if last and self.how == IN:
                # down to the starting price: the rounded price decides whether the input fits
                dom, nxt = ks.next(which, cur, liq, left)
                if self.ask("fits", ge(nxt, lo)):
                    left = 0
                else:
                    nxt, left = end, sub(left, whole)
            elif self.ask("part%d" % i, le(left, whole) if last else lt(left, whole)):
                dom, nxt = ks.next(which, cur, liq, left)
                left = 0
            else:
                nxt = end
                left = sub(left, whole)
            a, b = (nxt, cur) if self.sell else (cur, nxt)
            other = add(other, ks.delta(other_side, a, b, liq, self.how == OUT))
            cur = nxt
            if isinstance(left, int) and left == 0 or self.ask("done%d" % i, eq(left, 0)):
                left = 0
                if self.how == OUT and not self.sell and i + 1 < len(w["points"]):
                    # a following segment that does not even hold one unit is out of the bounds
                    self.hyps.append(ge(ks.delta(moved, hi, w["points"][i + 1][0], w["points"][i + 1][1], False), 1))
                if self.how == OUT and self.sell and i + 2 < len(w["points"]):
                    nlo, nhi, nl = self.segments()[i + 1]
                    self.hyps.append(ge(ks.delta(moved, nlo, nhi, nl, False), 1))
                break
            if stop is not None and end is stop:
                break
        self.next, self.other, self.left = cur, other, left
        self.used = ks.log[k0:]
        return self


def walks(fx, end, ks, w, sell, how):
    todo = [{}]
    while todo:
        c = todo.pop()
        q = Walk(fx, end, ks, w, sell, how, c).go()
        for n, _ in q.asked:
            if n not in c:
                todo.append({**{k: v for k, v in q.cases.items() if k in c or k == n}, n: False})
                c = {**c, n: True}
        yield q


# ------------------------------------------------------------------------------- the code
USE = ("use ::dynamic_bonding_curve::state::*; use ::dynamic_bonding_curve::state::fee::*; use ::dynamic_bonding_curve::params::swap::TradeDirection; "
       "let mut c = PoolConfig::default(); let mut v = VirtualPool::default(); v.sqrt_price = p(&a[0]); c.sqrt_start_price = p(&a[1]); c.migration_sqrt_price = p(&a[2]); "
       "let amount: u64 = p(&a[3]); let n = (a.len() - 4) / 2; for i in 0..n { c.curve[i].sqrt_price = p(&a[4 + 2 * i]); c.curve[i].liquidity = p(&a[5 + 2 * i]); } ")
FUNCS = []
for sell in (True, False):
    d = "TradeDirection::BaseToQuote" if sell else "TradeDirection::QuoteToBase"
    for how in (IN, OUT):
        n = "%s_%s" % ("sell" if sell else "buy", how)
        f = "partial_input" if how == IN else "exact_output"
        Funcs.table["walk_" + n] = USE + ("let m = FeeMode::get_fee_mode(0, %s, false).unwrap(); match v.get_swap_result_from_%s(&c, amount, &m, %s, 0, false) { Ok(x) => format!(\"ok {},{},{}\", "
                                          "x.next_sqrt_price, x.%s, x.amount_left), Err(_) => \"err\".to_string() }") % (d, f, d, "output_amount" if how == IN else "excluded_fee_input_amount")
        FUNCS.append("walk_" + n)


def world(fx, k, sell, how):
    """a well-formed curve of k points and a price on it"""
    w = {"start": fx.u("start", 128, 1), "price": fx.u("price", 128, 1), "stop": fx.u("stop", 128), "amount": fx.u("amount", 64, 1),
         "points": [(fx.u("p%d" % i, 128, 1), fx.u("l%d" % i, 128, 1)) for i in range(k)]}
    ps = [w["start"]] + [p for p, _ in w["points"]]
    pre = [lt(a, b) for a, b in zip(ps, ps[1:])]
    pre += [le(w["start"], w["price"]), le(w["price"], ps[-1]), le(w["stop"], ps[-1])]
    return w, pre


def build_args(fx, w, k, sell, how):
    e = fx.e
    pt, ct = fx.pointee(0), fx.pointee(1)
    fs = {f[0]: f[1] for f in e.tys[ct]["vars"][0]["f"]}
    fees = e.tys[fs["pool_fees"]]
    ff = {f[0]: f[1] for f in fees["vars"][0]["f"]}
    base = fx.struct(ff["base_fee"], "base", cliff_fee_numerator=0, second_factor=0, third_factor=0, first_factor=0, base_fee_mode=0)
    dyn = fx.struct(ff["dynamic_fee"], "dyn", initialized=0)
    pf = fx.struct(fs["pool_fees"], "fees", base_fee=base, dynamic_fee=dyn)
    arr = e.tys[fs["curve"]]
    n = arr["n"] if "n" in arr else arr["len"]
    pts = []
    for i in range(n):
        p, l = w["points"][i] if i < k else (0, 0)
        pts.append(fx.struct(arr["elem"], "c%d" % i, sqrt_price=p, liquidity=l))
    cv = fx.struct(ct, "config", pool_fees=pf, curve=S(tuple(pts)), sqrt_start_price=w["start"], migration_sqrt_price=w["stop"], collect_fee_mode=0)
    pv = fx.struct(pt, "pool", sqrt_price=w["price"])
    amt = w["amount"]
    mt = fx.pointee(3)
    mode = fx.struct(mt, "mode", fees_on_input=not sell, fees_on_base_token=False, has_referral=False)
    return [fx.ref(pv, pt), fx.ref(cv, ct), amt, fx.ref(mode, mt), fx.enum(0 if sell else 1), fx.u("point", 64), False]


def worlds(w, k, sell):
    """ordinary curves for concrete cases"""
    one = 1 << 64
    for u in (one, one << 8, one >> 8):
        ps = [[eq(p, u * (i + 2)) for i, (p, _) in enumerate(w["points"])] + [eq(l, (1 << 100) + i) for i, (_, l) in enumerate(w["points"])] + [eq(w["start"], u)]]
        for price in (u + u // 3, u * (k + 1) - u // 3, u * 2, u * (k + 1), u):
            for amt in (12345, (1 << 35) + 77, 1 << 60):
                yield ps + [[eq(w["price"], price)], [eq(w["stop"], u * (k + 1))], [ge(w["stop"], w["price"])], [eq(w["amount"], amt)]]


def min_hook(w, k):
    """the lesser of the migration price and a point, known from the task's order of them"""
    def h(e, st, fn, a, t):
        if len(a) != 2 or not all(isinstance(y, T) for y in a) or w.get("at") is None:
            return NOHOOK
        for x, y in (a, a[::-1]):
            if ex(x).eq(ex(w["stop"])):
                for i, (p, _) in enumerate(w["points"]):
                    if ex(y).eq(ex(p)):
                        return x if w["at"] <= i else y
        return NOHOOK
    return re.compile(r"(^|::)min$"), h


def walk_task(sell, how, k, stop=None):
    def run(c):
        name = "%s_%s" % ("sell" if sell else "buy", how)
        ksh = []
        hk = khook(type("L", (), {"delta": lambda s, *a: ksh[0].delta(*a), "next": lambda s, *a: ksh[0].next(*a), "last": lambda s: ksh[0].log[-1]})())
        w = {}
        fx = Fx(c, "VirtualPool::get_swap_result_from_%s" % ("partial_input" if how == IN else "exact_output"), hooks=hk + sk.SUMMARIES + [min_hook(w, k)])
        ksh.append(Kernels(fx.e))
        w0, pre = world(fx, k, sell, how)
        w.update(w0, at=stop)
        args = build_args(fx, w, k, sell, how)
        if stop is not None:
            fx.st.pc += [bx(le(w["stop"], w["points"][stop][0])), bx(gt(w["stop"], w["points"][stop - 1][0] if stop else w["start"]))]
        if how == OUT:
            fx.st.pc.append(bx(eq(w["stop"], w["points"][-1][0])))
        ends = fx.run(args, pre=pre, deadline=300)
        order = ["price", "start", "stop", "amount"] + [n for i in range(k) for n in ("p%d" % i, "l%d" % i)]
        seen = wit = tried = 0
        for x in ends:
            if x.kind != "ok":
                continue
            seen += 1
            v = x.view
            got = (v.next_sqrt_price, v.output_amount if how == IN else v.excluded_fee_input_amount, v.amount_left)

            def rp(cc, end, got=got):
                a = [cc.ev(fx.inputs[n][0]) for n in order]
                ret = "panic" if end.kind == "panic" else "err" if cc.ev(end.okc) is not True else "ok " + ",".join(str(cc.ev(y)) for y in got)
                return ["func walk_%s %s" % (name, " ".join(str(y) for y in a))], {"ret": ret}
            mine = [y for y in x.st.notes if type(y) is tuple and y[0] in ("delta", "next")]
            for q in walks(fx, x, ksh[0], w, sell, how):
                g = [("the price is where the walk ends", eq(got[0], q.next)),
                     ("the amounts of the segments add up", eq(got[1], q.other)),
                     ("what the curve cannot take is left over", eq(got[2], q.left))]
                if how == OUT:
                    g.append(("the whole output is found", eq(q.left, 0)))
                if sell:
                    g.append(("a sell only lowers the price, not below the start", b_and(le(got[0], w["price"]), ge(got[0], w["start"]))))
                else:
                    g.append(("a buy only raises the price", ge(got[0], w["price"])))
                    g.append(("a buy stops at the migration price" if how == IN else "a buy stays on the curve",
                              b_or(le(got[0], w["stop"]), eq(got[0], w["price"]))))
                okc = x.okc
                g = [("%s, %d points: %s" % (name, k, l), y if okc is True else b_implies(okc, y)) for l, y in g]
                hyp = ksh[0].facts(mine + q.used) + [y for _, y in q.asked] + q.hyps
                rf = lambda conds, d, x=x: complete(fx.prog, fx.e, list(conds), [], [([d] if d else []) + y for y in worlds(w, k, sell)], 15)
                c.prove(x, g, fx.e, hyp=hyp, refine=rf, replay=rp, timeouts=(5, 20))
                if any(o["verdict"] == "violated" for o in c.obls):
                    return
                if wit < 2 and tried < (4 if k < 3 else 0):
                    tried += 1
                    wit += c.witness(x, fx.e, "%s, %d points, path %d" % (name, k, seen), replay=rp, extra=[bx(h) for h in hyp if h is not True], refine=rf) == "sat"
        if not seen:
            c.obls.append({"name": "%s: a swap is possible" % name, "verdict": "undecided"})
    return run


# ------------------------------------------------------------------------------- the next price stays in its segment
def stays_task(which):
    def run(c):
        name = next(n for n in C03.NEXT if C03.SIDE[n] == which)
        fx = Fx(c, C03.K + name)
        N = fx.N
        p, liq, a, t = fx.u("price", 128, 1), fx.u("liquidity", 128, 1), fx.u("amount", 64), fx.u("end", 128, 1)
        up = which in ("quote_in", "base_out")
        side = "quote" if which.startswith("quote") else "base"
        lo, hi = (p, t) if up else (t, p)
        d = C03.delta(N, side, lo, hi, liq, which.endswith("in"))
        hyp = [le(lo, hi), lt(a, d)]
        if which == "base_out":
            # t (L - a p) = t L - a p t, and a p t <= L (t - p) = L t - L p
            den = sub(liq, N.mul(a, p))
            pt, tl, lp = N.mul(p, t), N.mul(t, liq), N.mul(liq, p)
            apt = N.mul(a, pt)
            hyp += [eq(N.mul(t, den), sub(tl, apt)), eq(N.mul(liq, sub(t, p)), sub(tl, lp)), le(apt, N.mul(d, pt))]
        ends = fx.run([p, liq, a], pre=hyp)
        spec(c, "%s stays in the segment" % name, fx, ends, lambda e: [("an amount below the segment's keeps the price in it", le(e.value, t) if up else ge(e.value, t))],
             None, name, ["price", "liquidity", "amount"], timeouts=(10, 60), witness=0, hyp=hyp)
    return run


def tasks():
    t = [("stays " + w, stays_task(w)) for w in C03.SIDE.values()]
    for k in ((1, 2, 3, 4, 6) if TIER != "thorough" else (1, 2, 3, 4, 5, 6, 8, 12)):
        for sell in (True, False):
            for how in (IN, OUT):
                for stop in (range(k) if not sell and how == IN else (None,)):
                    t.append(("%s %s %d%s" % ("sell" if sell else "buy", how, k, "" if stop is None else " stop %d" % stop), walk_task(sell, how, k, stop)))
    return t


META = {"level": "model_checking", "funcs": FUNCS + C03.NEXT,
        "assumptions": ["the segment formulas of curve.rs are the ones C03 decides; they are summarised by these formulas here",
                        "the wide-integer operations of the ruint crate are exact",
                        "well-formed curve, as the config creation demands (C16): prices ascending from above the starting price, positive liquidities, the pool's price between the starting price and the last point"],
        "bounds": ["curves of 1, 2, 3, 4 and 6 points (thorough: up to 12), all prices and liquidities, all 64-bit amounts; fee rate zero, so that the amounts are those of the walk",
                   "exact output: when the output is found exactly at the end of a segment, the next segment holds at least one unit"]}
