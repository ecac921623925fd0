"""The swap instruction with its inner computations replaced by their contracts.

The contracts are proved for the real functions by other checks (C03..C08, C25); here their results are arbitrary
values that satisfy the contract, the same for the same arguments. A counterexample or witness is completed by
executing the real functions on the concrete arguments, and is then replayed natively.
"""
import re

import z3

from vkit import conc as cc
from vkit import terms as tm
from vkit.check import leaves
from vkit.ix import b58
from vkit.refine import refine
from vkit.conc import Conc
from vkit.hooks import HOOKS
from vkit.sx import BA, E, Engine, NOHOOK, Opq, P, PB, S, St, U, UNIT, Unsupported, View

from vkit.merge import merged

from .common import *


def flat(e, v, ty, out):
    """scalar leaves of an argument, through references"""
    if type(v) is P:
        if v.ty is None:
            raise Unsupported("untyped reference given to a contract")
        return flat(e, e.load(v), v.ty, out)
    for _, x in leaves(e, v, ty):
        if type(x) in (PB, BA):
            x = e.bytes_to_int(x)
        if tm.is_boolv(x):
            x = e.as_int(x)
        if not tm.is_scalar(x):
            raise Unsupported("argument %r given to a contract" % (x,))
        out.append(x)
    return out


class Rec:
    """one use of a contract: the function, its arguments and its result"""

    def __init__(self, fn, args, leaves_, val, ty, outs, exact):
        self.fn, self.args, self.leaves, self.val, self.ty, self.outs, self.exact = fn, args, leaves_, val, ty, outs, exact
        self.cond = True
        self.seq = min([int(m) for y in outs for m in re.findall(r"#(\d+)", str(ex(y) if not isinstance(y, bool) else y))] or [0])

    def under(self, c):
        r = Rec(self.fn, self.args, self.leaves, self.val, self.ty, self.outs, self.exact)
        r.cond = b_and(self.cond, c)
        return r


def contract(rx, name, facts=None, exact=True):
    """a hook that returns an arbitrary Ok value of the function, the same for the same arguments"""
    def h(e, st, fn, a, t):
        args = []
        snap = []
        for i, x in enumerate(a):
            ty = x.ty if type(x) is P else fn.locals[i + 1]
            flat(e, x, ty, args)
            snap.append((e.load(x), ty, True) if type(x) is P else (x, ty, False))
        okty = e.tys[t]["vars"][0]["f"][0][1]
        k = ("contract", name) + e.N.key(*args)
        v = e.N.cse.get(k)
        if v is None:
            e.N.n += 1
            v = e.fresh_of(okty, "%s#%d" % (name, e.N.n))
            e.N.cse[k] = v
        if facts is not None:
            for c in facts(e, args, v, okty, a):
                e.assume(st, bx(c))
        st.notes.append(Rec(fn, snap, args, v, okty, [x for _, x in leaves(e, v, okty)], exact))
        return E(0, {0: (v,)})
    return re.compile(rx), h


def arbitrary(rx, name):
    """a hook for a function that may succeed or fail, with no result"""
    def h(e, st, fn, a, t):
        e.N.n += 1
        b = z3.Bool("%s#%d" % (name, e.N.n))
        st.notes.append(("arbitrary", name, b, [e.load(y) if type(y) is P and y.meta is None else y for y in a]))
        return E(e.as_int(b_not(b)), {0: (UNIT,), 1: (Opq("error", name),)})
    return re.compile(rx), h


def walk_facts(e, args, v, okty, a):
    n = [f[0] for f in e.tys[okty]["vars"][0]["f"]]
    if "amount_left" in n:
        amount = next(x for x in a if tm.is_scalar(x))
        return [le(e.get1(v, n.index("amount_left")), amount)]
    return []


CONTRACTS = [
    contract(r"VirtualPool::calculate_\w+_from_amount_(in|out)$", "walk", walk_facts),
    contract(r"PoolFeesConfig::get_total_fee_numerator_from_(in|ex)cluded_fee_amount$", "fee_rate"),
    contract(r"PoolFeesConfig::get_min_base_fee_numerator$", "min_rate"),
    contract(r"VolatilityTracker::get_delta_bin_id$", "delta_bin"),
    arbitrary(r"::validate_single_swap_instruction$", "single_swap"),
    arbitrary(r"::validate_contain_initialize_pool_ix_and_no_cpi$", "created_now"),
]

def summary(rx, name, n, compute):
    """a hook that returns the value another task of the same check proves for the function; if its shape changed the code itself is executed"""
    def h(e, st, fn, a, t):
        if fn.blocks is None or fn.argc != n:
            return NOHOOK
        try:
            okty = e.tys[t]["vars"][0]["f"][0][1]
            scal = [y for y in a if tm.is_scalar(y)]
            vals, facts = compute(e, a, scal)
            if isinstance(vals, dict):
                fs = [f[0] for f in e.tys[okty]["vars"][0]["f"]]
                if set(fs) != set(vals):
                    return NOHOOK
                vals = [vals[f] for f in fs]
            elif e.tys[okty]["k"] != "tuple" or len(e.tys[okty]["fields"]) != len(vals):
                return NOHOOK
        except (Unsupported, KeyError, IndexError, ValueError, AttributeError, TypeError):
            return NOHOOK
        for c in facts:
            e.assume(st, bx(c))
        return E(0, {0: (S(tuple(vals)),)})
    return re.compile(rx), h


def _excluded(e, a, s):
    rate, amount = s
    f = ceil_div(e, e.N.mul(amount, rate), DENOM)
    return (sub(amount, f), f), [le(f, amount)]


def _included(e, a, s):
    rate, x = s
    d = sub(DENOM, rate)
    v = ceil_div(e, e.N.mul(x, DENOM), T(ex(d), 1, d.hi) if isinstance(d, T) else d)
    return (v, sub(v, x)), [lt(rate, DENOM), le(v, U64)]


def _parts(e, fee, has):
    p = percent(e, fee, 20)
    r = ite(has, percent(e, p, 20), 0)
    return sub(fee, p), sub(p, r), r


def _split(e, a, s):
    fee, has = s
    return _parts(e, fee, has), []


def _on_amount(e, a, s):
    rate, amount, has = s
    f = ceil_div(e, e.N.mul(amount, rate), DENOM)
    t, p, r = _parts(e, f, has)
    return {"amount": sub(amount, f), "trading_fee": t, "protocol_fee": p, "referral_fee": r}, [le(f, amount)]


def _creator(e, a, s):
    fee, = s
    cfg = View(e, e.load(a[0]), a[0].ty)
    pct = cfg.creator_trading_fee_percentage
    c = percent(e, fee, pct)
    return {"creator_fee": c, "partner_fee": sub(fee, c)}, [le(pct, 100)]


SUMMARIES = [
    summary(r"PoolFeesConfig::get_excluded_fee_amount$", "excluded", 2, _excluded),
    summary(r"PoolFeesConfig::get_included_fee_amount$", "included", 2, _included),
    summary(r"PoolFeesConfig::split_fees$", "split", 3, _split),
    summary(r"PoolFeesConfig::get_fee_on_amount$", "on_amount", 4, _on_amount),
    summary(r"PoolConfig::split_partner_and_creator_fee$", "creator", 2, _creator),
]

MERGED = [merged(r"::(is_rate_limiter_applied|get_fee_rate_limiter|get_current_point|has_vesting|split_partner_and_creator_fee|"
                 r"accumulate_fee|update_pre_swap|update_post_swap|get_fee_on_amount|split_fees|get_included_fee_amount|"
                 r"get_fee_mode|get_total_amount|apply_swap_result|is_first_swap_with_min_fee_enabled|"
                 r"get_protocol_and_trading_base_fee|get_swap_result_from_\w+|process_swap_\w+)$")]


class Ref:
    """uses of the contracted functions by the reference model: equal arguments give equal results"""

    def __init__(self, x):
        self.x = x
        self.e = x.e
        self.recs = []
        self.hyps = []
        self.given = []

    def follows(self, c):
        """does the condition hold on the path, by linear reasoning"""
        N = self.e.N
        xs = list(self.x.st.pc) + [bx(h) for h in self.given if h is not True] + [bx(b_not(c))]
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*xs)
        s.add(*N.closure(xs, False))
        return s.check() == z3.unsat

    def seen(self, rx):
        return [r for r in self.x.st.notes if isinstance(r, Rec) and re.search(rx, r.fn.name)]

    def call(self, rx, name, args):
        """result of the function on the arguments; args: position -> scalar or list of leaves; the others as the code passes them.
        The contracted functions are functions: equal arguments give equal results, on whatever path they are used."""
        e = self.e
        rs, ids = [], set()
        for r in self.seen(rx):
            if id(r.val) not in ids:
                ids.add(id(r.val))
                rs.append(r)
        if not rs:
            return None
        r0 = rs[0]
        conds = []
        for r in rs:
            c = []
            for i, want in args.items():
                got = []
                flat_val(e, r.args[i][0], r.args[i][1], got)
                w = want if isinstance(want, list) else [want]
                c += [simp(eq(p, q)) for p, q in zip(got, w)]
            c = b_and(*c)
            if c is True:
                return View(e, r.val, r.ty) if type(r.val) is S else r.val
            conds.append(c)
        if all(c is False for c in conds):
            return None
        for r, c in zip(rs, conds):
            if c is not False and self.follows(c):
                return View(e, r.val, r.ty) if type(r.val) is S else r.val
        e.N.n += 1
        v = e.fresh_of(r0.ty, "ref_%s#%d" % (name, e.N.n))
        outs = [y for _, y in leaves(e, v, r0.ty)]
        for r, c in zip(rs, conds):
            self.hyps.append(b_implies(c, b_and(*[lv(e, p, q) for p, q in zip(outs, r.outs)])))
        rec = Rec(r0.fn, [((rebuild(e, v0, ty, iter(args[i] if isinstance(args[i], list) else [args[i]])), ty, p) if i in args
                           else (v0, ty, p)) for i, (v0, ty, p) in enumerate(r0.args)], None, v, r0.ty, outs, True)
        self.recs.append(rec)
        return View(e, v, r0.ty) if type(v) is S else v


def simp(c):
    if isinstance(c, bool):
        return c
    s = z3.simplify(c)
    return True if z3.is_true(s) else False if z3.is_false(s) else c


def flat_val(e, v, ty, out):
    for _, x in leaves(e, v, ty):
        if type(x) in (PB, BA):
            x = e.bytes_to_int(x)
        out.append(e.as_int(x) if tm.is_boolv(x) else x)


def rebuild(e, v, tid, it):
    """the value with its leaves replaced in order"""
    t = e.tys[tid]
    if t.get("size") == 0:
        return v
    if e.prog.is_pubkey(t) or e.prog.is_opaque_int(t) or t["k"] in ("uint", "int", "bool", "char"):
        return next(it)
    if type(v) in (PB, BA):
        y = next(it)
        n = v.n if type(v) is PB else len(v.b)
        return PB(y, n)
    if t["k"] == "adt" and t["kind"] == "enum":
        return E(next(it), v.pl)
    if t["k"] == "array":
        return S(tuple(rebuild(e, y, t["elem"], it) for y in e.elems(v)))
    er = e.erase(tid)
    fs = t["vars"][0]["f"] if t["k"] == "adt" else [(str(i), f) for i, f in enumerate(t["fields"])]
    out = []
    for i, f in enumerate(fs):
        if er is not None:
            if er == i:
                return rebuild(e, v, f[1], it)
        else:
            out.append(rebuild(e, e.get1(v, i), f[1], it))
    return S(tuple(out))


def lv(e, p, q):
    return b_iff(p, q) if tm.is_boolv(p) or tm.is_boolv(q) else eq(p, q)


SELL, BUY = 0, 1
EXACT_IN, PARTIAL, EXACT_OUT = 0, 1, 2
DENOM = 1_000_000_000


def sat_sub(a, b):
    return ite(ge(a, b), sub(a, b), 0)


class SwapRef:
    """what a swap has to do, in terms of the curve walk and the fee rate"""

    def __init__(self, x, mode=None, cases=None):
        e = x.e
        self.cases, self.asked = dict(cases or {}), []
        self.x, self.e = x, e
        self.p, self.c = x.pre("pool"), x.pre("config")
        p, c = self.p, self.c
        R = self.R = Ref(x)
        a = argv(x)[0]
        self.a0 = a.amount_0 if mode is None else a.amount_in
        self.a1 = a.amount_1 if mode is None else a.minimum_amount_out
        self.mode = mode
        self.known = lambda c: known(x, c)
        k = x.clock
        self.now = k.unix_timestamp
        self.point = ite(eq(c.activation_type, 0), k.slot, self.now)
        sell = eq(x.token("input_token_account").mint, x.key("base_mint"))
        self.sell = next((v for v in (True, False) if path_says(x, sell if v else b_not(sell))), sell)
        self.dir = ite(self.sell, SELL, BUY)
        self.on_input = b_and(b_not(self.sell), eq(c.collect_fee_mode, 0))
        self.on_base = b_and(b_not(self.sell), eq(c.collect_fee_mode, 1))
        self.referral = self.known(x.present("referral_token_account"))
        bf = c.pool_fees.base_fee
        self.limited = b_and(eq(bf.base_fee_mode, 2), b_not(self.sell),
                             b_not(b_and(eq(bf.third_factor, 0), eq(bf.second_factor, 0), eq(bf.first_factor, 0))),
                             le(self.point, add(p.activation_point, bf.second_factor)))
        ar = [n for n in x.st.notes if type(n) is tuple and n[0] == "arbitrary"]
        cn = [n[2] for n in ar if n[1] == "created_now"]
        self.created_now = cn[0] if cn else z3.Bool("created_now_unasked")
        self.singles = [n[2] for n in ar if n[1] == "single_swap"]
        self.eligible = self.split("eligible", b_and(eq(c.enable_first_swap_with_min_fee, 1), eq(p.has_swap, 0), self.created_now))
        self.tracker0()

    def split(self, name, c):
        """a condition that is decided by cases when the path leaves it open"""
        c = self.known(c)
        c = simp(c)
        if isinstance(c, bool):
            return c
        v = self.cases.setdefault(name, True)
        self.asked.append((name, c if v else b_not(c)))
        self.R.given.append(self.asked[-1][1])
        return v

    def tracker0(self):
        """the volatility references before the swap"""
        e, p, d = self.e, self.p, self.c.pool_fees.dynamic_fee
        v = p.volatility_tracker
        self.dyn = ne(d.initialized, 0)
        el = sat_sub(self.now, v.last_update_timestamp)
        fresh = b_and(self.dyn, ge(el, d.filter_period))
        self.spr = ite(fresh, p.sqrt_price, v.sqrt_price_reference)
        dec = floor_frac(e, v.volatility_accumulator, d.reduction_factor, 10000)
        self.vr = ite(fresh, ite(lt(el, d.decay_period), dec, 0), v.volatility_reference)
        pad = [y for _, y in leaves(e, v.padding._v, v.padding._t)] if hasattr(v.padding, "_v") else [v.padding]
        pad = [e.bytes_to_int(y) if type(y) in (PB, BA) else y for y in pad]
        self.tr = [v.last_update_timestamp] + pad + [self.spr, v.volatility_accumulator, self.vr]

    def rate(self, kind, amount):
        p = self.p
        r = self.R.call(r"get_total_fee_numerator_from_%s_fee_amount$" % kind, "rate",
                        {1: self.tr, 2: self.point, 3: p.activation_point, 4: amount, 5: self.dir})
        m = self.R.call(r"get_min_base_fee_numerator$", "min", {})
        f = lambda n: n if n is not None else self.e.N.fresh("unused", 0, U64)
        if self.eligible is False or m is None and r is not None and not self.R.seen(r"get_min_base"):
            m = m if m is not None else f(None)
        return ite(self.eligible, f(m), f(r))

    def walk(self, how, amount):
        """(price after, other amount, amount left) of the walk along the curve"""
        out = []
        for d, nm in ((True, "base_to_quote"), (False, "quote_to_base")):
            c = self.sell if d else b_not(self.sell)
            if c is False:
                continue
            args = {2: amount}
            if not d and how == "in" and any(len(r.args) > 3 for r in self.R.seen(r"quote_to_base_from_amount_in$")):
                args[3] = self.c.migration_sqrt_price
            out.append((c, self.R.call(r"calculate_%s_from_amount_%s$" % (nm, how), nm, args)))
        if any(w is None for _, w in out) or not out:
            return None
        g = lambda n: (getattr(out[0][1], n) if len(out) == 1 else ite(out[0][0], getattr(out[0][1], n), getattr(out[1][1], n)))
        return (g("next_sqrt_price"), g("output_amount"), g("amount_left")) if how == "in" else (g("next_sqrt_price"), g("amount_in"), 0)

    def fee_of(self, amount, rate):
        return ceil_div(self.e, self.e.N.mul(amount, rate), DENOM)

    def gross(self, net, rate):
        d = sub(DENOM, rate)
        d = T(ex(d), 1, d.hi) if isinstance(d, T) else d
        return ceil_div(self.e, self.e.N.mul(net, DENOM), d)

    def quote(self, mode):
        """fields of the expected result, or None when the code asks for another walk than the one it has to take"""
        e, oi = self.e, self.on_input
        a0 = self.a0
        self.ok = []
        if mode in (EXACT_IN, PARTIAL):
            r = self.rate("included", a0)
            f1 = self.fee_of(a0, r)
            x = ite(oi, sub(a0, f1), a0)
            w = self.walk("in", x)
            if w is None:
                return None
            nxt, out, left = w
            f2 = self.fee_of(out, r)
            if mode == EXACT_IN:
                self.ok.append(("everything requested is traded", eq(left, 0)))
                fee, inc, exc = ite(oi, f1, f2), a0, x
            else:
                y = sub(x, left)
                r2 = self.rate("excluded", y)
                part = self.split("part", ne(left, 0))
                g = tmin(self.gross(y, r2), a0)
                inc = ite(part, ite(oi, g, y), a0)
                exc = ite(part, y, x)
                fee = ite(oi, ite(part, sub(g, y), f1), f2)
            output = ite(oi, out, sub(out, f2))
            self.left = left
        else:
            ro = self.rate("excluded", a0)
            go = self.gross(a0, ro)
            want = ite(oi, a0, go)
            w = self.walk("out", want)
            if w is None:
                return None
            nxt, inn, _ = w
            ri = self.rate("excluded", inn)
            gi = self.gross(inn, ri)
            inc, exc = ite(oi, gi, inn), inn
            fee = ite(oi, sub(gi, inn), sub(go, a0))
            output = a0
            self.left = 0
            self.ok.append(("the price does not pass the migration price", le(nxt, self.c.migration_sqrt_price)))
        self.next, self.included, self.excluded, self.fee, self.output = nxt, inc, exc, fee, output
        pr = percent(e, fee, 20)
        self.trading = sub(fee, pr)
        self.ref_fee = ite(self.referral, percent(e, pr, 20), 0)
        self.protocol = sub(pr, self.ref_fee)
        c = percent(e, self.trading, self.c.creator_trading_fee_percentage)
        self.creator_part = c
        self.partner_part = sub(self.trading, self.creator_part)
        return self

    def tracker1(self):
        """the volatility data after the swap: (last update, reference price, accumulator, reference)"""
        d, v = self.c.pool_fees.dynamic_fee, self.p.volatility_tracker
        d1 = self.R.call(r"VolatilityTracker::get_delta_bin_id$", "bins", {0: d.bin_step_u128, 1: self.next, 2: self.spr})
        d2 = self.R.call(r"VolatilityTracker::get_delta_bin_id$", "bins", {0: d.bin_step_u128, 1: self.p.sqrt_price, 2: self.next})
        if d1 is None:
            return v.last_update_timestamp, self.spr, v.volatility_accumulator, self.vr
        va = tmin(add(self.vr, self.e.N.mul(d1, 10000)), d.max_volatility_accumulator)
        return (ite(b_and(self.dyn, gt(d2, 0)), self.now, v.last_update_timestamp), self.spr,
                ite(self.dyn, va, v.volatility_accumulator), self.vr)

    def complete(self):
        q = ite(self.sell, sub(self.p.quote_reserve, self.moved_out()), add(self.p.quote_reserve, self.excluded))
        return ge(q, self.c.migration_quote_threshold)

    def moved_out(self):
        """what leaves the reserve, with the fees taken from it"""
        return ite(self.on_input, self.output, add(self.output, self.fee))

    def vesting(self):
        v = self.c.locked_vesting_config
        has = b_or(ne(v.amount_per_period, 0), ne(v.cliff_duration_from_migration_time, 0), ne(v.frequency, 0),
                   ne(v.number_of_period, 0), ne(v.cliff_unlock_amount, 0))
        return has, add(v.cliff_unlock_amount, self.e.N.mul(v.amount_per_period, v.number_of_period))


def known(x, c):
    """the condition, less what the path decides"""
    if isinstance(c, bool):
        return c
    for v in (True, False):
        if path_says(x, c if v else b_not(c)):
            return v
    if z3.is_and(c):
        return b_and(*[known(x, y) for y in c.children()])
    return c


def path_says(x, c):
    """does the path decide the condition"""
    if isinstance(c, bool):
        return c
    s = z3.simplify(c)
    return any(z3.simplify(q).eq(s) for q in x.st.pc)


SWAP_ASSUME = ["the clock's unix timestamp is not negative",
               "the token program moves exactly the amounts it is asked to move",
               "accounts passed for different roles with mutable state are different accounts",
               "the curve walk, the fee rate and the volatility distance are arbitrary functions here; other checks decide what they compute"]


def movement(x, q, pool=True):
    """the token movements"""
    sell = q.sell
    inn, out, payer = x.key("input_token_account"), x.key("output_token_account"), x.key("payer")
    bv, qv = q.p.base_vault, q.p.quote_vault
    bm, qm = q.p.base_mint, q.c.quote_mint
    s = lambda a, b: ite(sell, a, b)
    g = [("the trader pays with the token of the input side", eq(x.token("input_token_account").mint, s(x.key("base_mint"), x.token("input_token_account").mint)))]
    flows = [(inn, s(bv, qv), q.included, s(x.key("base_mint"), x.key("quote_mint")), payer),
             (s(qv, bv), out, q.output, s(x.key("quote_mint"), x.key("base_mint")), AUTHORITY)]
    given = x.present("referral_token_account")
    flows.append((ite(q.on_base, bv, qv), x.key("referral_token_account"), q.ref_fee,
                  ite(q.on_base, x.key("base_mint"), x.key("quote_mint")), AUTHORITY))
    g += moves(x, flows)
    g += [("the vaults are the pool's", b_and(eq(bv, x.key("base_vault")), eq(qv, x.key("quote_vault")))),
          ("the mints are the vaults' mints", b_and(eq(x.token("base_vault").mint, x.key("base_mint")),
                                                   eq(x.token("quote_vault").mint, x.key("quote_mint")))),
          ("the config is the pool's", eq(q.p.config, x.key("config"))),
          ("the payer signs", x.signer("payer"))]
    return g


def books(x, q):
    """the pool's fields after the swap"""
    p, e = q.p, q.e
    sell, base = q.sell, q.on_base
    out = q.moved_out()
    at, spr, va, vr = q.tracker1()
    quote1 = ite(sell, sub(p.quote_reserve, out), add(p.quote_reserve, q.excluded))
    done = ge(quote1, q.c.migration_quote_threshold)
    has, vest = q.vesting()
    z = lambda c, v: ite(c, v, 0)
    nb = b_not(base)
    ch = {"sqrt_price": q.next, "has_swap": 1,
          "base_reserve": ite(sell, add(p.base_reserve, q.excluded), sub(p.base_reserve, out)), "quote_reserve": quote1,
          "volatility_tracker.last_update_timestamp": at, "volatility_tracker.sqrt_price_reference": spr,
          "volatility_tracker.volatility_accumulator": va, "volatility_tracker.volatility_reference": vr,
          "migration_progress": ite(done, ite(has, 1, 2), p.migration_progress),
          "finish_curve_timestamp": ite(done, q.now, p.finish_curve_timestamp)}
    for side, c in (("base", base), ("quote", nb)):
        for who, v in (("protocol", q.protocol), ("partner", q.partner_part), ("creator", q.creator_part)):
            f = "%s_%s_fee" % (who, side)
            ch[f] = add(getattr(p, f), z(c, v))
        ch["metrics.total_protocol_%s_fee" % side] = add(getattr(p.metrics, "total_protocol_%s_fee" % side), z(c, q.protocol))
        ch["metrics.total_trading_%s_fee" % side] = add(getattr(p.metrics, "total_trading_%s_fee" % side), z(c, q.trading))
    g = frame(x, "pool", ch) + frame(x, "config")
    held = x.token_post("base_vault").amount
    p1 = x.post("pool")
    owed = add(add(p1.protocol_base_fee, p1.partner_base_fee), p1.creator_base_fee)
    g.append(("a completed curve leaves enough base tokens for migration, fees and vesting",
              b_implies(done, ge(held, add(add(q.c.migration_base_threshold, owed), vest)))))
    return g


def events(x, q):
    g = []
    evs = {}
    for c in x.st.events:
        if c.kind == "emit":
            evs.setdefault(c.name.split("::")[-1], []).append(View(x.e, c.value, c.ty))
    for v in evs.get("EvtSwap2", []):
        r = v.swap_result
        g.append(("the swap event reports the swap", b_and(
            eq(v.pool, x.key("pool")), eq(v.config, x.key("config")), eq(v.trade_direction, q.dir),
            eq(r.included_fee_input_amount, q.included), eq(r.excluded_fee_input_amount, q.excluded), eq(r.output_amount, q.output),
            eq(r.next_sqrt_price, q.next), eq(r.trading_fee, q.trading), eq(r.protocol_fee, q.protocol),
            eq(r.referral_fee, q.ref_fee), eq(v.current_timestamp, q.now), eq(r.amount_left, q.left),
            eq(v.migration_threshold, q.c.migration_quote_threshold), eq(v.quote_reserve_amount, x.post("pool").quote_reserve))))
    return g


def limits(x, q):
    g = [("the amount is not zero", gt(q.a0, 0)),
         ("the curve is not complete", lt(q.p.quote_reserve, q.c.migration_quote_threshold))]
    if q.m in (EXACT_IN, PARTIAL):
        g.append(("the trader gets at least the minimum", ge(q.output, q.a1)))
        g.append(("an exact-input swap takes the whole input", eq(q.included, q.a0)) if q.m == EXACT_IN else
                 ("a partial fill takes at most the input", le(q.included, q.a0)))
    else:
        g.append(("the trader gets exactly the wanted output", eq(q.output, q.a0)))
        g.append(("the trader pays at most the maximum", le(q.included, q.a1)))
    return g


def swap_hyp(x, q):
    """different accounts"""
    ks = [x.key("input_token_account"), x.key("output_token_account"), q.p.base_vault, q.p.quote_vault]
    h = distinct(x, *ks)
    for k in ks:
        h.append(ne(k, x.key("referral_token_account")))
    return h


def by_cases(x, mode, old):
    """the reference for every way the open conditions can fall"""
    todo = [{}]
    while todo:
        c = todo.pop()
        q = SwapRef(x, mode if old else None, c)
        q.m = mode
        q.next = None
        q.quote(mode)
        for n, _ in q.asked:
            if n not in c:
                todo.append({**{k: v for k, v in q.cases.items() if k in c or k == n}, n: False})
                c = {**c, n: True}
        yield q


def plain(x, q):
    """preferences for concrete cases, in order of trial: an ordinary pool, with the price in the middle or near an end of the curve"""
    p, c, v = q.p, q.c, q.p.volatility_tracker
    one = 1 << 64
    bf, d = c.pool_fees.base_fee, c.pool_fees.dynamic_fee
    curve = [c.curve[i] for i in range(20)]
    at = lambda i: (curve[i].sqrt_price, curve[i].liquidity)
    def world(u):
        return [eq(c.sqrt_start_price, u), eq(at(0)[0], 2 * u), eq(at(0)[1], 1 << 100), eq(at(1)[0], 4 * u), eq(at(1)[1], 1 << 99),
                eq(c.migration_sqrt_price, 3 * u)] + [eq(y, 0) for i in range(2, len(curve)) for y in at(i)]
    fees = [eq(bf.cliff_fee_numerator, 10_000_000)]
    dyn = [eq(d.bin_step, 1), eq(d.bin_step_u128, 1844674407370955), eq(d.filter_period, 10), eq(d.decay_period, 120),
           eq(d.reduction_factor, 5000), eq(d.max_volatility_accumulator, 14_460_000), eq(d.variable_fee_control, 956)]
    flat = [eq(bf.base_fee_mode, 0), eq(bf.first_factor, 0), eq(bf.second_factor, 0), eq(bf.third_factor, 0)]
    limiter = [eq(bf.base_fee_mode, 2), eq(bf.first_factor, 100), eq(bf.second_factor, 1000), eq(bf.third_factor, 100_000)]
    for u, amount in ((one, (1 << 30) + 12345), (one << 2, 123_457), (one >> 4, 123_457), (one, 123_457)):
        end = u + (1 << 40) if q.sell is True else 3 * u - (1 << 40) if q.sell is False else None
        mid = u + (u >> 1)
        for price in ([end] if q.cases.get("part") and end is not None else [mid] if u == one or end is None else [mid, end]):
            g = [world(u), [eq(p.sqrt_price, price)], [eq(q.a0, amount)], fees, flat, limiter, [eq(d.initialized, 0)], dyn,
                 [eq(v.sqrt_price_reference, one), eq(v.volatility_reference, 10000), eq(v.volatility_accumulator, 10000)],
                 [eq(c.creator_trading_fee_percentage, 30)],
                 [le(q.now, 1 << 33), le(q.point, 1 << 33)],
                 [ge(p.quote_reserve, 1 << 40), le(p.quote_reserve, 1 << 50), ge(c.migration_quote_threshold, 1 << 41)],
                 [ge(p.base_reserve, 1 << 50), le(p.base_reserve, 1 << 55)]]
            yield [[y for y in h if y is not True] for h in g]


def swap_paths(ctx, name, mode, coll, sell, goals, max_wit=1, pick=None):
    def assume(e, st, idx):
        k = View(e, clock_of(e, st), st.mty[("clock",)])
        return [ge(k.unix_timestamp, 0)]
    run = IxRun(ctx, name, "SwapCtx", extra=1, hooks=CONTRACTS + SUMMARIES + MERGED, assume=assume,
                fix=fixing(PoolConfig={"collect_fee_mode": coll}), mkargs=fixed_args(**({"swap_mode": mode} if name == "swap2" else {})))
    ctx.bound("one remaining account")
    n = wit = tried = bad = 0
    for x in run.oks():
        n += 1
        for q in by_cases(x, mode, name == "swap"):
            if q.next is None:
                ctx.obls.append({"name": "%s: walk" % name, "verdict": "undecided", "why": "the code asks for another curve walk than expected"})
                continue
            gs = goals(x, q)
            recs, ids = [], {}
            for r in [y for y in x.st.notes if isinstance(y, Rec)] + q.R.recs:
                if id(r.val) in ids:
                    recs[ids[id(r.val)]].cond = b_or(recs[ids[id(r.val)]].cond, r.cond)
                else:
                    ids[id(r.val)] = len(recs)
                    recs.append(r.under(True))
            recs.sort(key=lambda r: r.seq)

            def ref(conds, d, x=x, q=q, recs=recs):
                return refine(ctx.prog, x.e, list(conds) + transaction(x), recs, [([d] if d else []) + g for g in plain(x, q)], 15)
            hyp = swap_hyp(x, q) + q.R.hyps + [c for _, c in q.asked]
            k0 = sum(1 for o in ctx.obls if o["verdict"] != "proved")
            ctx.prove(x, [("%s mode %d: %s" % (name, mode, l), z) for l, z in gs], hyp=hyp, refine=ref)
            bad += sum(1 for o in ctx.obls[k0:] if o["verdict"] == "violated")
            if bad:
                return
            if wit < max_wit and tried < 3 * max_wit:
                tried += 1
                if ctx.witness(x, label="%s mode %d, accepting path %d" % (name, mode, n), extra=[bx(h) for h in hyp if h is not True],
                               refine=ref) == "sat":
                    wit += 1
    if not n:
        ctx.obls.append({"name": "%s: an accepting path exists" % name, "verdict": "undecided"})


INSTRUCTIONS = b58("Sysvar1nstructions1111111111111111111111111")


def asked(x, what):
    return [n[2] for n in x.st.notes if type(n) is tuple and n[0] == "arbitrary" and n[1] == what]


def transaction(x):
    """conditions on the remaining account, which lists the transaction's instructions when the path depends on them"""
    made, single = asked(x, "created_now"), asked(x, "single_swap")
    if not made and not single:
        return []

    def raw(c):
        k = lambda v: kb(c.ev(v))
        pool = k(x.key("pool"))
        ins = []
        if made and c.ev(made[0]) is True:
            ins.append(([bytes(32)] * 5 + [pool], sha8("global:initialize_virtual_pool_with_spl_token")))
        if single and c.ev(single[0]) is not True:
            ins.append(([bytes(32)] * 2 + [pool], sha8("global:swap2")))
        ins.append(([bytes(32)] * 2 + [pool], sha8("global:swap2")))
        body, offs = b"", []
        base = 2 + 2 * len(ins)
        for keys, data in ins:
            offs.append(base + len(body))
            body += len(keys).to_bytes(2, "little") + b"".join(b"\0" + y for y in keys) + kb(PROGRAM) \
                + len(data).to_bytes(2, "little") + data
        return len(ins).to_bytes(2, "little") + b"".join(o.to_bytes(2, "little") for o in offs) + body \
            + (len(ins) - 1).to_bytes(2, "little")
    x.st.mem[("acct", x.run.idx["rem0"], "rawbytes")] = raw
    return [eq(x.key("rem0"), INSTRUCTIONS)] + [b_implies(m, b_not(x.present("referral_token_account"))) for m in made]


def swap_tasks(goals):
    out = []
    for coll in (0, 1):
        for mode in (EXACT_IN, PARTIAL, EXACT_OUT):
            out.append(("swap2 mode %d collect %d" % (mode, coll),
                        lambda ctx, m=mode, c=coll: swap_paths(ctx, "swap2", m, c, None, goals)))
        out.append(("swap collect %d" % coll, lambda ctx, c=coll: swap_paths(ctx, "swap", EXACT_IN, c, None, goals)))
    return out


def fee_goals(x, q):
    """the fees of the swap: what is booked, what the referrer gets and what the trader gets and pays after fees"""
    g = [(l, c) for l, c in books(x, q) if re.search(r"\.(protocol|partner|creator|metrics\.total)_\w*fee", l)]
    return g + [(l, c) for l, c in movement(x, q) if l.startswith("flow")]
