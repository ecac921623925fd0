"""C03: one segment of the curve: amounts between prices and next prices are the constant-liquidity formulas."""
from .fnkit import *

UP, DOWN = 0, 1
K = "dynamic_bonding_curve::curve::"
IMPORT = "use ::dynamic_bonding_curve::curve::*; use ::dynamic_bonding_curve::math::u128x128_math::Rounding; "
RND = 'if a[3] == "0" { Rounding::Up } else { Rounding::Down }'
KERNELS = {}
for side in ("base", "quote"):
    for suf in ("", "_256", "_unchecked"):
        n = "get_delta_amount_%s_unsigned%s" % (side, suf)
        Funcs.table[n] = "%s res(%s(p(&a[0]), p(&a[1]), p(&a[2]), %s))" % (IMPORT, n, RND)
        KERNELS[n] = (side, 64 if suf == "" else 256)
NEXT = ["get_next_sqrt_price_from_quote_amount_out_rounding_down", "get_next_sqrt_price_from_base_amount_out_rounding_up",
        "get_next_sqrt_price_from_base_amount_in_rounding_up", "get_next_sqrt_price_from_quote_amount_in_rounding_down"]
for n in NEXT:
    Funcs.table[n] = "%s res(%s(p(&a[0]), p(&a[1]), p(&a[2])))" % (IMPORT, n)
for n in ("get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output"):
    Funcs.table[n] = '%s res(%s(p(&a[0]), p(&a[1]), p(&a[2]), a[3] == "1"))' % (IMPORT, n)
Funcs.table["get_initialize_amounts"] = '%s match get_initialize_amounts(p(&a[0]), p(&a[1]), p(&a[2]), p(&a[3])) { Ok((x, y)) => format!("ok {},{}", x, y), Err(_) => "err".to_string() }' % IMPORT


def rdiv(N, num, den, up):
    q, r = N.divmod(num, den)
    return add(q, ite(cmp("Gt", r, 0), 1, 0)) if up else q


def delta(N, side, lo, hi, liq, up):
    """(the amount, the intermediate products that must fit 256 bits)"""
    d = sub(hi, lo)
    d = T(ex(d), 0, U128)
    if side == "base":
        den = N.mul(lo, hi)
        return rdiv(N, N.mul(liq, d), T(ex(den), 1, U256), up)
    return rdiv(N, N.mul(liq, d), 1 << 128, up)


def delta_task(name):
    side, bits = KERNELS[name]

    def run(c):
        for up in (True, False):
            fx = Fx(c, K + name)
            lo, hi, liq = fx.u("lower", 128, 1), fx.u("upper", 128, 1), fx.u("liquidity", 128)
            ends = fx.run([lo, hi, liq, fx.enum(UP if up else DOWN)])
            v = delta(fx.N, side, lo, hi, liq, up)
            spec(c, "%s rounded %s" % (name, "up" if up else "down"), fx, ends,
                 lambda e: [("the constant-liquidity amount", b_and(le(lo, hi), eq(e.value, v)))],
                 lambda e: b_or(lt(hi, lo), gt(v, (1 << bits) - 1)), name, ["lower", "upper", "liquidity", UP if up else DOWN])
            # a zero price is refused for the base side
            if side == "base":
                for which in ("lower", "upper"):
                    fx = Fx(c, K + name)
                    lo, hi, liq = fx.u("lower", 128, 0, 0 if which == "lower" else None), fx.u("upper", 128, 0, 0 if which == "upper" else None), fx.u("liquidity", 128)
                    ends = fx.run([lo, hi, liq, fx.enum(UP if up else DOWN)])
                    for x in ends:
                        if x.kind == "ok":
                            prove_fn(c, fx, x, [("%s refuses a price of zero" % name, False)], replay_fn(name, fx, ["lower", "upper", "liquidity", 0 if up else 1]), None)
    return run


def next_price(N, which, p, liq, a):
    """(defined, the next price)"""
    if which == "quote_in":
        v = add(p, N.divmod(N.mul(a, 1 << 128), liq)[0])
        return True, v
    if which == "quote_out":
        v = sub(p, rdiv(N, N.mul(a, 1 << 128), liq, True))
        return ge(v, 0), v
    prod = N.mul(a, p)
    if which == "base_in":
        return True, rdiv(N, N.mul(liq, p), T(ex(add(liq, prod)), 1, U256), True)
    den = sub(liq, prod)
    return gt(den, 0), rdiv(N, N.mul(liq, p), T(ex(den), 1, U128), True)


SIDE = {NEXT[0]: "quote_out", NEXT[1]: "base_out", NEXT[2]: "base_in", NEXT[3]: "quote_in"}


def next_goals(N, which, p, liq, a, lab=""):
    dom, v = next_price(N, which, p, liq, a)

    def good(e):
        z = e.value
        return [("the formula's price, rounded in the pool's favour", b_and(dom, eq(z, v))),
                ("the price does not move the wrong way", ge(z, p) if which in ("quote_in", "base_out") else le(z, p))]
    return good, lambda e: b_or(b_not(dom), gt(v, U128), lt(v, 0))


def next_task(name):
    def run(c):
        fx = Fx(c, K + name)
        p, liq, a = fx.u("price", 128, 1), fx.u("liquidity", 128, 1), fx.u("amount", 64)
        ends = fx.run([p, liq, a])
        good, refuse = next_goals(fx.N, SIDE[name], p, liq, a)
        spec(c, name, fx, ends, good, refuse, name, ["price", "liquidity", "amount"], timeouts=(3, 20))
    return run


def dispatch_task(c):
    for name in ("get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output"):
        for base in (True, False):
            which = ("base_in" if base else "quote_in") if name.endswith("input") else ("quote_out" if base else "base_out")
            fx = Fx(c, K + name)
            p, liq, a = fx.u("price", 128), fx.u("liquidity", 128), fx.u("amount", 64)
            ends = fx.run([p, liq, a, base])
            pp, ll = T(p.e, 1, U128), T(liq.e, 1, U128)
            good, refuse = next_goals(fx.N, which, pp, ll, a)
            spec(c, "%s (%s)" % (name, "sell" if base else "buy"), fx, ends,
                 lambda e: [("price and liquidity are positive", b_and(gt(p, 0), gt(liq, 0)))] + good(e),
                 lambda e: b_or(eq(p, 0), eq(liq, 0), refuse(e)), name, ["price", "liquidity", "amount", 1 if base else 0], timeouts=(3, 20))


def init_task(c):
    fx = Fx(c, K + "get_initialize_amounts")
    mn, mx, p, liq = fx.u("min", 128, 1), fx.u("max", 128, 1), fx.u("price", 128, 1), fx.u("liquidity", 128)
    ends = fx.run([mn, mx, p, liq])
    N = fx.N
    b, q = delta(N, "base", p, mx, liq, True), delta(N, "quote", mn, p, liq, True)
    spec(c, "get_initialize_amounts", fx, ends,
         lambda e: [("both amounts rounded up", b_and(le(mn, p), le(p, mx), eq(e.view[0], b), eq(e.view[1], q)))],
         lambda e: b_or(gt(mn, p), gt(p, mx), gt(b, U64), gt(q, U64)), "get_initialize_amounts", ["min", "max", "price", "liquidity"])


def safe_task(which):
    """the rounded next price never lets the pool give more than the curve allows: the amounts of the move are paid for"""
    def run(c):
        from vkit import build
        name = next(n for n in NEXT if SIDE[n] == which)
        fx = Fx(c, K + name)
        p, liq, a = fx.u("price", 128, 1), fx.u("liquidity", 128, 1), fx.u("amount", 64)
        N = fx.N
        ends = fx.run([p, liq, a])

        def good(e):
            z = e.value
            zz = T(ex(z), 1, U128)
            if which == "quote_in":      # L (z - p) <= a 2^128 : the base paid out is no more than the input moves
                return [("the input covers the move", le(N.mul(liq, sub(z, p)), N.mul(a, 1 << 128)))]
            if which == "quote_out":     # L (p - z) >= a 2^128
                return [("the move covers the output", ge(N.mul(liq, sub(p, z)), N.mul(a, 1 << 128)))]
            if which == "base_in":       # a >= L (p - z) / (p z)
                return [("the input covers the move", le(N.mul(liq, p), N.mul(z, add(liq, N.mul(a, p)))))]
            return [("the move covers the output", le(N.mul(liq, p), N.mul(z, sub(liq, N.mul(a, p)))))]
        spec(c, "%s is safe" % name, fx, ends, good, None, name, ["price", "liquidity", "amount"], timeouts=(5, 30), witness=0)
    return run


def tasks():
    t = [(n, delta_task(n)) for n in KERNELS]
    t += [(n, next_task(n)) for n in NEXT]
    t += [("dispatch", dispatch_task), ("get_initialize_amounts", init_task)]
    t += [("safe " + w, safe_task(w)) for w in SIDE.values()]
    return t


META = {
    "level": "model_checking",
    "funcs": list(KERNELS) + NEXT + ["get_next_sqrt_price_from_input", "get_next_sqrt_price_from_output", "get_initialize_amounts"],
    "assumptions": ["the wide-integer operations of the ruint crate are exact (they are summarised, not executed)"],
    "bounds": ["none on the values: all 128-bit prices and liquidities and 64-bit amounts"],
}
