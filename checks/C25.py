"""C25: fixed-point kernels and checked arithmetic are exact."""
from .fnkit import *

UP, DOWN = 0, 1
M = "dynamic_bonding_curve::math::"
IMPORT = "use ::dynamic_bonding_curve::math::{safe_math::*, u128x128_math::*, utils_math::*, fee_math::*}; use ruint::aliases::{U256, U512}; "


def snip(name, body, ret="r"):
    Funcs.table[name] = "%s { let r = %s; %s(r) }" % (IMPORT, body, ret)


RND = 'if a[%d] == "0" { Rounding::Up } else { Rounding::Down }'
snip("mul_shr", "mul_shr(p(&a[0]), p(&a[1]), p(&a[2]))", "opt")
snip("shl_div", "shl_div(p(&a[0]), p(&a[1]), p(&a[2]), %s)" % (RND % 3), "opt")
snip("shl_div_256", "shl_div_256(p(&a[0]), p(&a[1]), p(&a[2]))", "opt")
snip("mul_div_u256", "mul_div_u256(p(&a[0]), p(&a[1]), p(&a[2]), %s)" % (RND % 3), "opt")
snip("mul_div_64", "safe_mul_div_cast_u64::<u64>(p(&a[0]), p(&a[1]), p(&a[2]), %s)" % (RND % 3), "res")
snip("mul_div_128", "safe_mul_div_cast_u128(p(&a[0]), p(&a[1]), p(&a[2]), %s)" % (RND % 3), "res")
snip("shl_div_cast", "safe_shl_div_cast::<u128>(p(&a[0]), p(&a[1]), p(&a[2]), %s)" % (RND % 3), "res")
snip("sqrt_u256", "sqrt_u256(p(&a[0]))", "opt")
snip("pow", "pow(p(&a[0]), p(&a[1]))", "opt")
snip("get_fee_in_period", "get_fee_in_period(p(&a[0]), p(&a[1]), p(&a[2]))", "res")
FUNCS = ["mul_shr", "shl_div", "shl_div_256", "mul_div_u256", "mul_div_64", "mul_div_128", "shl_div_cast", "sqrt_u256",
         "pow", "get_fee_in_period"]
TYPES = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i32": -32, "i64": -64, "i128": -128,
         "U256": 256, "U512": 512}
for ty in TYPES:
    for op in ("add", "sub", "mul", "div", "rem", "shl", "shr"):
        n = "safe_%s_%s" % (op, ty)
        ot = "p::<%s>" % ("usize" if ty.startswith("U") else "u32")
        if op in ("shl", "shr"):
            snip(n, "<%s as SafeMath<%s>>::safe_%s(p(&a[0]), %s(&a[1]))" % (ty, "usize" if ty.startswith("U") else "u32", op, ot), "res")
        else:
            snip(n, "<%s as SafeMath<%s>>::safe_%s(p(&a[0]), p(&a[1]))" % (ty, "usize" if ty.startswith("U") else "u32", op), "res")
        FUNCS.append(n)


def frac(N, num, den, up):
    q, r = N.divmod(num, den)
    return add(q, ite(cmp("Gt", r, 0), 1, 0)) if up else q


def shift_task(kind, lo, hi):
    """mul_shr, shl_div, shl_div_256, safe_shl_div_cast for every shift in a range"""
    def run(c):
        for k in range(lo, hi):
            for up in ((True, False) if kind in ("shl_div", "shl_div_cast") else (False,)):
                path = {"mul_shr": M + "u128x128_math::mul_shr", "shl_div": M + "u128x128_math::shl_div",
                        "shl_div_256": M + "u128x128_math::shl_div_256",
                        "shl_div_cast": M + "utils_math::safe_shl_div_cast::<u128>"}[kind]
                fx = Fx(c, path)
                x, y = fx.u("x", 128), fx.u("y", 128)
                args = [x, y, k]
                order = ["x", "y", k]
                if kind in ("shl_div", "shl_div_cast"):
                    args.append(fx.enum(UP if up else DOWN))
                    order.append(UP if up else DOWN)
                ends = fx.run(args)
                N = fx.N
                if kind == "mul_shr":
                    v, dom = frac(N, N.mul(x, y), 1 << k, False), True
                else:
                    yy = T(y.e, 1, y.hi)
                    v, dom = frac(N, N.mul(x, 1 << k), yy, up), ne(y, 0)
                top = U256 if kind == "shl_div_256" else U128
                # the shifted numerator is kept in 256 bits
                fits = b_and(le(v, top), True if kind == "mul_shr" else le(N.mul(x, 1 << k), U256))
                spec(c, "%s by %d %s" % (kind, k, "up" if up else "down"), fx, ends,
                     lambda e: [("the exact quotient", b_and(dom, eq(e.value, v)))],
                     lambda e: b_or(b_not(dom), b_not(fits)), kind, order, witness=1 if k in (0, 64, 128) else 0)
    return run


def muldiv_task(kind):
    def run(c):
        for up in (True, False):
            path, bits, wide = {"mul_div_u256": (M + "u128x128_math::mul_div_u256", 256, U512),
                                "mul_div_64": (M + "utils_math::safe_mul_div_cast_u64::<u64>", 64, U128),
                                "mul_div_128": (M + "utils_math::safe_mul_div_cast_u128", 128, U256)}[kind]
            fx = Fx(c, path)
            x, y, d = fx.u("x", bits), fx.u("y", bits), fx.u("d", bits)
            ends = fx.run([x, y, d, fx.enum(UP if up else DOWN)])
            N = fx.N
            v = frac(N, N.mul(x, y), T(d.e, 1, d.hi), up)
            # rounding up is computed as (x*y + d - 1) / d in the wide type
            wide_ok = le(add(N.mul(x, y), d), wide) if up and kind != "mul_div_u256" else True
            spec(c, "%s %s" % (kind, "up" if up else "down"), fx, ends,
                 lambda e: [("the exact quotient", b_and(ne(d, 0), eq(e.value, v)))],
                 lambda e: b_or(eq(d, 0), gt(v, (1 << bits) - 1), b_not(wide_ok)), kind, ["x", "y", "d", UP if up else DOWN])
    return run


def safe_task(tys):
    def run(c):
        for ty in tys:
            bits = TYPES[ty]
            signed = bits < 0
            w = abs(bits)
            full = {"U256": "ruint::Uint<256, 4>", "U512": "ruint::Uint<512, 8>"}.get(ty, ty)
            ot = "usize" if ty.startswith("U") else "u32"
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
            for op in ("add", "sub", "mul", "div", "rem", "shl", "shr"):
                name = "<%s as dynamic_bonding_curve::math::safe_math::SafeMath<%s>>::safe_%s" % (full, ot, op)
                shs = range(0, w) if op in ("shl", "shr") else [None]
                if signed and op in ("shl", "shr"):
                    continue
                for k in shs:
                    fx = Fx(c, name)
                    x = fx.i("x", w) if signed else fx.u("x", w)
                    if k is None:
                        y = fx.i("y", w) if signed else fx.u("y", w)
                    else:
                        y = k
                    ends = fx.run([x, y])
                    N = fx.N
                    dom = True
                    if op in ("add", "sub", "mul"):
                        v = {"add": add, "sub": sub, "mul": N.mul}[op](x, y)
                    elif op == "shr":
                        v = N.divmod(x, 1 << k)[0]
                        dom = k < w
                    elif op == "shl":
                        v = N.mul(x, 1 << k)
                        dom = k < w
                        if not ty.startswith("U"):
                            v = N.divmod(v, 1 << w)[1]
                    elif signed:
                        v = None
                    else:
                        dom = ne(y, 0)
                        q, r = N.divmod(x, T(y.e, 1, y.hi))
                        v = q if op == "div" else r
                    l = "%s safe_%s%s" % (ty, op, "" if k is None else " by %d" % k)
                    if v is None:
                        # signed quotient and remainder: x = q*y + r, |r| < |y|, r has the sign of x
                        def good(e, op=op):
                            if op == "div":
                                q = e.value
                                r = sub(x, N.mul(q, y))
                            else:
                                r = e.value
                                return [("smaller than the divisor, with the sign of the dividend",
                                         b_and(ne(y, 0), lt(r, ite(gt(y, 0), y, sub(0, y))), lt(sub(0, r), ite(gt(y, 0), y, sub(0, y))),
                                               b_or(eq(r, 0), b_iff(gt(r, 0), gt(x, 0)))))]
                            return [("the truncated quotient",
                                     b_and(ne(y, 0), lt(r, ite(gt(y, 0), y, sub(0, y))), lt(sub(0, r), ite(gt(y, 0), y, sub(0, y))),
                                           b_or(eq(r, 0), b_iff(gt(r, 0), gt(x, 0)))))]
                        ref = lambda e: b_or(eq(y, 0), b_and(eq(x, lo), eq(y, -1)))
                    else:
                        good = lambda e: [("the exact result", b_and(dom, ge(v, lo), le(v, hi), eq(e.value, v)))]
                        # U256/U512 right shifts refuse to drop set bits (ruint's checked_shr)
                        lossy = ne(N.divmod(x, 1 << k)[1], 0) if op == "shr" and ty.startswith("U") else False
                        ref = lambda e: b_or(b_not(dom), lt(v, lo), gt(v, hi), lossy)
                    spec(c, l, fx, ends, good, ref, "safe_%s_%s" % (op, ty), ["x", "y" if k is None else k],
                         witness=1 if k in (None, 7) else 0)
    return run


def pow_ref(N, base, exp):
    """binary powering of a 64.64 number, every product rounded down"""
    r, s = 1 << 64, base
    first = True
    while True:
        if exp & 1:
            r = N.divmod(N.mul(r, s), 1 << 64)[0]
        exp >>= 1
        if not exp:
            return r
        s = N.divmod(N.mul(s, s), 1 << 64)[0]


def pow_task(exps, neg=False):
    """powers of a base below one, as the fee schedule uses them, for each exponent"""
    def run(c):
        for n in exps:
            fx = Fx(c, M + "fee_math::pow")
            x = fx.u("base", 128, 1, (1 << 64) - 1)
            ends = fx.run([x, n])
            N = fx.N
            v = pow_ref(N, x, n)
            spec(c, "pow with exponent %d" % n, fx, ends, lambda e: [("the truncated power", eq(e.value, v))],
                 lambda e: eq(v, 0), "pow", ["base", n], witness=1 if n in (1, 5) else 0, timeouts=(3, 5))
    return run


def period_task(periods):
    """the fee of a period of the exponential schedule"""
    def run(c):
        for n in periods:
            fx = Fx(c, M + "fee_math::get_fee_in_period")
            cliff, red = fx.u("cliff", 64), fx.u("reduction", 64)
            ends = fx.run([cliff, red, n])
            N = fx.N
            bps = N.divmod(N.mul(red, 1 << 64), 10000)[0]
            base = sub(1 << 64, bps)
            dom = lt(red, 10000)
            v = N.divmod(N.mul(pow_ref(N, T(ex(base), 1, 1 << 64), n), cliff), 1 << 64)[0] if n else cliff
            hyp = [lt(red, 10000), gt(red, 0)]
            spec(c, "fee in period %d" % n, fx, ends, lambda e: [("the truncated fee", eq(e.value, v))],
                 lambda e: eq(pow_ref(N, T(ex(base), 1, 1 << 64), n), 0), "get_fee_in_period", ["cliff", "reduction", n], hyp=hyp,
                 witness=1 if n in (1, 5) else 0, timeouts=(3, 5))
    return run


def sqrt_task(windows, m):
    """integer square roots of every radicand in windows [A^2, (A + 2^m)^2)"""
    def run(c):
        for a in windows:
            fx = Fx(c, M + "utils_math::sqrt_u256", max_paths=20000)
            x = fx.u("x", 256, a * a, min((a + (1 << m)) ** 2 - 1, U256))
            ends = fx.run([x], deadline=200)
            N = fx.N
            spec(c, "sqrt from %d" % a, fx, ends,
                 lambda e: [("the integer square root", b_and(le(N.mul(e.value, e.value), x), lt(x, N.mul(add(e.value, 1), add(e.value, 1)))))],
                 lambda e: False, "sqrt_u256", ["x"])
    return run


def tasks():
    deep = TIER == "thorough"
    t = []
    for kind in ("mul_shr", "shl_div", "shl_div_256", "shl_div_cast"):
        for lo in range(0, 256, 64):
            t.append(("%s %d-%d" % (kind, lo, lo + 63), shift_task(kind, lo, lo + 64)))
    for kind in ("mul_div_u256", "mul_div_64", "mul_div_128"):
        t.append((kind, muldiv_task(kind)))
    for tys in (["u8", "u16", "i32"], ["u32", "i64"], ["u64", "i128"], ["u128"], ["usize"], ["U256"], ["U512"]):
        t.append(("checked " + " ".join(tys), safe_task(tys)))
    exps = list(range(1, 33)) + [2 ** k for k in range(6, 19)] + [2 ** k - 1 for k in range(6, 20)] + [100, 365, 1000, 10000, 43210, 65535]
    if deep:
        exps = sorted(set(exps) | set(range(1, 4096)) | set(range(4096, 65536, 61)))
    exps = sorted(set(exps))
    n = 16 if deep else 2
    for k in range(n):
        t.append(("pow %d" % k, pow_task(exps[k::n])))
        t.append(("period %d" % k, period_task([p for p in exps[k::n] if p < 65536])))
    ws = [0, 1 << 8, 1 << 16, (1 << 32) - (1 << 5), 0x123456789, 1 << 64, (1 << 96) + 0xABCDEF, 0xDEADBEEF << 70, (1 << 127) + 12345, (1 << 128) - (1 << 5)]
    m = 5
    if deep:
        ws = ws + [(1 << k) + 3 for k in range(9, 128)]
        m = 8
    for k in range(4):
        t.append(("sqrt %d" % k, sqrt_task(ws[k::4], m)))
    return t


META = {
    "level": "model_checking",
    "funcs": FUNCS,
    "assumptions": ["the wide-integer operations of the ruint crate are exact (they are summarised, not executed)"],
    "bounds": ["pow and get_fee_in_period: bases below one, the listed exponents (all 1..32, powers of two and one less, some larger; thorough: all below 4096 and every 61st below 65536)",
               "sqrt_u256: every radicand in the listed windows [A^2, (A+2^m)^2)",
               "products in 256 bits: a shifted numerator or x*y+d that does not fit its wide type may be refused"],
}
