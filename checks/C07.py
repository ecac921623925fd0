"""C07: the rate limiter charges larger buys the configured marginal rates."""
import re
import time

from vkit.sx import NOHOOK
from .feekit import *
from . import C06, C25
from . import swapkit as sk

RL = "dynamic_bonding_curve::base_fee::fee_rate_limiter::FeeRateLimiter::"
FUNCS = list(C06.FUNCS)


def snippet(name, body):
    Funcs.table[name] = USE + body
    FUNCS.append(name)


MKRL = ("let l = fee_rate_limiter::FeeRateLimiter { cliff_fee_numerator: p(&a[0]), fee_increment_bps: p(&a[1]), max_limiter_duration: p(&a[2]), "
        "reference_amount: p(&a[3]) }; ")
RES = '{ Ok(x) => format!("ok {}", x), Err(_) => "err".to_string() }'
snippet("limiter_included", MKRL + "match l.get_fee_numerator_from_included_fee_amount(p(&a[4])) " + RES)
snippet("limiter_excluded", MKRL + "match l.get_fee_numerator_from_excluded_fee_amount(p(&a[4])) " + RES)


def sqrt_hook(e, st, fn, a, t):
    return E(1, {1: (e.N.isqrt(a[0]),)})


SQRT = (re.compile(r"utils_math::sqrt_u256$"), sqrt_hook)


def limiter(fx, lo=None):
    tid = fx.prog.adt("FeeRateLimiter")
    v = fx.struct(tid, "rl", **(lo or {}))
    fx.note_inputs(v, tid)
    return v, tid, View(fx.e, v, tid)


RLF = ["cliff_fee_numerator", "fee_increment_bps", "max_limiter_duration", "reference_amount"]


def rate_ref(N, l, i, mi, a):
    """(defined, rate) of an input amount, by the marginal definition"""
    x0 = T(ex(l.reference_amount), 1, U64) if not isinstance(l.reference_amount, int) else l.reference_amount
    r, t = limiter_rate(N, l.cliff_fee_numerator, i, mi, x0, a)
    return b_or(le(a, l.reference_amount), b_and(le(t, U64), le(r, U64))), r


def allowed(l):
    """configurations accepted at creation"""
    return [ge(l.cliff_fee_numerator, 2_500_000), le(l.cliff_fee_numerator, MAXF), ge(l.fee_increment_bps, 1), lt(l.fee_increment_bps, 10000),
            ge(l.reference_amount, 1), ge(l.max_limiter_duration, 1)]


TRY = {"rl.cliff_fee_numerator": [10_000_000, 2_500_000, 500_000_000], "rl.fee_increment_bps": [100, 1, 1000, 3000],
       "rl.reference_amount": [1_000_000, 1000, 10 ** 9, 7], "rl.max_limiter_duration": [600],
       "amount": [500, 1_000_000, 1_000_001, 1_500_000, 3_456_789, 12_345_678, 99_999_999, 10 ** 10]}


def included_task(c):
    fx = Fx(c, RL + "get_fee_numerator_from_included_fee_amount")
    v, tid, l = limiter(fx)
    a = fx.u("amount", 64)
    N = fx.N
    hyp = allowed(l)
    ends = fx.run([fx.ref(v, tid), a], pre=hyp)
    i, mi = limiter_parts(N, l.cliff_fee_numerator, l.fee_increment_bps, l.reference_amount)
    ok, r = rate_ref(N, l, i, mi, a)
    spec(c, "rate of an input amount", fx, ends,
         lambda e: [("the marginal fees of the parts, as a rate rounded up", b_and(ok, eq(e.value, r)))],
         lambda e: b_not(ok), "limiter_included", [getattr(l, n) for n in RLF] + ["amount"], TRY)


def total_task(kind):
    def run(c):
        fx, b, d, t, point, act, amount, dr, args, order = C06.setup(c, kind, 2, [SQRT, RATE[kind]])
        ends = fx.run(args)
        fits, var = C06.with_variable(fx, d, t)
        zero = b_and(eq(b.third_factor, 0), eq(b.second_factor, 0), eq(b.first_factor, 0))
        on = b_and(b_not(zero), eq(dr, 1), le(point, add(act, b.second_factor)))

        def goals(e):
            rs = [r for r in e.st.notes if isinstance(r, sk.Rec)]
            if not rs:
                return [("the base rate outside its duration, on sells and without a limiter",
                         b_and(b_not(on), eq(e.value, C06.capped(b.cliff_fee_numerator, var))))]
            r = rs[-1]
            lv = View(e.e, r.args[0][0], r.args[0][1])
            return [("the limiter of the configuration, within its duration and on buys",
                     b_and(on, eq(lv.cliff_fee_numerator, b.cliff_fee_numerator), eq(lv.fee_increment_bps, b.first_factor),
                           eq(lv.max_limiter_duration, b.second_factor), eq(lv.reference_amount, b.third_factor), eq(r.args[1][0], amount))),
                    ("with the variable rate, capped", eq(e.value, C06.capped(r.val, var)))]

        def rf(x):
            rs = [r for r in x.st.notes if isinstance(r, sk.Rec)]
            cfg = [eq(b.cliff_fee_numerator, 10_000_000), eq(b.first_factor, 100), eq(b.second_factor, 600), eq(b.third_factor, 1_000_000)]
            pref = [[cfg, [eq(amount, am)], [eq(act, 1000), eq(point, pt)], [eq(d.initialized, 0)]]
                    for am in (3_456_789, 999_999, 1_234) for pt in (1300, 1600, 1601, 7000)]
            return lambda conds, dk: C06.complete(fx.prog, fx.e, conds, rs, pref, 15)
        spec(c, "total rate with a limiter, %s" % kind, fx, ends, goals, lambda e: b_not(fits), "total_rate_" + kind, order, refine=rf)
    return run


RATE = {k: sk.contract(r"FeeRateLimiter::get_fee_numerator_from_%s_fee_amount$" % k, "limiter_rate") for k in ("included", "excluded")}


def net(N, l, i, mi, a):
    """(defined, what is left of an input after its fee)"""
    ok, r = rate_ref(N, l, i, mi, a)
    f = fee_of(N, r, a)
    return b_and(ok, le(f, a)), sub(a, f)


def rate_hook(e, st, fn, a, t):
    """the rate of an input amount, as proved by the task above"""
    try:
        l = View(e, e.load(a[0]), a[0].ty)
        i, mi = limiter_parts(e.N, l.cliff_fee_numerator, l.fee_increment_bps, l.reference_amount)
        ok, r = rate_ref(e.N, l, i, mi, a[1])
    except (AttributeError, KeyError, Unsupported):
        return NOHOOK
    e.assume(st, bx(ok))
    return E(0, {0: (r,)})


RATE_OF = (re.compile(r"FeeRateLimiter::get_fee_numerator_from_included_fee_amount$"), rate_hook)


def inverse(N, l, y):
    """(case, condition, defined, rate) for a wanted amount after fees"""
    c, x0 = l.cliff_fee_numerator, l.reference_amount
    i, mi = limiter_parts(N, c, l.fee_increment_bps, x0)
    i = T(ex(i), 1, D) if isinstance(i, T) else i
    x1 = T(ex(x0), 1, U64) if isinstance(x0, T) else x0
    ok0, n0 = net(N, l, i, mi, x0)
    yield "first part", b_and(ok0, le(y, n0)), True, c
    top = N.mul(add(mi, 1), x0)

    def rate(inp):
        inp = T(ex(inp), 1, U64)
        tf = sub(inp, y)
        r = ceil_frac(N, T(ex(tf), 0, U64), D, inp)
        return b_and(ge(tf, 0), le(r, U64), ge(r, c)), r
    for big in (False, True):
        last = U64 if big else T(ex(top), 1, U64) if isinstance(top, T) else top
        here = b_and(ok0, gt(y, n0), gt(top, U64) if big else le(top, U64))
        okl, nl = net(N, l, i, mi, last)
        okr, rl = rate_ref(N, l, i, mi, last)
        yield "exactly the last part", b_and(here, okl, eq(y, nl)), okr, rl
        # above the last part
        v2 = included(N, MAXF, T(ex(sub(y, nl)), 0, U64))
        in2 = add(last, v2)
        ok3, r = rate(in2)
        yield "after the last part", b_and(here, okl, gt(y, nl)), b_and(not big, le(v2, U64), le(in2, U64), ok3), r
        # between: the quadratic
        yy = sub(add(N.mul(N.mul(2, D), x0), N.mul(i, x0)), N.mul(N.mul(2, c), x0))
        z = N.mul(N.mul(N.mul(2, y), D), x0)
        disc = sub(N.mul(yy, yy), N.mul(N.mul(4, i), z))
        s = N.isqrt(T(ex(disc), 0, disc.hi) if isinstance(disc, T) else disc)
        first = N.divmod(sub(yy, s), T(ex(N.mul(2, i)), 1, None) if isinstance(i, T) else 2 * i)[0]
        a1 = N.divmod(first, x1)[0]
        okf, nf = net(N, l, i, mi, first)
        r1 = add(c, N.mul(i, a1))
        v1 = included(N, r1, T(ex(sub(y, nf)), 0, U64))
        in1 = add(first, v1)
        ok3, r = rate(in1)
        yield "between", b_and(here, okl, lt(y, nl)), b_and(ge(disc, 0), ge(yy, s), okf, ge(y, nf), lt(r1, D), le(first, U64), le(v1, U64),
                                                          le(in1, U64), ok3), r


def excluded_task(cfg):
    """the inverse: the rate for a wanted amount after fees"""
    def run(c):
        fx = Fx(c, RL + "get_fee_numerator_from_excluded_fee_amount", hooks=[SQRT, RATE_OF] + sk.SUMMARIES[:2])
        v, tid, l = limiter(fx, cfg)
        y = fx.u("amount", 64)
        N = fx.N
        ends = fx.run([fx.ref(v, tid), y], pre=allowed(l), deadline=200)
        rp = replay_fn("limiter_excluded", fx, [getattr(l, n) for n in RLF] + ["amount"])
        seen = set()
        for e in ends:
            for name, cond, ok, r in inverse(N, l, y):
                hyp = [cond] if e.okc is True else [cond, e.okc]
                if c.solve(N, list(e.st.pc) + [bx(h) for h in hyp], True, (1, 1), cvc5=False)[0] == "unsat":
                    continue
                if e.kind == "ok":
                    good = prove_fn(c, fx, e, [("rate of a wanted amount: " + name, eq(e.value, r))], rp, TRY, hyp=hyp)
                    if good and name not in seen and c.witness(e, fx.e, name, replay=rp, extra=hyp, timeouts=(3, 3)) == "sat":
                        seen.add(name)
                else:
                    prove_fn(c, fx, e, [("rate of a wanted amount: refused only where it must be, " + name, b_not(ok))], rp, TRY, hyp=[cond])
    return run


def tasks():
    t = [("rate of an input", included_task), ("rate of a wanted amount", excluded_task({}))]
    for k in ("included", "excluded"):
        t.append(("total rate " + k, total_task(k)))
    t.append(("lowest rate", C06.min_task))
    t.append(("square root", C25.sqrt_task([0, 1 << 16, (1 << 64) + 77, (1 << 100) + 12345], 5)))
    sw = dict(sk.swap_tasks(sk.fee_goals))
    return t + [(k, sw[k]) for k in ("swap2 mode 0 collect 0", "swap2 mode 2 collect 0")]


META = {"level": "model_checking", "funcs": FUNCS + ["get_fee_in_period", "sqrt_u256"],
        "assumptions": sk.SWAP_ASSUME + ["the square root of the inverse is the integer square root (decided within bounds by C25)"],
        "bounds": ["configurations as accepted at creation (increment 1..9999 basis points, reference amount and duration not zero, base rate within the limits); all amounts, times and volatility data"]}
