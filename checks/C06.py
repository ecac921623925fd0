"""C06: base fee schedules decay exactly as configured and never leave the limits."""
from vkit.refine import refine as complete
from .feekit import *
from . import C25
from . import swapkit as sk

TOTAL = CFG + "get_total_fee_numerator_from_%s_fee_amount"
FUNCS = []


def snippet(name, body):
    Funcs.table[name] = USE + body
    FUNCS.append(name)


for k in ("included", "excluded"):
    snippet("total_rate_" + k, MKFEES + MKTRK + "match c.get_total_fee_numerator_from_%s_fee_amount(&t, p(&a[17]), p(&a[18]), p(&a[19]), dir(&a[20])) "
            '{ Ok(x) => format!("ok {}", x), Err(_) => "err".to_string() }' % k)
snippet("min_base_rate", MKFEES + 'match c.get_min_base_fee_numerator() { Ok(x) => format!("ok {}", x), Err(_) => "err".to_string() }')


def period_of(N, b, point, act):
    """(defined, whole periods since activation, capped)"""
    f = b.second_factor
    f1 = T(ex(f), 1, U64)
    q = N.divmod(T(ex(sub(point, act)), 0, U64), f1)[0]
    return ge(point, act), ite(lt(q, b.first_factor), q, b.first_factor)


def linear(N, b, period):
    d = N.mul(b.third_factor, period)
    return b_and(le(d, U64), le(d, b.cliff_fee_numerator)), sub(b.cliff_fee_numerator, d)


def setup(c, kind, mode, hooks=(), dyn=None):
    fx = Fx(c, TOTAL % kind, hooks=hooks)
    v, tid, b, d = pool_fees(fx, mode, dyn)
    tv, tt, t = tracker(fx)
    point, act, amount = fx.u("point", 64), fx.u("activation", 64), fx.u("amount", 64)
    dr = fx.u("direction", 8, 0, 1)
    order = order_fees(b, d) + order_trk(t) + ["point", "activation", "amount", "direction"]
    args = [fx.ref(v, tid), fx.ref(tv, tt), point, act, amount, fx.enum(dr)]
    return fx, b, d, t, point, act, amount, dr, args, order


def capped(base, var):
    s = add(base, var)
    return ite(gt(s, MAXF), MAXF, s)


def with_variable(fx, d, t):
    fits, var = variable(fx.N, d, t)
    on = ne(d.initialized, 0)
    return b_or(b_not(on), fits), ite(on, var, 0)


def linear_task(kind):
    def run(c):
        fx, b, d, t, point, act, amount, dr, args, order = setup(c, kind, 0)
        N = fx.N
        ends = fx.run(args)
        fits, var = with_variable(fx, d, t)
        started, per = period_of(N, b, point, act)
        lok, lin = linear(N, b, per)
        flat = eq(b.second_factor, 0)
        base = ite(flat, b.cliff_fee_numerator, lin)
        spec(c, "linear schedule, %s" % kind, fx, ends,
             lambda e: [("the starting rate less the reduction of every whole period, plus the variable rate, capped", eq(e.value, capped(base, var))),
                        ("never above the maximum", le(e.value, MAXF)),
                        ("never above the starting rate plus the variable rate", le(e.value, add(b.cliff_fee_numerator, var)))],
             lambda e: b_or(b_not(fits), b_and(b_not(flat), b_or(b_not(started), b_not(lok))), gt(add(base, var), U128)), "total_rate_" + kind, order)
    return run


PERIOD = sk.contract(r"fee_math::get_fee_in_period$", "fee_in_period",
                     lambda e, args, v, okty, a: [le(v, args[0])])


def expo_task(kind):
    def run(c):
        fx, b, d, t, point, act, amount, dr, args, order = setup(c, kind, 1, [PERIOD])
        N = fx.N
        ends = fx.run(args)
        fits, var = with_variable(fx, d, t)
        started, per = period_of(N, b, point, act)
        flat = eq(b.second_factor, 0)

        def goals(e):
            rs = [r for r in e.st.notes if isinstance(r, sk.Rec)]
            if not rs:
                return [("the starting rate when the schedule is flat", b_and(flat, eq(e.value, capped(b.cliff_fee_numerator, var))))]
            r = rs[-1]
            x = [y for y, _, _ in r.leaves] if False else [y for y, _, _ in r.args]
            return [("the rate of the whole periods elapsed", b_and(b_not(flat), started, eq(x[0], b.cliff_fee_numerator), eq(x[1], b.third_factor), eq(x[2], per))),
                    ("with the variable rate, capped", eq(e.value, capped(r.val, var)))]

        def rf(x):
            rs = [r for r in x.st.notes if isinstance(r, sk.Rec)]
            pref = [[[eq(b.cliff_fee_numerator, 500_000_000), eq(b.third_factor, 800), eq(b.first_factor, 12), eq(b.second_factor, 60)],
                     [eq(act, 1000), eq(point, 1300)], [eq(d.initialized, 0)]],
                    [[eq(b.cliff_fee_numerator, 500_000_000), eq(b.third_factor, 800), eq(b.first_factor, 12), eq(b.second_factor, 60)],
                     [eq(act, 1000), eq(point, 9999)], [eq(d.initialized, 0)]]]
            return lambda conds, dk: complete(fx.prog, fx.e, conds, rs, pref, 15)
        spec(c, "exponential schedule, %s" % kind, fx, ends, goals,
             lambda e: b_or(b_not(fits), b_and(b_not(flat), b_not(started))), "total_rate_" + kind, order, refine=rf)
    return run


def limits_task(c):
    # modes that do not exist are refused
    for kind in ("included", "excluded"):
        fx, b, d, t, point, act, amount, dr, args, order = setup(c, kind, None)
        fx.st.pc.append(bx(gt(b.base_fee_mode, 2)))
        ends = fx.run(args)
        if not any(e.kind == "ok" for e in ends):
            c.obls.append({"name": "unknown fee modes are refused", "verdict": "proved", "by": "no path returns a rate"})
        for e in ends:
            if e.kind == "ok":
                prove_fn(c, fx, e, [("unknown fee modes are refused", b_not(e.okc))], replay_fn("total_rate_" + kind, fx, order), None)


def min_task(c):
    fx = Fx(c, CFG + "get_min_base_fee_numerator", hooks=[PERIOD])
    v, tid, b, d = pool_fees(fx)
    ends = fx.run([fx.ref(v, tid)])
    lok, lin = linear(fx.N, b, b.first_factor)

    def goals(e):
        rs = [r for r in e.st.notes if isinstance(r, sk.Rec)]
        if rs:
            x = [y for y, _, _ in rs[-1].args]
            return [("the lowest rate of an exponential schedule is that of its last period",
                     b_and(eq(b.base_fee_mode, 1), eq(x[0], b.cliff_fee_numerator), eq(x[1], b.third_factor), eq(x[2], b.first_factor), eq(e.value, rs[-1].val)))]
        return [("the lowest rate", eq(e.value, ite(eq(b.base_fee_mode, 0), lin, b.cliff_fee_numerator)))]

    def rf(x):
        rs = [r for r in x.st.notes if isinstance(r, sk.Rec)]
        return lambda conds, dk: complete(fx.prog, fx.e, conds, rs, [[[eq(b.cliff_fee_numerator, 500_000_000), eq(b.third_factor, 800), eq(b.first_factor, 12), eq(b.second_factor, 60)]]], 15)
    spec(c, "lowest base rate", fx, ends, goals,
         lambda e: b_or(gt(b.base_fee_mode, 2), b_and(eq(b.base_fee_mode, 0), b_not(lok))), "min_base_rate",
         order_fees(b, d), refine=rf)


def fee_period(periods):
    def run(c):
        C25.period_task(periods)(c)
        for n in periods:
            fx = Fx(c, "dynamic_bonding_curve::math::fee_math::get_fee_in_period")
            cliff, red = fx.u("cliff", 64), fx.u("reduction", 64, 1, 9999)
            for e in fx.run([cliff, red, n]):
                if e.kind == "ok":
                    prove_fn(c, fx, e, [("fee in period %d: never above the starting rate" % n, le(e.value, cliff))],
                             replay_fn("get_fee_in_period", fx, ["cliff", "reduction", n]), None)
    return run


def swap_rate(x, q):
    return sk.fee_goals(x, q)


def tasks():
    t = []
    for k in ("included", "excluded"):
        t += [("linear " + k, linear_task(k)), ("exponential " + k, expo_task(k))]
    t += [("limits", limits_task), ("lowest rate", min_task)]
    ps = [1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 60, 100, 144, 365, 1000, 1440, 10000, 43210, 65535]
    if TIER == "thorough":
        ps = sorted(set(ps) | set(range(1, 1025)) | set(range(1025, 65536, 251)))
    n = 8 if TIER == "thorough" else 2
    for k in range(n):
        t.append(("fee in period %d" % k, fee_period(ps[k::n])))
    sw = dict(sk.swap_tasks(swap_rate))
    return t + [(k, sw[k]) for k in ("swap2 mode 0 collect 0", "swap2 mode 2 collect 1")]


META = {"level": "model_checking", "funcs": FUNCS + ["get_fee_in_period"], "assumptions": sk.SWAP_ASSUME,
        "bounds": ["linear schedule and total rate: all configurations, times and volatility data",
                   "exponential schedule: the period passed to the power is decided for all configurations; the power itself for the listed periods (all reductions below 100 % and all starting rates)"]}
