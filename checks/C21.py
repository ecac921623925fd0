"""C21: what a migration to the second-generation pool takes, deposits, charges and burns."""
from .feekit import *
from . import C03, C19
from .C07 import SQRT
from .C19 import PC, U128, VP, check, config, items, item, shown

MH = "dynamic_bonding_curve::migration_handler::"
TR = " as dynamic_bonding_curve::migration_handler::MigrationHandler>::"
CP = "<" + MH + "compounding_liquidity::CompoundingLiquidity" + TR
CL = "<" + MH + "concentrated_liquidity::ConcentratedLiquidity" + TR
MIN, MAX = 4295048016, 79226673521066979257578248091
DEAD = 100 << 64
FUNCS = list(C19.FUNCS)
USE21 = USE + "use ::dynamic_bonding_curve::damm_v2_utils::*; use ::dynamic_bonding_curve::migration_handler::*; "
META = {"assumptions": ["functions are taken one by one, as the migration uses them; the accounts of the migration and the calls it makes are outside: "
                        "its module is not part of the native build, so that no counterexample in it could be run"]}


def snippet(name, body):
    Funcs.table[name] = USE21 + body
    FUNCS.append(name)


ERR = 'Err(_) => "err".to_string() }'
PAIR = '{ Ok(x) => format!("ok {},{}", x.0, x.1), ' + ERR
ONE = '{ Ok(x) => format!("ok {}", x), ' + ERR
for k, t in (("cp", "CompoundingLiquidity"), ("cl", "ConcentratedLiquidity")):
    H = "let h = %s { migration_sqrt_price: p(&a[0]) }; " % t
    snippet(k + "_initial", H + 'match MigrationHandler::get_initial_pool_information(&h, p(&a[1]), p(&a[2])) '
            '{ Ok(x) => format!("ok {},{},{}", x.sqrt_price, x.distributable_liquidity, x.dead_liquidity), ' + ERR)
    snippet(k + "_fees", H + "match MigrationHandler::get_migration_protocol_fees(&h, p(&a[1]), p(&a[2]), p(&a[3])) " + PAIR)
    snippet(k + "_delta", H + "match MigrationHandler::calculate_liquidity_delta(&h, p(&a[1]), p(&a[2]), p(&a[3]), p(&a[4]), p(&a[5])) " + ONE)
    snippet(k + "_amounts_1", H + "match MigrationHandler::get_included_protocol_fee_migration_amounts_1(&h, p(&a[1]), p(&a[2])) " + PAIR)
    snippet(k + "_amounts_2", H + "match MigrationHandler::get_included_protocol_fee_migration_amounts_2(&h, p(&a[1]), p(&a[2]), p(&a[3]), p(&a[4])) " + PAIR)
snippet("cp_valid", 'match CompoundingLiquidity::validate_initial_pool_information(p(&a[0]), p(&a[1]), p(&a[2])) { Ok(_) => "ok".to_string(), ' + ERR)
snippet("quote_amount", 'match PoolConfig::get_migration_quote_amount(p(&a[0]), p(&a[1])) { Ok(x) => format!("ok {},{}", x.quote_amount, x.fee), ' + ERR)
snippet("fee_mode", "let m = [MigratedCollectFeeMode::QuoteToken, MigratedCollectFeeMode::OutputToken, MigratedCollectFeeMode::Compounding][p::<usize>(&a[0])]; "
        "match m.to_dammv2_collect_fee_mode() " + ONE)
snippet("handler", "let m = [MigratedCollectFeeMode::QuoteToken, MigratedCollectFeeMode::OutputToken, MigratedCollectFeeMode::Compounding][p::<usize>(&a[1])]; "
        'let o = if a[0] == "0" { MigrationOption::MeteoraDamm } else { MigrationOption::DammV2 }; '
        'match get_migration_handler(o, m, 1u128 << 64).get_included_protocol_fee_migration_amounts_2(7, 100, 0, 9) { Ok(x) => format!("ok {}", x.0), ' + ERR)
snippet("burnable", "let mut c = PoolConfig::default(); c.fixed_token_supply_flag = p(&a[0]); c.pre_migration_token_supply = p(&a[1]); "
        "c.post_migration_token_supply = p(&a[2]); match c.get_burnable_amount_post_migration(p(&a[3])) " + ONE)
snippet("dynamic_params", 'match calculate_dynamic_fee_params(p(&a[0])) { Ok(x) => format!("ok {},{},{},{},{},{},{}", x.bin_step, x.bin_step_u128, x.filter_period, '
        "x.decay_period, x.reduction_factor, x.max_volatility_accumulator, x.variable_fee_control), " + ERR)
OPT = "[" + ", ".join("MigrationFeeOption::" + o for o in ("FixedBps25", "FixedBps30", "FixedBps100", "FixedBps200", "FixedBps400", "FixedBps600", "Customizable")) + "]"
snippet("base_fee_option", "let o = %s; match o[p::<usize>(&a[0])].validate_base_fee(p(&a[1])) { Ok(_) => \"ok\".to_string(), " % OPT + ERR)
snippet("fee_params", "let mut c = PoolConfig::default(); c.migrated_pool_fee_bps = p(&a[0]); c.migrated_pool_base_fee_mode = p(&a[1]); c.migrated_dynamic_fee = p(&a[2]); "
        "c.migrated_compounding_fee_bps = p(&a[3]); match c.build_damm_v2_pool_fee_params() { Ok(x) => format!(\"ok {},{},{},{}\", x.base_fee.data.iter().map(|b| b.to_string())"
        ".collect::<Vec<_>>().join(\",\"), x.dynamic_fee.map(|d| d.variable_fee_control.to_string()).unwrap_or(\"none\".to_string()), x.compounding_fee_bps, x.padding), " + ERR)
META["funcs"] = FUNCS


def pos(N, t, hi):
    return T(ex(t), 1, hi) if isinstance(t, T) else t


def quote_of(N, thr, pct):
    q = ceil_frac(N, thr, sub(100, pct), 100)
    return T(ex(q), 0, U64)


def handler(fx, suffix, price):
    tid = fx.prog.adt(MH + suffix)
    v = fx.struct(tid, "h", migration_sqrt_price=price)
    return fx.ref(v, tid)


def setup(c, side, method, lo=None, hi=None, hooks=()):
    fx = Fx(c, (CP if side == "cp" else CL) + method, hooks=list(hooks))
    price = fx.u("price", 128, MIN if lo is None else lo, MAX if hi is None else hi)
    h = handler(fx, "compounding_liquidity::CompoundingLiquidity" if side == "cp" else "concentrated_liquidity::ConcentratedLiquidity", price)
    return fx, price, h


PRICES = [1 << 64, MIN, MIN + 1, MAX, MAX - 1, (1 << 64) * 3 + 7, 1 << 50, 1 << 90]
EX = {"price": PRICES, "base": [10 ** 15, 1, 10 ** 6 + 1, U64], "quote": [10 ** 12, 1, 10 ** 9 + 7, U64], "bps": [20, 0, 10000, 65535],
      "threshold": [10 ** 11, 1, 101, U64], "pct": [0, 1, 50, 99, 100, 101]}


def quote_amount_task(c):
    fx = Fx(c, PC + "::get_migration_quote_amount")
    thr, pct = fx.u("threshold", 64), fx.u("pct", 8)
    ends = fx.run([thr, pct])
    q = quote_of(fx.N, thr, pct)

    def goals(x):
        return [("the part above the migration fee, rounded up", b_and(le(pct, 100), eq(x.view.quote_amount, q))),
                ("amount and fee add up to the threshold", eq(add(x.view.quote_amount, x.view.fee), thr))]
    check(c, "quote amount", fx, ends, goals, lambda x: gt(pct, 100), "quote_amount", ["threshold", "pct"], lambda x: [x.view.quote_amount, x.view.fee], EX)


def root(e, st, fn, a, t):
    """a square root about which nothing is known but that it is the same for the same argument"""
    return E(1, {1: (some_root(e.N, a[0]),)})


def some_root(N, x):
    k = ("some root",) + N.key(x)
    if k not in N.cse:
        N.n += 1
        N.cse[k] = N.named("root#%d" % N.n, 0, U128)
    return N.cse[k]


ROOT = (SQRT[0], root)


def initial_cp(N, base, quote, isqrt=None):
    """(defined, price rounded up, liquidity)"""
    b = pos(N, base, U64)
    sh = N.mul(quote, 1 << 128)
    q, r = N.divmod(sh, b)
    isqrt = isqrt or N.isqrt
    s1 = isqrt(add(q, ite(eq(r, 0), 0, 1)))
    s2 = isqrt(q)
    liq = N.mul(s2, base)
    return s1, s2, liq


def cp_initial_task(c):
    fx, price, h = setup(c, "cp", "get_initial_pool_information", hooks=[SQRT])
    base, quote = fx.u("base", 64), fx.u("quote", 64)
    ends = fx.run([h, base, quote])
    N = fx.N
    s1, s2, liq = initial_cp(N, base, quote)

    def goals(x):
        v = x.view
        return [("the price of the deposit, rounded up", eq(v.sqrt_price, s1)), ("within the range of prices", b_and(ge(s1, MIN), le(s1, MAX))),
                ("a part stays in the pool for ever", eq(v.dead_liquidity, DEAD)),
                ("the liquidity of the deposit, less that part", eq(v.distributable_liquidity, sub(liq, DEAD))), ("there were base tokens", ge(base, 1))]
    check(c, "pool of compounding fees", fx, ends, goals, lambda x: b_or(eq(base, 0), lt(s1, MIN), gt(s1, MAX), gt(liq, U128), lt(liq, DEAD)),
          "cp_initial", ["price", "base", "quote"], lambda x: [x.view.sqrt_price, x.view.distributable_liquidity, x.view.dead_liquidity], EX)


def cp_valid_task(c):
    """accepted only when the price of the deposit is within 1 % of the curve's; first without what a square root is"""
    n = len(c.obls)
    valid(c, True)
    if any(o["verdict"] != "proved" for o in c.obls[n:]):
        del c.obls[n:]
        valid(c, False)


def valid(c, opaque):
    fx = Fx(c, MH + "compounding_liquidity::CompoundingLiquidity::validate_initial_pool_information", hooks=[ROOT if opaque else SQRT])
    base, quote, price = fx.u("base", 64), fx.u("quote", 64), fx.u("price", 128)
    ends = fx.run([base, quote, price])
    N = fx.N
    s1, s2, liq = initial_cp(N, base, quote, (lambda x: some_root(N, x)) if opaque else None)
    high = ge(price, s1)
    near = b_and(b_implies(high, le(N.mul(price, 99), N.mul(s1, 100))), b_implies(b_not(high), le(N.mul(s1, 99), N.mul(price, 100))))
    far = b_or(b_and(high, gt(N.mul(sub(price, s1), 100), U128)), gt(N.mul(sub(s1, price), 100), U128))

    def goals(x):
        return [("the price is that of the curve, within a hundredth", near), ("within the range of prices", b_and(ge(s1, MIN), le(s1, MAX))),
                ("more than the part that stays", gt(liq, DEAD))]
    check(c, "pool of compounding fees is possible", fx, ends, goals,
          lambda x: b_or(eq(base, 0), lt(s1, MIN), gt(s1, MAX), gt(liq, U128), le(liq, DEAD), b_not(near), far),
          "cp_valid", ["base", "quote", "price"], lambda x: [], None if opaque else EX, witness=not opaque)


def fees_cp_task(c):
    fx, price, h = setup(c, "cp", "get_migration_protocol_fees")
    base, quote, bps = fx.u("base", 64), fx.u("quote", 64), fx.u("bps", 16)
    ends = fx.run([h, base, quote, bps])
    N = fx.N
    b, q = N.divmod(N.mul(base, bps), 10000)[0], N.divmod(N.mul(quote, bps), 10000)[0]

    def goals(x):
        return [("the protocol's share of the base amount, rounded down", eq(x.value.f[0], b)),
                ("the protocol's share of the quote amount, rounded down", eq(x.value.f[1], q))]
    check(c, "protocol's part, compounding", fx, ends, goals, lambda x: b_or(gt(b, U64), gt(q, U64)), "cp_fees", ["price", "base", "quote", "bps"],
          lambda x: [x.value.f[0], x.value.f[1]], EX)


def liq_quote(N, quote, price):
    d = pos(N, sub(price, MIN), U128)
    return N.divmod(N.mul(quote, 1 << 128), d)[0]


def liq_base(N, base, price):
    d = pos(N, sub(MAX, price), U128)
    return N.divmod(N.mul(N.mul(base, price), MAX), d)[0]


def fees_cl_task(c):
    fx, price, h = setup(c, "cl", "get_migration_protocol_fees")
    base, quote, bps = fx.u("base", 64), fx.u("quote", 64), fx.u("bps", 16)
    ends = fx.run([h, base, quote, bps])
    N = fx.N
    q = T(ex(N.divmod(N.mul(quote, bps), 10000)[0]), 0, U64)
    l = liq_quote(N, q, price)
    ll = T(ex(l), 0, U128)
    b = C03.delta(N, "base", price, MAX, ll, False)

    def goals(x):
        return [("the protocol's share of the quote amount, rounded down", eq(x.value.f[1], q)),
                ("the base amount of the liquidity of that share, rounded down", eq(x.value.f[0], b))]
    check(c, "protocol's part, concentrated", fx, ends, goals,
          lambda x: b_or(gt(N.divmod(N.mul(quote, bps), 10000)[0], U64), le(price, MIN), gt(price, MAX), gt(l, U128), gt(b, U64)), "cl_fees",
          ["price", "base", "quote", "bps"], lambda x: [x.value.f[0], x.value.f[1]], EX)


def conc(c, method, name, args, out):
    fx, price, h = setup(c, "cl", method, 0, U128)
    base, quote = fx.u("base", 64), fx.u("quote", 64)
    rest = [fx.u("r%d" % i, b) for i, b in enumerate(args)]
    ends = fx.run([h, base, quote] + rest)
    N = fx.N
    lq, lb = liq_quote(N, quote, price), liq_base(N, base, price)
    low = ite(gt(lb, lq), lq, lb)

    def goals(x):
        o = out(x)
        g = [("the liquidity both amounts allow, rounded down", eq(o[1], low)), ("between the bounds of prices", b_and(gt(price, MIN), lt(price, MAX)))]
        if len(o) > 2:
            g += [("at the price of the curve's end", eq(o[0], price)), ("all of it is shared", eq(o[2], 0))]
        return g
    check(c, name, fx, ends, goals, lambda x: b_or(le(price, MIN), ge(price, MAX), gt(lq, U128), gt(low, U128)), "cl_" + ("initial" if not args else "delta"),
          ["price", "base", "quote"] + ["r%d" % i for i in range(len(args))], lambda x: [t for t in out(x) if t is not None], EX)


def cl_initial_task(c):
    conc(c, "get_initial_pool_information", "pool of concentrated liquidity", [],
         lambda x: [x.view.sqrt_price, x.view.distributable_liquidity, x.view.dead_liquidity])


def cl_delta_task(c):
    conc(c, "calculate_liquidity_delta", "second position, concentrated", [64, 64, 128], lambda x: [None, x.value])


def cp_delta_task(c):
    fx, price, h = setup(c, "cp", "calculate_liquidity_delta")
    base, quote, rb, rq, liq = fx.u("base", 64), fx.u("quote", 64), fx.u("rb", 64), fx.u("rq", 64), fx.u("liq", 128)
    ends = fx.run([h, base, quote, rb, rq, liq])
    N = fx.N
    a = N.divmod(N.mul(base, liq), pos(N, rb, U64))[0]
    b = N.divmod(N.mul(quote, liq), pos(N, rq, U64))[0]
    check(c, "second position, compounding", fx, ends, lambda x: [("the lesser share of the pool's liquidity the amounts pay for, rounded down",
                                                                b_and(ge(rb, 1), ge(rq, 1), eq(x.value, ite(lt(a, b), a, b))))],
          lambda x: b_or(eq(rb, 0), eq(rq, 0), gt(a, U128), gt(b, U128)), "cp_delta", ["price", "base", "quote", "rb", "rq", "liq"], lambda x: [x.value],
          dict(EX, rb=[10 ** 15, 1], rq=[10 ** 12, 1], liq=[10 ** 27, 1]))


def amounts_1_task(side):
    def run(c):
        fx, price, h = setup(c, side, "get_included_protocol_fee_migration_amounts_1")
        thr, pct = fx.u("threshold", 64), fx.u("pct", 8)
        ends = fx.run([h, thr, pct])
        N = fx.N
        q = quote_of(N, thr, pct)
        if side == "cp":
            b = C03.rdiv(N, N.mul(q, 1 << 128), pos(N, N.mul(price, price), U256), True)
            bad = False
        else:
            l = liq_quote(N, q, price)
            b = C03.delta(N, "base", price, MAX, T(ex(l), 0, U128), True)
            bad = b_or(gt(l, U128), le(price, MIN))

        def goals(x):
            return [("the quote amount without the migration fee", b_and(le(pct, 100), eq(x.value.f[1], q))),
                    ("the base amount that goes with it at the final price, rounded up", eq(x.value.f[0], b))]
        check(c, "amounts for the new pool, " + side, fx, ends, goals, lambda x: b_or(gt(pct, 100), gt(b, U64), bad), side + "_amounts_1",
              ["price", "threshold", "pct"], lambda x: [x.value.f[0], x.value.f[1]], EX)
    return run


def amounts_2_task(side):
    def run(c):
        fx, price, h = setup(c, side, "get_included_protocol_fee_migration_amounts_2")
        bt, thr, pct, res = fx.u("base", 64), fx.u("threshold", 64), fx.u("pct", 8), fx.u("reserve", 64)
        ends = fx.run([h, bt, thr, pct, res])
        q = quote_of(fx.N, thr, pct)

        def goals(x):
            g = [("the quote amount without the migration fee", b_and(le(pct, 100), eq(x.value.f[1], q)))]
            if side == "cp":
                g += [("the promised base amount", eq(x.value.f[0], bt)), ("which is there", ge(res, bt))]
            else:
                g += [("the base tokens that are there", eq(x.value.f[0], res))]
            return g
        check(c, "amounts to deposit, " + side, fx, ends, goals, lambda x: b_or(gt(pct, 100), lt(res, bt) if side == "cp" else False), side + "_amounts_2",
              ["price", "base", "threshold", "pct", "reserve"], lambda x: [x.value.f[0], x.value.f[1]], dict(EX, reserve=[10 ** 15, 1, 10 ** 15 - 1]))
    return run


def mode_task(c):
    for m, want in ((0, 1), (1, 0), (2, 2)):
        fx = Fx(c, MH + "MigratedCollectFeeMode::to_dammv2_collect_fee_mode")
        ends = fx.run([fx.ref(fx.enum(m), fx.pointee(0))])
        check(c, "collect mode %d" % m, fx, ends, lambda x: [("means the same in the new pool", eq(x.value, want))], lambda x: False, "fee_mode", [m], lambda x: [x.value])


def option_task(c):
    for o, bps in enumerate((25, 30, 100, 200, 400, 600, None)):
        fx = Fx(c, "dynamic_bonding_curve::state::config::MigrationFeeOption::validate_base_fee")
        b = fx.u("bps", 64)
        ends = fx.run([fx.ref(fx.enum(o), fx.pointee(0)), b])
        check(c, "fee option %d" % o, fx, ends, lambda x: [("only the chosen fee", True if bps is None else eq(b, bps))],
              lambda x: False if bps is None else ne(b, bps), "base_fee_option", [o, "bps"], lambda x: [], {"bps": [25, 30, 100, 200, 400, 600, 24, 101]})


def burn_task(c):
    for flag in (1, None):
        fx = Fx(c, PC + "::get_burnable_amount_post_migration")
        over = {} if flag is None else {"fixed_token_supply_flag": flag}
        tid = fx.prog.adt(PC)
        v = fx.struct(tid, "config", **over)
        fx.note_inputs(v, tid)
        k = View(fx.e, v, tid)
        left = fx.u("left", 64)
        pre, post = k.pre_migration_token_supply, k.post_migration_token_supply
        hyp = [] if flag else [ne(k.fixed_token_supply_flag, 1)]
        ends = fx.run([fx.ref(v, tid), left], pre=hyp)
        cap = sub(pre, post)
        want = ite(lt(left, cap), left, cap) if flag else left
        check(c, "burned rest, %s supply" % ("fixed" if flag else "dynamic"), fx, ends,
              lambda x: [("all that is left, no more than the supply shrinks by" if flag else "all that is left", b_and(ge(pre, post) if flag else True, eq(x.value, want)))],
              lambda x: lt(pre, post) if flag else False, "burnable", [flag if flag else k.fixed_token_supply_flag, pre, post, "left"], lambda x: [x.value],
              {"left": [10 ** 12, 5], "config.pre_migration_token_supply": [10 ** 15], "config.post_migration_token_supply": [10 ** 15 - 10 ** 6, 10 ** 15]}, hyp)


def dyn_ref(N, f):
    m = N.divmod(N.mul(f, 20), 100)[0]
    v = sub(N.mul(m, 100_000_000_000), 99_999_999_999)
    return v, N.divmod(T(ex(v), 0, U128), 209091600000000)[0]


def dynamic_task(c):
    fx = Fx(c, "dynamic_bonding_curve::utils::damm_v2_utils::calculate_dynamic_fee_params")
    f = fx.u("fee", 64)
    ends = fx.run([f])
    v, r = dyn_ref(fx.N, f)
    K = [("bin_step", 1), ("bin_step_u128", 1844674407370955), ("filter_period", 10), ("decay_period", 120), ("reduction_factor", 5000),
         ("max_volatility_accumulator", 14460000)]
    check(c, "dynamic fee of the new pool", fx, ends,
          lambda x: [("the documented defaults", b_and(*[eq(getattr(x.view, n), w) for n, w in K])), ("at most a fifth of the base fee", eq(x.view.variable_fee_control, r))],
          lambda x: b_or(lt(v, 0), gt(r, U32)), "dynamic_params", ["fee"], lambda x: [getattr(x.view, n) for n, _ in K] + [x.view.variable_fee_control],
          {"fee": [2_500_000, 10_000_000, 4, 5, 0, 10 ** 9]})


def handler_task(c):
    for o in (0, 1):
        for m in (0, 1, 2):
            fx = Fx(c, MH + "get_migration_handler")
            price = fx.u("price", 128)
            ends = fx.run([fx.enum(o), fx.enum(m), price])
            comp = o == 0 or m == 2

            def base(x):
                nm = str(x.e.tys[x.value.meta[1]].get("name", ""))
                return 7 if nm.endswith("CompoundingLiquidity") else 9 if nm.endswith("ConcentratedLiquidity") else 0

            def goals(x):
                x.e.st = x.st
                h = x.e.load(x.value)
                return [("the formulas of the chosen pool", base(x) == (7 if comp else 9)),
                        ("at the final price of the curve", eq(View(x.e, h, x.value.meta[1]).migration_sqrt_price, price))]
            check(c, "option %d, collect mode %d" % (o, m), fx, ends, goals, lambda x: False, "handler", [o, m], lambda x: [base(x)])


def tasks():
    t = [("quote amount", quote_amount_task), ("initial, compounding", cp_initial_task), ("accepted, compounding", cp_valid_task),
         ("initial, concentrated", cl_initial_task), ("protocol, compounding", fees_cp_task), ("protocol, concentrated", fees_cl_task),
         ("second, compounding", cp_delta_task), ("second, concentrated", cl_delta_task), ("collect mode", mode_task), ("fee option", option_task),
         ("formulas", handler_task), ("burn", burn_task), ("dynamic fee", dynamic_task)]
    for s in ("cp", "cl"):
        t += [("amounts 1 " + s, amounts_1_task(s)), ("amounts 2 " + s, amounts_2_task(s))]
    keep = ("distribution", "vesting terms", "adjusted", "total", "total locked")
    return t + [(n, f) for n, f in C19.tasks() if n in keep]
