"""C05: trading fees are computed exactly and split without loss."""
from .feekit import *
from . import swapkit as sk

F = {}


def snippet(name, body):
    Funcs.table[name] = USE + body
    F[name] = True


snippet("get_excluded_fee_amount", 'match PoolFeesConfig::get_excluded_fee_amount(p(&a[0]), p(&a[1])) { Ok((x, y)) => format!("ok {},{}", x, y), Err(_) => "err".to_string() }')
snippet("get_included_fee_amount", 'match PoolFeesConfig::get_included_fee_amount(p(&a[0]), p(&a[1])) { Ok((x, y)) => format!("ok {},{}", x, y), Err(_) => "err".to_string() }')
snippet("split_fees", 'match PoolFeesConfig::default().split_fees(p(&a[0]), a[1] == "1") { Ok((x, y, z)) => format!("ok {},{},{}", x, y, z), Err(_) => "err".to_string() }')
snippet("get_fee_on_amount", 'match PoolFeesConfig::default().get_fee_on_amount(p(&a[0]), p(&a[1]), a[2] == "1") { Ok(x) => format!("ok {},{},{},{}", x.amount, x.trading_fee, x.protocol_fee, x.referral_fee), Err(_) => "err".to_string() }')
snippet("split_partner_and_creator_fee", 'let mut c = PoolConfig::default(); c.creator_trading_fee_percentage = p(&a[0]); match c.split_partner_and_creator_fee(p(&a[1])) { Ok(x) => format!("ok {},{}", x.partner_fee, x.creator_fee), Err(_) => "err".to_string() }')


def excluded_task(c):
    fx = Fx(c, CFG + "get_excluded_fee_amount")
    rate, amount = fx.u("rate", 64), fx.u("amount", 64)
    ends = fx.run([rate, amount])
    N = fx.N
    f = fee_of(N, rate, amount)
    spec(c, "fee on an amount", fx, ends,
         lambda e: [("the rate applied to the amount, rounded up", eq(e.view[1], f)),
                    ("amount and fee add up", eq(add(e.view[0], e.view[1]), amount)),
                    ("the fee never exceeds the amount", le(e.view[1], amount))],
         lambda e: gt(f, amount), "get_excluded_fee_amount", ["rate", "amount"])
    # for every rate up to the maximum there is an answer
    fx = Fx(c, CFG + "get_excluded_fee_amount")
    rate, amount = fx.u("rate", 64, 0, MAXF), fx.u("amount", 64)
    spec(c, "fee at an allowed rate", fx, fx.run([rate, amount]), lambda e: [], lambda e: False, "get_excluded_fee_amount", ["rate", "amount"])


def included_task(c):
    fx = Fx(c, CFG + "get_included_fee_amount")
    rate, x = fx.u("rate", 64), fx.u("amount", 64)
    ends = fx.run([rate, x])
    N = fx.N
    v = included(N, rate, x)
    spec(c, "amount before fees", fx, ends,
         lambda e: [("the least sufficient amount", b_and(lt(rate, D), eq(e.view[0], v))),
                    ("the fee is the difference", eq(add(x, e.view[1]), e.view[0]))],
         lambda e: b_or(ge(rate, D), gt(v, U64)), "get_included_fee_amount", ["rate", "amount"])
    # sufficient: what is left of it after the fee at the same rate is at least the wanted amount
    fx = Fx(c, CFG + "get_included_fee_amount")
    N = fx.N
    rate, x = fx.u("rate", 64, 0, MAXF), fx.u("amount", 64)
    for e in fx.run([rate, x]):
        if e.kind != "ok":
            continue
        y = e.view[0]
        whole = N.mul(y, D)
        kept = N.mul(y, sub(D, rate))
        taken = N.mul(y, rate)
        prove_fn(c, fx, e, [("amount before fees: what is left after the fee is enough", ge(sub(y, fee_of(N, rate, y)), x))],
                 replay_fn("get_included_fee_amount", fx, ["rate", "amount"]), None,
                 hyp=[eq(add(kept, taken), whole)])


def parts(N, fee, ref):
    p = N.divmod(N.mul(fee, 20), 100)[0]
    r = ite(ref, N.divmod(N.mul(p, 20), 100)[0], 0)
    return sub(fee, p), sub(p, r), r


def split_task(c):
    fx = Fx(c, CFG + "split_fees")
    fee, has = fx.u("fee", 64), fx.b("has_referral")
    v, tid, _, _ = pool_fees(fx)
    ends = fx.run([fx.ref(v, tid), fee, has])
    t, p, r = parts(fx.N, fee, has)
    spec(c, "split of a fee", fx, ends,
         lambda e: [("trading, protocol and referral parts", b_and(eq(e.view[0], t), eq(e.view[1], p), eq(e.view[2], r))),
                    ("the parts add up", eq(add(add(e.view[0], e.view[1]), e.view[2]), fee)),
                    ("no referral part without a referral", b_or(has, eq(e.view[2], 0)))],
         lambda e: False, "split_fees", ["fee", "has_referral"])
    fx = Fx(c, CFG + "get_fee_on_amount")
    rate, amount, has = fx.u("rate", 64), fx.u("amount", 64), fx.b("has_referral")
    v, tid, _, _ = pool_fees(fx)
    ends = fx.run([fx.ref(v, tid), rate, amount, has])
    f = fee_of(fx.N, rate, amount)
    t, p, r = parts(fx.N, f, has)
    spec(c, "fees on an amount", fx, ends,
         lambda e: [("amount after fees", eq(e.view.amount, sub(amount, f))),
                    ("trading, protocol and referral parts", b_and(eq(e.view.trading_fee, t), eq(e.view.protocol_fee, p), eq(e.view.referral_fee, r))),
                    ("everything adds up", eq(add(add(e.view.amount, e.view.trading_fee), add(e.view.protocol_fee, e.view.referral_fee)), amount))],
         lambda e: gt(f, amount), "get_fee_on_amount", ["rate", "amount", "has_referral"])


def creator_task(c):
    fx = Fx(c, "dynamic_bonding_curve::state::config::PoolConfig::split_partner_and_creator_fee")
    fee, pct = fx.u("fee", 64), fx.u("pct", 8, 0, 100)
    tid = fx.prog.adt("PoolConfig")
    v = fx.struct(tid, "config", creator_trading_fee_percentage=pct)
    ends = fx.run([fx.ref(v, tid), fee])
    N = fx.N
    cr = N.divmod(N.mul(fee, pct), 100)[0]
    spec(c, "partner and creator parts", fx, ends,
         lambda e: [("the creator's percentage, rounded down", eq(e.view.creator_fee, cr)),
                    ("no unit is lost", eq(add(e.view.creator_fee, e.view.partner_fee), fee))],
         lambda e: False, "split_partner_and_creator_fee", ["pct", "fee"])


def goals(x, q):
    return q.ok + sk.fee_goals(x, q)


KERNELS = [("fee on an amount", excluded_task), ("amount before fees", included_task), ("split", split_task),
           ("partner and creator", creator_task)]
FUNCS = list(F)


def tasks():
    return KERNELS + sk.swap_tasks(goals)


META = {"level": "model_checking", "funcs": FUNCS, "assumptions": sk.SWAP_ASSUME,
        "bounds": ["fee kernels: all 64-bit amounts and rates, creator percentage 0..100 (larger ones are refused at creation)"]}
