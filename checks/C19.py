"""C19: migrated liquidity is divided and locked exactly as configured."""
from .feekit import *
from . import swapkit as sk

PC = "dynamic_bonding_curve::state::config::PoolConfig"
LV = "dynamic_bonding_curve::state::config::LiquidityVestingInfo"
LI = "dynamic_bonding_curve::state::config::LiquidityDistributionItem"
FUNCS = []
USE19 = USE + "use ::dynamic_bonding_curve::damm_v2_utils::*; "
INFO = ["is_initialized", "vesting_percentage", "bps_per_period", "number_of_periods", "frequency", "cliff_duration_from_migration_time"]
PCTS = ["partner_permanent_locked_liquidity_percentage", "partner_liquidity_percentage", "creator_permanent_locked_liquidity_percentage",
        "creator_liquidity_percentage"]
META = {"assumptions": ["functions are taken one by one; that the migration instructions use them is C20 for the constant-product pool"]}


def snippet(name, body):
    Funcs.table[name] = USE19 + body
    FUNCS.append(name)


def infofill(var, k):
    return "".join("%s.%s = p(&a[%d]); " % (var, n, k + i) for i, n in enumerate(INFO))


SHOWI = 'let si = |i: &LiquidityVestingInfo| format!("{},{},{},{},{},{}", i.is_initialized, i.vesting_percentage, i.bps_per_period, i.number_of_periods, i.frequency, i.cliff_duration_from_migration_time); '
SHOWD = SHOWI + ('let sd = |i: &LiquidityDistributionItem| format!("{},{},{},{},{}", i.unlocked_liquidity, i.permanent_locked_liquidity, '
                 'i.vested_liquidity, i.permanent_locked_liquidity_percentage, si(&i.liquidity_vesting_info)); ')
MKC = "let mut c = PoolConfig::default(); " + "".join("c.%s = p(&a[%d]); " % (n, i) for i, n in enumerate(PCTS)) + \
    infofill("c.partner_liquidity_vesting_info", 4) + infofill("c.creator_liquidity_vesting_info", 10)
MKI = "let mut i = LiquidityVestingInfo::default(); " + infofill("i", 0)
ITEM = ["unlocked_liquidity", "permanent_locked_liquidity", "vested_liquidity", "permanent_locked_liquidity_percentage"]
MKITEM = ("let mut i = LiquidityVestingInfo::default(); " + infofill("i", 4) +
          "let mut d = LiquidityDistributionItem { unlocked_liquidity: p(&a[0]), permanent_locked_liquidity: p(&a[1]), vested_liquidity: p(&a[2]), "
          "permanent_locked_liquidity_percentage: p(&a[3]), liquidity_vesting_info: i }; ")
VP = 'macro_rules! sv { ($v:expr) => { format!("{},{},{},{},{}", $v.cliff_point.map(|x| x.to_string()).unwrap_or("none".to_string()), $v.period_frequency, $v.cliff_unlock_liquidity, $v.liquidity_per_period, $v.number_of_period) } } '
ERR = 'Err(_) => "err".to_string() }'
snippet("liquidity_distribution", SHOWD + MKC + 'match c.get_liquidity_distribution(p(&a[16])) { Ok(x) => format!("ok {},{}", sd(&x.partner), sd(&x.creator)), ' + ERR)
snippet("locked_bps", MKI + 'match i.get_liquidity_locked_bps_at_n_seconds(p(&a[6])) { Ok(x) => format!("ok {}", x), ' + ERR)
snippet("total_locked_bps", MKC + 'match c.get_total_liquidity_locked_bps_at_n_seconds(p(&a[16])) { Ok(x) => format!("ok {}", x), ' + ERR)
snippet("vesting_parameters", VP + MKI + 'match i.get_damm_v2_vesting_parameters(p(&a[6]), p(&a[7])) { Ok(x) => format!("ok {}", sv!(x)), ' + ERR)
snippet("max_unlocked", 'let mut v = LiquidityVestingInfo::default().get_damm_v2_vesting_parameters(1, 0).unwrap(); v.cliff_point = if a[0] == "none" { None } else { Some(p(&a[0])) }; '
        'v.period_frequency = p(&a[1]); v.cliff_unlock_liquidity = p(&a[2]); v.liquidity_per_period = p(&a[3]); v.number_of_period = p(&a[4]); '
        'match get_max_unlocked_liquidity_at_current_point(&v, p(&a[5])) { Ok(x) => format!("ok {}", x), ' + ERR)
snippet("adjust_liquidity", SHOWD + MKITEM + 'match d.adjust_liquidity(p(&a[10])) { Ok(_) => format!("ok {}", sd(&d)), ' + ERR)
snippet("total_liquidity", MKITEM + 'match d.get_total_liquidity() { Ok(x) => format!("ok {}", x), ' + ERR)
snippet("total_locked_liquidity", MKITEM + 'match d.get_total_locked_liquidity() { Ok(x) => format!("ok {}", x), ' + ERR)
snippet("distribution_v1", 'let i = LiquidityVestingInfo::default(); let mk = |k: usize| LiquidityDistributionItem { unlocked_liquidity: p(&a[k]), '
        'permanent_locked_liquidity: p(&a[k + 1]), vested_liquidity: 0, permanent_locked_liquidity_percentage: 0, liquidity_vesting_info: i }; '
        'match (LiquidityDistribution { partner: mk(0), creator: mk(2) }).to_liquidity_distribution_damm_v1() { '
        'Ok(x) => format!("ok {},{},{},{}", x.partner_locked_liquidity, x.partner_liquidity, x.creator_locked_liquidity, x.creator_liquidity), ' + ERR)
META["funcs"] = FUNCS


def shown(name, fx, order, terms):
    """replay that compares the given terms of the end"""
    def rp(c, end):
        args = []
        for n in order:
            v = n if isinstance(n, int) or n == "none" else c.ev(fx.inputs[n][0] if isinstance(n, str) else n)
            args.append(("1" if v else "0") if isinstance(v, bool) else str(v))
        if end.kind == "panic":
            ret = "panic"
        elif end.kind == "err" or c.ev(end.okc) is not True:
            ret = "err"
        else:
            fx.e.st = end.st
            ret = ("ok " + ",".join(str(t if isinstance(t, str) else c.ev(t)) for t in terms(end))).strip()
        return ["func %s %s" % (name, " ".join(args))], {"ret": ret}
    return rp


def check(c, label, fx, ends, goals, refuse, name, order, terms, extra=None, hyp=(), timeouts=(4, 15), witness=True):
    seen = set()
    good = True
    for x in ends:
        rp = shown(name, fx, order, terms)
        if x.kind == "ok":
            gs = [("%s: %s" % (label, l), b_implies(x.okc, g)) for l, g in goals(x)]
            if x.okc is not True:
                gs.append(("%s: refuses only what it must" % label, b_implies(b_not(x.okc), refuse(x))))
        else:
            gs = [("%s: refuses only what it must" % label, refuse(x))]
        good &= prove_fn(c, fx, x, gs, rp, extra, timeouts, hyp)
        if witness and good and x.kind not in seen:
            ex_ = [h for h in hyp if h is not True] + ([x.okc] if x.okc not in (True, False) else [])
            if c.witness(x, fx.e, "%s %s" % (label, x.kind), replay=rp, extra=ex_, timeouts=(3, 3)) == "sat":
                seen.add(x.kind)
        if not good and any(o["verdict"] == "violated" for o in c.obls):
            break
    if not any(x.kind == "ok" for x in ends):
        c.obls.append({"name": label + ": returns a value for some arguments", "verdict": "undecided"})


def info(fx, name="info", **over):
    tid = fx.prog.adt(LV)
    v = fx.struct(tid, name, **over)
    fx.note_inputs(v, tid)
    return v, tid, View(fx.e, v, tid)


def infos(i):
    return [getattr(i, n) for n in INFO]


def items(i):
    return [getattr(i, n) for n in ITEM] + infos(i.liquidity_vesting_info)


def share(N, x, p, d):
    return N.divmod(N.mul(x, p), d)[0]


def config(fx):
    pi, lt, _ = info(fx, "partner")
    ci, _, _ = info(fx, "creator")
    tid = fx.prog.adt(PC)
    v = fx.struct(tid, "config", partner_liquidity_vesting_info=pi, creator_liquidity_vesting_info=ci)
    fx.note_inputs(v, tid)
    k = View(fx.e, v, tid)
    return v, tid, k, [getattr(k, n) for n in PCTS] + infos(k.partner_liquidity_vesting_info) + infos(k.creator_liquidity_vesting_info)


EXP = {"liquidity": [10 ** 18, 10 ** 30 + 7, 101, 99, 33]}


def parts(N, k, liq):
    ps = [k.partner_liquidity_percentage, k.partner_permanent_locked_liquidity_percentage, k.partner_liquidity_vesting_info.vesting_percentage,
          k.creator_permanent_locked_liquidity_percentage, k.creator_liquidity_vesting_info.vesting_percentage]
    return [share(N, liq, p, 100) for p in ps]


def distribution_task(c):
    fx = Fx(c, PC + "::get_liquidity_distribution")
    v, tid, k, order = config(fx)
    liq = fx.u("liquidity", 128)
    N = fx.N
    hyp = [eq(add(add(add(k.partner_liquidity_percentage, k.partner_permanent_locked_liquidity_percentage),
                      add(k.creator_liquidity_percentage, k.creator_permanent_locked_liquidity_percentage)),
                  add(k.partner_liquidity_vesting_info.vesting_percentage, k.creator_liquidity_vesting_info.vesting_percentage)), 100)]
    ends = fx.run([fx.ref(v, tid), liq], pre=hyp)
    pf, pl, pv, cl, cv = parts(N, k, liq)

    def goals(x):
        a, b = x.view.partner, x.view.creator
        cf = b.unlocked_liquidity
        tot = add(add(add(a.unlocked_liquidity, a.permanent_locked_liquidity), add(a.vested_liquidity, b.permanent_locked_liquidity)),
                  add(b.vested_liquidity, cf))
        low = share(N, liq, k.creator_liquidity_percentage, 100)
        return [("the partner's free part", eq(a.unlocked_liquidity, pf)), ("the partner's permanently locked part", eq(a.permanent_locked_liquidity, pl)),
                ("the partner's vested part", eq(a.vested_liquidity, pv)), ("the creator's permanently locked part", eq(b.permanent_locked_liquidity, cl)),
                ("the creator's vested part", eq(b.vested_liquidity, cv)), ("nothing is lost", eq(tot, liq)),
                ("the creator's free part is its share and the rest of rounding", b_and(ge(cf, low), le(cf, add(low, 5)))),
                ("the locked percentages go along", b_and(eq(a.permanent_locked_liquidity_percentage, k.partner_permanent_locked_liquidity_percentage),
                                                         eq(b.permanent_locked_liquidity_percentage, k.creator_permanent_locked_liquidity_percentage))),
                ("the vesting terms go along", b_and(*[eq(getattr(y.liquidity_vesting_info, n), getattr(z, n)) for y, z in (
                    (a, k.partner_liquidity_vesting_info), (b, k.creator_liquidity_vesting_info)) for n in INFO]))]
    check(c, "distribution", fx, ends, goals, lambda x: False, "liquidity_distribution", order + ["liquidity"],
          lambda x: items(x.view.partner) + items(x.view.creator), EXP, hyp)


def terms_ref(N, i, total, now):
    """(defined, cliff point, per period, at the cliff, frequency, periods) of the stored terms"""
    n = i.number_of_periods
    bps = N.mul(i.bps_per_period, n)
    after = share(N, total, bps, 10000)
    has = gt(n, 0)
    per = ite(has, N.divmod(after, T(ex(n), 1, U16))[0], 0)
    none = eq(per, 0)
    cl = i.cliff_duration_from_migration_time
    point = add(now, ite(b_and(none, eq(cl, 0)), 1, cl))
    n1 = ite(none, 0, n)
    cliff = sub(total, ite(none, 0, N.mul(per, n)))
    return bps, after, has, per, point, cliff, ite(none, 0, i.frequency), n1


def terms_task(c):
    fx = Fx(c, LV + "::get_damm_v2_vesting_parameters")
    v, tid, i = info(fx)
    total, now = fx.u("total", 128), fx.u("now", 64)
    ends = fx.run([fx.ref(v, tid), total, now])
    N = fx.N
    bps, after, has, per, point, cliff, fr, n1 = terms_ref(N, i, total, now)

    def goals(x):
        p = x.view
        return [("per period, the configured share", eq(p.liquidity_per_period, per)),
                ("as many periods as configured, none when a period would unlock nothing", eq(p.number_of_period, n1)),
                ("the configured frequency", eq(p.period_frequency, fr)),
                ("the rest at the cliff", eq(p.cliff_unlock_liquidity, cliff)),
                ("everything is unlocked in the end, and no more", eq(add(p.cliff_unlock_liquidity, N.mul(per, n1)), total)),
                ("the cliff is after the configured time", eq(cliff_of(x), point))]
    check(c, "vesting terms", fx, ends, goals, lambda x: b_or(gt(bps, U16), gt(after, U128), gt(after, total), gt(point, U64)),
          "vesting_parameters", infos(i) + ["total", "now"],
          lambda x: [cliff_of(x), x.view.period_frequency, x.view.cliff_unlock_liquidity, x.view.liquidity_per_period, x.view.number_of_period],
          {"total": [10 ** 18, 99, 10 ** 30 + 7], "info.bps_per_period": [100, 1, 2500], "info.number_of_periods": [0, 1, 3, 100],
           "info.frequency": [60], "info.cliff_duration_from_migration_time": [0, 1, 86400], "now": [1_700_000_000, 0]})


def cliff_of(x):
    t = x.e.tys[x.ty]
    fs = t["vars"][0]["f"]
    k = next(j for j, f in enumerate(fs) if f[0] == "cliff_point")
    return x.value.f[k].pl[1][0]


def unlocked_ref(N, cliff, freq, at, per, n, now, some=True):
    el = sub(now, cliff) if some else 0
    q = N.divmod(T(ex(el), 0, U64), T(ex(freq), 1, U64))[0] if some else 0
    k = ite(lt(q, n), q, n) if some else 0
    r = ite(eq(freq, 0), at, add(at, N.mul(k, per)))
    return (ite(lt(now, cliff), 0, r) if some else r), k


def unlocked_task(some):
    def run(c):
        fx = Fx(c, "dynamic_bonding_curve::utils::damm_v2_utils::get_max_unlocked_liquidity_at_current_point")
        tid = fx.pointee(0)
        cp = fx.u("cliff", 64)
        v = fx.struct(tid, "v", cliff_point=E(1, {1: (cp,)}) if some else E(0, {}))
        fx.note_inputs(v, tid)
        now = fx.u("now", 64)
        t = View(fx.e, v, tid)
        ends = fx.run([fx.ref(v, tid), now])
        N = fx.N
        r, k = unlocked_ref(N, cp, t.period_frequency, t.cliff_unlock_liquidity, t.liquidity_per_period, t.number_of_period, now, some)
        after = b_and(ge(now, cp) if some else True, ne(t.period_frequency, 0))
        m = N.mul(k, t.liquidity_per_period) if some else 0

        def goals(x):
            return [("nothing before the cliff, then the cliff amount and each whole period's, at most all", eq(x.value, r))]
        check(c, "unlocked by now", fx, ends, goals, lambda x: b_and(after, b_or(gt(m, U128), gt(add(t.cliff_unlock_liquidity, m), U128))),
              "max_unlocked", ["cliff" if some else "none", t.period_frequency, t.cliff_unlock_liquidity, t.liquidity_per_period,
                               t.number_of_period, "now"], lambda x: [x.value],
              {"cliff": [1000], "now": [999, 1000, 1060, 1119, 5000], "v.period_frequency": [60, 0], "v.cliff_unlock_liquidity": [10 ** 18],
               "v.liquidity_per_period": [10 ** 15 + 3], "v.number_of_period": [3, 100]})
    return run


def locked_task(c):
    fx = Fx(c, LV + "::get_liquidity_locked_bps_at_n_seconds")
    v, tid, i = info(fx)
    n = fx.u("seconds", 64)
    ends = fx.run([fx.ref(v, tid), n])
    N = fx.N
    vested = share(N, U128, i.vesting_percentage, 100)
    bps, after, has, per, point, cliff, fr, n1 = terms_ref(N, i, vested, 0)
    un, k = unlocked_ref(N, point, fr, cliff, per, n1, n)
    locked = sub(vested, un)
    r = N.divmod(N.mul(T(ex(locked), 0, U128), 10000), U128)[0]

    def goals(x):
        none = eq(i.is_initialized, 0)
        return [("nothing without vesting", b_implies(none, eq(x.value, 0))),
                ("the share the stored terms keep locked", b_implies(b_not(none), eq(x.value, r))),
                ("never more than what is locked", b_implies(b_not(none), b_and(le(N.mul(T(ex(x.value), 0, U16), U128), N.mul(T(ex(locked), 0, U128), 10000)))))]

    def refuse(x):
        return b_and(ne(i.is_initialized, 0), b_or(gt(bps, U16), gt(after, U128), gt(after, vested), gt(vested, U128), gt(r, U16),
                                                  lt(locked, 0), gt(un, U128)))
    check(c, "locked share after a time", fx, ends, goals, refuse, "locked_bps", infos(i) + ["seconds"], lambda x: [x.value],
          {"info.is_initialized": [1, 0], "info.vesting_percentage": [50, 100, 1], "info.bps_per_period": [100, 1, 2500], "info.number_of_periods": [0, 1, 3, 100],
           "info.frequency": [60, 86400], "info.cliff_duration_from_migration_time": [0, 86399, 86400, 86401], "seconds": [86400]}, timeouts=(5, 30))


LB = sk.contract(r"LiquidityVestingInfo::get_liquidity_locked_bps_at_n_seconds$", "locked_bps")


def total_task(c):
    fx = Fx(c, PC + "::get_total_liquidity_locked_bps_at_n_seconds", hooks=[LB])
    v, tid, k, order = config(fx)
    n = fx.u("seconds", 64)
    ends = fx.run([fx.ref(v, tid), n])

    def recs(x):
        return [r for r in x.st.notes if isinstance(r, sk.Rec)]

    def total(x):
        s = fx.N.mul(add(k.partner_permanent_locked_liquidity_percentage, k.creator_permanent_locked_liquidity_percentage), 100)
        for r in recs(x):
            s = add(s, r.val)
        return s

    def goals(x):
        rs = recs(x)
        vs = [View(x.e, r.args[0][0], r.args[0][1]) for r in rs]
        both = [k.partner_liquidity_vesting_info, k.creator_liquidity_vesting_info]
        same = lambda a, b: b_and(*[eq(getattr(a, n_), getattr(b, n_)) for n_ in INFO])
        ok = len(rs) == 2 and b_or(*[b_and(same(vs[0], both[j]), same(vs[1], both[1 - j])) for j in (0, 1)])
        return [("both vestings at that time", b_and(ok, *[eq(r.args[1][0], n) for r in rs])),
                ("vested and permanently locked parts of both", eq(x.value, total(x)))]
    for x in ends:
        if x.kind == "ok":
            gs = [("locked share: " + l, b_implies(x.okc, g)) for l, g in goals(x)]
            if x.okc is not True:
                gs.append(("locked share: refuses only what it must", b_implies(b_not(x.okc), gt(total(x), U16))))
        else:
            gs = [("locked share: refuses only what it must", b_or(gt(total(x), U16), *[b_not(r.okc) for r in recs(x) if getattr(r, "okc", None) is not None]))]
        c.prove(x, gs, fx.e, replay=None)


def item(fx):
    iv, lt_, _ = info(fx, "info")
    tid = fx.prog.adt(LI)
    v = fx.struct(tid, "item", liquidity_vesting_info=iv)
    fx.note_inputs(v, tid)
    return v, tid, View(fx.e, v, tid)


def adjust_task(c):
    fx = Fx(c, LI + "::adjust_liquidity")
    v, tid, i = item(fx)
    new = fx.u("new", 128)
    order = items(i) + ["new"]
    r = fx.ref(v, tid)
    ends = fx.run([r, new])
    N = fx.N
    p, q = i.liquidity_vesting_info.vesting_percentage, i.permanent_locked_liquidity_percentage
    tp = add(p, q)
    free = ite(lt(new, i.unlocked_liquidity), new, i.unlocked_liquidity)
    rest = sub(new, free)
    vest = N.divmod(N.mul(T(ex(rest), 0, U128), p), T(ex(tp), 1, 510))[0]
    none = eq(tp, 0)

    def goals(x):
        a = x.after(r)
        return [("the parts add up to the new amount", eq(add(add(a.unlocked_liquidity, a.permanent_locked_liquidity), a.vested_liquidity), new)),
                ("free: all without locks, else at most what was free", eq(a.unlocked_liquidity, ite(none, new, free))),
                ("the rest is vested and locked in the configured proportion", eq(a.vested_liquidity, ite(none, 0, vest))),
                ("the terms stay", b_and(eq(a.permanent_locked_liquidity_percentage, q), *[eq(getattr(a.liquidity_vesting_info, n), getattr(i.liquidity_vesting_info, n)) for n in INFO]))]
    check(c, "adjusted to the liquidity of the position", fx, ends, goals, lambda x: gt(tp, U8), "adjust_liquidity", order,
          lambda x: items(x.after(r)), {"new": [10 ** 18, 10 ** 12 + 1, 7], "item.unlocked_liquidity": [10 ** 15, 0], "info.vesting_percentage": [0, 30, 33],
                                        "item.permanent_locked_liquidity_percentage": [0, 10, 77]})


def sum_task(fn, name, fields):
    def run(c):
        fx = Fx(c, LI + "::" + fn)
        v, tid, i = item(fx)
        ends = fx.run([fx.ref(v, tid)])
        s = 0
        for f in fields:
            s = add(s, getattr(i, f))
        check(c, fn, fx, ends, lambda x: [("the sum of the parts", eq(x.value, s))], lambda x: gt(s, U128), name, items(i), lambda x: [x.value])
    return run


def v1_task(c):
    fx = Fx(c, "dynamic_bonding_curve::state::config::LiquidityDistribution::to_liquidity_distribution_damm_v1")
    tid = fx.pointee(0)
    it = fx.field_ty(tid, "partner")
    pv, cv = fx.struct(it, "partner"), fx.struct(it, "creator")
    v = fx.struct(tid, "d", partner=pv, creator=cv)
    fx.note_inputs(v, tid)
    d = View(fx.e, v, tid)
    ends = fx.run([fx.ref(v, tid)])
    ins = [d.partner.unlocked_liquidity, d.partner.permanent_locked_liquidity, d.creator.unlocked_liquidity, d.creator.permanent_locked_liquidity]

    def out(x):
        w = x.view
        return [w.partner_locked_liquidity, w.partner_liquidity, w.creator_locked_liquidity, w.creator_liquidity]

    def goals(x):
        o = out(x)
        return [("each part stays what it is", b_and(eq(o[1], ins[0]), eq(o[0], ins[1]), eq(o[3], ins[2]), eq(o[2], ins[3])))]
    check(c, "parts of a constant-product pool", fx, ends, goals, lambda x: b_or(*[gt(y, U64) for y in ins]), "distribution_v1", ins, out)


def tasks():
    return [("distribution", distribution_task), ("vesting terms", terms_task), ("unlocked", unlocked_task(True)), ("unlocked without cliff", unlocked_task(False)),
            ("locked share", locked_task), ("total locked share", total_task), ("adjusted", adjust_task),
            ("total", sum_task("get_total_liquidity", "total_liquidity", ITEM[:3])),
            ("total locked", sum_task("get_total_locked_liquidity", "total_locked_liquidity", ITEM[1:3])), ("constant-product parts", v1_task)]
