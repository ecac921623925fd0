"""C08: volatility tracking decays, accumulates and caps as configured."""
from .feekit import *
from . import C06
from . import swapkit as sk

VT = "dynamic_bonding_curve::state::fee::VolatilityTracker::"
FUNCS = list(C06.FUNCS)


def snippet(name, body):
    Funcs.table[name] = USE + body
    FUNCS.append(name)


MKD = "let mut d = DynamicFeeConfig::default(); " + fill("d", "", DYN, 0) + "let mut t = VolatilityTracker::default(); " + fill("t", "", TRK, 8)
AFTER = '{ Ok(_) => format!("ok {},{},{},{}", t.last_update_timestamp, t.sqrt_price_reference, t.volatility_accumulator, t.volatility_reference), Err(_) => "err".to_string() }'
snippet("delta_bin", 'match VolatilityTracker::get_delta_bin_id(p(&a[0]), p(&a[1]), p(&a[2])) { Ok(x) => format!("ok {}", x), Err(_) => "err".to_string() }')
snippet("update_accumulator", MKD + "match t.update_volatility_accumulator(&d, p(&a[12])) " + AFTER)
snippet("update_references", MKD + "match t.update_references(&d, p(&a[12]), p(&a[13])) " + AFTER)
snippet("variable_rate", MKD + 'match d.get_variable_fee_numerator(&t) { Ok(x) => format!("ok {}", x), Err(_) => "err".to_string() }')


def bins(N, step, a, b):
    """(defined, distance of two prices in half steps)"""
    up = ite(gt(a, b), a, b)
    low = ite(gt(a, b), b, a)
    q = N.divmod(N.mul(up, 1 << 64), T(ex(low), 1, U128))[0]
    k = N.divmod(T(ex(sub(q, 1 << 64)), 0, U128), T(ex(step), 1, U128))[0]
    v = N.mul(k, 2)
    return b_and(gt(low, 0), gt(step, 0), le(q, U128), le(v, U128)), v


def bins_task(c):
    fx = Fx(c, VT + "get_delta_bin_id")
    step, a, b = fx.u("step", 128), fx.u("a", 128), fx.u("b", 128)
    ends = fx.run([step, a, b])
    N = fx.N
    gt_ = gt(a, b)
    ok, v = bins(N, step, a, b)

    def goals(e):
        g = []
        for c_, x, y in ((gt_, a, b), (b_not(gt_), b, a)):
            q = N.divmod(N.mul(x, 1 << 64), T(ex(y), 1, U128))[0]
            k = N.divmod(T(ex(sub(q, 1 << 64)), 0, U128), T(ex(step), 1, U128))[0]
            g.append(("twice the whole steps between the prices", b_implies(c_, b_and(gt(y, 0), gt(step, 0), le(q, U128), eq(e.value, N.mul(k, 2))))))
        return g

    def refuse(e):
        r = []
        for c_, x, y in ((gt_, a, b), (b_not(gt_), b, a)):
            q = N.divmod(N.mul(x, 1 << 64), T(ex(y), 1, U128))[0]
            k = N.divmod(T(ex(sub(q, 1 << 64)), 0, U128), T(ex(step), 1, U128))[0]
            r.append(b_and(c_, b_or(eq(y, 0), eq(step, 0), gt(q, U128), gt(N.mul(k, 2), U128))))
        return b_or(*r)
    spec(c, "distance of two prices", fx, ends, goals, refuse, "delta_bin", ["step", "a", "b"],
         {"step": [1844674407370955, 1, 1 << 60], "a": [1 << 64, 3 << 64, (1 << 64) + (1 << 60)], "b": [1 << 64, 5 << 63, (1 << 64) + (1 << 58)]})


def dyn(fx, init=None):
    e = fx.e
    tid = fx.prog.adt("dynamic_bonding_curve::state::config::DynamicFeeConfig")
    v = fx.struct(tid, "dyn", **({} if init is None else {"initialized": init}))
    fx.note_inputs(v, tid)
    return v, tid, View(e, v, tid)


def same_but(e, t, after, changes):
    return [("the %s" % n.replace("_", " "), eq(getattr(after, n), changes.get(n, getattr(t, n)))) for n in TRK]


BINS = sk.contract(r"VolatilityTracker::get_delta_bin_id$", "delta_bin")


def accumulate_task(c):
    fx = Fx(c, VT + "update_volatility_accumulator", hooks=[BINS])
    tv, tt, t = tracker(fx)
    dv, dt, d = dyn(fx)
    price = fx.u("price", 128)
    rt, rd = fx.ref(tv, tt), fx.ref(dv, dt)
    ends = fx.run([rt, rd, price])
    recs = lambda e: [r for r in e.st.notes if isinstance(r, sk.Rec)]

    def goals(e):
        r = recs(e)[-1]
        x = [y for y, _, _ in r.args]
        va = add(t.volatility_reference, fx.N.mul(r.val, 10000))
        return [("the distance between the price and the reference", b_and(eq(x[0], d.bin_step_u128),
                 b_or(b_and(eq(x[1], price), eq(x[2], t.sqrt_price_reference)), b_and(eq(x[2], price), eq(x[1], t.sqrt_price_reference)))))] + \
            same_but(e, t, e.after(rt), {"volatility_accumulator": ite(gt(va, d.max_volatility_accumulator), d.max_volatility_accumulator, va)})

    def refuse(e):
        rs = recs(e)
        if not rs:
            return False
        m = fx.N.mul(rs[-1].val, 10000)
        return b_or(gt(m, U128), gt(add(t.volatility_reference, m), U128))

    def rf(x):
        pref = [[[eq(d.bin_step_u128, 1844674407370955), eq(d.max_volatility_accumulator, 14_460_000)],
                 [eq(t.sqrt_price_reference, 1 << 64), eq(price, (1 << 64) + (1 << k))], [eq(t.volatility_reference, 10000)]] for k in (53, 60, 63)]
        return lambda conds, dk: C06.complete(fx.prog, fx.e, conds, recs(x), pref, 15)
    order = [getattr(d, n) for n in DYN] + [getattr(t, n) for n in TRK] + ["price"]
    run(c, "accumulation", fx, ends, goals, refuse, "update_accumulator", order, rf, rt)


def run(c, label, fx, ends, goals, refuse, name, order, rf, rt):
    """like spec, with the referenced state as the result"""
    for e in ends:
        if e.kind == "ok":
            e.shown = e.after(rt)
    good = True
    seen = set()
    for e in ends:
        rp = replay_state(name, fx, order, rt)
        ref = rf(e) if rf else None
        if e.kind == "ok":
            if e.okc is not True:
                good &= prove_fn(c, fx, e, [("%s: refuses only what it must" % label, b_implies(b_not(e.okc), refuse(e)))], rp, None, refine=ref)
            good &= prove_fn(c, fx, e, [("%s: %s" % (label, l), b_implies(e.okc, g)) for l, g in goals(e)], rp, None, refine=ref)
            if good and "ok" not in seen and c.witness(e, fx.e, label, replay=rp, refine=ref, extra=[e.okc] if e.okc is not True else [], timeouts=(3, 3)) == "sat":
                seen.add("ok")
        else:
            good &= prove_fn(c, fx, e, [("%s: refuses only what it must" % label, refuse(e))], rp, None, refine=ref)


def replay_state(name, fx, order, rt):
    def rp(c, end):
        args = []
        for n in order:
            v = n if isinstance(n, int) else c.ev(fx.inputs[n][0] if isinstance(n, str) and n in fx.inputs else n)
            args.append(("1" if v else "0") if isinstance(v, bool) else str(v))
        if end.kind == "panic":
            ret = "panic"
        elif end.kind == "err" or c.ev(end.okc) is not True:
            ret = "err"
        else:
            a = end.after(rt)
            ret = "ok " + ",".join(str(c.ev(getattr(a, n))) for n in TRK)
        return ["func %s %s" % (name, " ".join(args))], {"ret": ret}
    return rp


def references_task(c):
    fx = Fx(c, VT + "update_references")
    tv, tt, t = tracker(fx)
    dv, dt, d = dyn(fx)
    price, now = fx.u("price", 128), fx.u("now", 64)
    rt, rd = fx.ref(tv, tt), fx.ref(dv, dt)
    ends = fx.run([rt, rd, price, now])
    N = fx.N
    el = ite(ge(now, t.last_update_timestamp), sub(now, t.last_update_timestamp), 0)
    fresh = ge(el, d.filter_period)
    p = N.mul(t.volatility_accumulator, d.reduction_factor)
    vr = ite(lt(el, d.decay_period), N.divmod(p, 10000)[0], 0)
    order = [getattr(d, n) for n in DYN] + [getattr(t, n) for n in TRK] + ["price", "now"]
    run(c, "references", fx, ends,
        lambda e: same_but(e, t, e.after(rt), {"sqrt_price_reference": ite(fresh, price, t.sqrt_price_reference),
                                               "volatility_reference": ite(fresh, vr, t.volatility_reference)}),
        lambda e: b_and(fresh, lt(el, d.decay_period), gt(p, U128)), "update_references", order, None, rt)


def variable_task(c):
    fx = Fx(c, "dynamic_bonding_curve::state::config::DynamicFeeConfig::get_variable_fee_numerator")
    dv, dt, d = dyn(fx)
    tv, tt, t = tracker(fx)
    ends = fx.run([fx.ref(dv, dt), fx.ref(tv, tt)])
    fits, v = variable(fx.N, d, t)
    on = ne(d.initialized, 0)
    spec(c, "variable rate", fx, ends,
         lambda e: [("the quadratic function of the volatility, rounded up", eq(e.value, ite(on, v, 0)))],
         lambda e: b_and(on, b_not(fits)), "variable_rate", [getattr(d, n) for n in DYN] + [getattr(t, n) for n in TRK],
         {"dyn.variable_fee_control": [2000, 1 << 20, 1], "dyn.bin_step": [100, 1, 25], "tracker.volatility_accumulator": [123456, 14_460_000, 1]})


def goals(x, q):
    return [(l, c) for l, c in sk.books(x, q) if "volatility_tracker" in l]


def tasks():
    sw = dict(sk.swap_tasks(goals))
    return [("distance", bins_task), ("accumulation", accumulate_task), ("references", references_task), ("variable rate", variable_task),
            ("total rate", C06.linear_task("included"))] + [(k, sw[k]) for k in ("swap2 mode 0 collect 0", "swap2 mode 2 collect 1", "swap2 mode 1 collect 0")]


META = {"level": "model_checking", "funcs": FUNCS, "assumptions": sk.SWAP_ASSUME, "bounds": ["all configurations, prices, times and volatility data"]}
