"""C24: the quote library computes what the program's swap would do."""
from vkit import build
from vkit.refine import refine as complete
from .feekit import *
from . import C06
from . import swapkit as sk

NAMES = {sk.EXACT_IN: "quote_exact_in", sk.PARTIAL: "quote_partial_fill", sk.EXACT_OUT: "quote_exact_out"}
QUSE = ("use ::dynamic_bonding_curve::state::*; "
        "let h = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }; "
        "let mut b = h(&a[0]); b.resize(std::mem::size_of::<VirtualPool>(), 0); let pool: VirtualPool = bytemuck::pod_read_unaligned(&b); "
        "let mut b = h(&a[1]); b.resize(std::mem::size_of::<PoolConfig>(), 0); let config: PoolConfig = bytemuck::pod_read_unaligned(&b); ")
for m, n in NAMES.items():
    ref = "a[6] == \"1\", " if m != sk.EXACT_OUT else ""
    Funcs.table[n] = QUSE + ("match ::dynamic_bonding_curve_sdk::%s::%s(&pool, &config, a[2] == \"1\", p(&a[3]), p(&a[4]), p(&a[5]), %sa[%d] == \"1\") "
                             "{ Ok(x) => format!(\"ok {},{},{},{},{},{},{},{}\", x.included_fee_input_amount, x.excluded_fee_input_amount, x.amount_left, "
                             "x.output_amount, x.next_sqrt_price, x.trading_fee, x.protocol_fee, x.referral_fee), Err(_) => \"err\".to_string() }"
                             % (n, n, ref, 7 if m != sk.EXACT_OUT else 6))


class At:
    """what the reference model of the swap needs of a path of a quote"""

    def __init__(self, fx, end):
        self.e, self.st = fx.e, end.st


class QuoteRef(sk.SwapRef):
    """the swap of the program in the state the quote is asked for"""

    def __init__(self, fx, end, a, mode, cases):
        x = At(fx, end)
        self.x, self.e, self.mode = x, fx.e, mode
        self.cases, self.asked = dict(cases), []
        self.known = lambda c: sk.known(x, c)
        self.R = sk.Ref(x)
        p, c = self.p, self.c = a["pool"], a["config"]
        self.a0 = a["amount"]
        self.point = ite(eq(c.activation_type, 0), a["slot"], a["time"])
        self.sell = next((v for v in (True, False) if sk.path_says(x, a["sell"] if v else b_not(a["sell"]))), a["sell"])
        self.dir = ite(self.sell, sk.SELL, sk.BUY)
        buy = b_not(self.sell)
        self.on_input = self.known(b_and(buy, eq(c.collect_fee_mode, 0)))
        self.on_base = self.known(b_and(buy, eq(c.collect_fee_mode, 1)))
        self.referral = a["referral"] if isinstance(a["referral"], bool) else self.known(a["referral"])
        self.eligible = self.split("eligible", a["eligible"])
        v = p.volatility_tracker
        pad = [y for _, y in leaves(self.e, v.padding._v, v.padding._t)] if hasattr(v.padding, "_v") else [v.padding]
        pad = [self.e.bytes_to_int(y) if type(y) in (sk.PB, sk.BA) else y for y in pad]
        # the rate depends on the volatility data only through the accumulator, which a swap does not change before the rate is used
        self.tr = [v.last_update_timestamp] + pad + [v.sqrt_price_reference, v.volatility_accumulator, v.volatility_reference]


def refs(fx, end, a, mode):
    todo = [{}]
    while todo:
        c = todo.pop()
        q = QuoteRef(fx, end, a, mode, c)
        q.next = None
        q.quote(mode)
        for n, _ in q.asked:
            if n not in c:
                todo.append({**{k: v for k, v in q.cases.items() if k in c or k == n}, n: False})
                c = {**c, n: True}
        yield q


RESULT = [("included_fee_input_amount", "included"), ("excluded_fee_input_amount", "excluded"), ("amount_left", "left"), ("output_amount", "output"),
          ("next_sqrt_price", "next"), ("trading_fee", "trading"), ("protocol_fee", "protocol"), ("referral_fee", "ref_fee")]


def quote_task(mode, coll, sell):
    def run(c):
        n = NAMES[mode]
        prog = build.program("dynamic_bonding_curve_sdk", "dynamic-bonding-curve-sdk")
        fx = Fx(c, "dynamic_bonding_curve_sdk::%s::%s" % (n, n), prog=prog, hooks=sk.CONTRACTS + sk.SUMMARIES + sk.MERGED)
        e = fx.e
        pt, ct = fx.pointee(0), fx.pointee(1)
        pv = e.fresh_of(pt, "pool")
        cv = fx.struct(ct, "config", collect_fee_mode=coll)
        a = {"pool": View(e, pv, pt), "config": View(e, cv, ct), "sell": sell, "time": fx.u("timestamp", 64), "slot": fx.u("slot", 64),
             "amount": fx.u("amount", 64), "referral": fx.b("has_referral") if mode != sk.EXACT_OUT else False, "eligible": fx.b("eligible")}
        args = [fx.ref(pv, pt), fx.ref(cv, ct), sell, a["time"], a["slot"], a["amount"]]
        if mode != sk.EXACT_OUT:
            args.append(a["referral"])
        args.append(a["eligible"])
        ends = fx.run(args, deadline=400)
        wit = k = 0
        for x in ends:
            if x.kind != "ok":
                if not any(isinstance(r, sk.Rec) for r in x.st.notes):
                    c.prove(x, [("%s: only completed pools, empty amounts and unknown activation types are refused outright" % n,
                                 b_or(ge(a["pool"].quote_reserve, a["config"].migration_quote_threshold), eq(a["amount"], 0), gt(a["config"].activation_type, 1)))],
                            e, replay=replay(n, fx, a, pv, pt, cv, ct, mode))
                continue
            k += 1
            for q in refs(fx, x, a, mode):
                if q.next is None:
                    c.obls.append({"name": "%s: walk" % n, "verdict": "undecided", "why": "the code asks for another curve walk than expected"})
                    continue
                gs = [("%s: %s" % (n, f), eq(getattr(x.view, f), getattr(q, g))) for f, g in RESULT]
                gs += [("%s: %s" % (n, l), g) for l, g in q.ok]
                gs += [("%s: the amount is not zero" % n, gt(a["amount"], 0)),
                       ("%s: the curve is not complete" % n, lt(q.p.quote_reserve, q.c.migration_quote_threshold))]
                recs = sorted([r.under(True) for r in x.st.notes if isinstance(r, sk.Rec)] + q.R.recs, key=lambda r: r.seq)
                q.now = a["time"]
                hyp = q.R.hyps + [h for _, h in q.asked]
                rf = lambda conds, d, x=x, q=q, recs=recs: complete(prog, e, list(conds), recs, [([d] if d else []) + g for g in sk.plain(x, q)], 15)
                rp = replay(n, fx, a, pv, pt, cv, ct, mode)
                okc = x.okc
                c.prove(x, [(l, g if okc is True else b_implies(okc, g)) for l, g in gs], e, hyp=hyp, refine=rf, replay=rp)
                if any(o["verdict"] == "violated" for o in c.obls):
                    return
                if not wit:
                    wit = c.witness(x, e, "%s path %d" % (n, k), replay=rp, extra=[bx(h) for h in hyp if h is not True], refine=rf) == "sat"
        if not k:
            c.obls.append({"name": "%s: returns a quote" % n, "verdict": "undecided"})
    return run


def replay(n, fx, a, pv, pt, cv, ct, mode):
    def rp(c, end):
        s = lambda v: ("1" if v else "0") if isinstance(v, bool) else str(v)
        args = [c.layout(pv, pt).hex(), c.layout(cv, ct).hex()]
        for k in ("sell", "time", "slot", "amount", "referral", "eligible"):
            if k == "referral" and mode == sk.EXACT_OUT:
                continue
            args.append(s(a[k] if isinstance(a[k], bool) else c.ev(a[k])))
        if end.kind == "panic":
            ret = "panic"
        elif end.kind == "err" or c.ev(end.okc) is not True:
            ret = "err"
        else:
            ret = "ok " + ",".join(str(c.ev(getattr(end.view, f))) for f, _ in RESULT)
        return ["func %s %s" % (n, " ".join(args))], {"ret": ret}
    return rp


def executed(x, q):
    """the program's swap does the same"""
    return [g for g in sk.events(x, q)] + [g for g in sk.movement(x, q) if g[0].startswith("flow")]


def tasks():
    t = []
    for m in NAMES:
        for coll in (0, 1):
            for sell in (True, False):
                if coll == 1 and sell and TIER != "thorough":
                    continue        # the fees of a sale do not depend on the collection mode
                t.append(("%s collect %d %s" % (NAMES[m], coll, "sell" if sell else "buy"), quote_task(m, coll, sell)))
    t += [("rate %s %s" % (n, k), f(k)) for n, f in (("linear", C06.linear_task), ("exponential", C06.expo_task)) for k in ("included", "excluded")]
    sw = sk.swap_tasks(executed)
    return t + [s for s in sw if TIER == "thorough" or s[0].startswith("swap2")]


META = {"level": "model_checking", "funcs": list(NAMES.values()) + C06.FUNCS + ["get_fee_in_period"], "assumptions": sk.SWAP_ASSUME + [
            "the quote and the program are compared through the same reference model; curve walk, fee rate and volatility distance are the same functions of their arguments on both sides",
            "the fee rate depends on the volatility data only through the accumulator (decided here for the schedules, in C07 for the rate limiter)"],
        "bounds": ["quotes: every pool and config content, time, slot, amount and flag; a sale in the output collection mode only in the thorough tier",
                   "an exact-output quote has no referral argument: it is the result without a referral"]}
