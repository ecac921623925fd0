"""Fee computations: definitions over the integers, and runs of the real functions."""
from .fnkit import *

D = 1_000_000_000
MAXF = 990_000_000
CFG = "dynamic_bonding_curve::state::config::PoolFeesConfig::"
USE = ("use ::dynamic_bonding_curve::state::*; use ::dynamic_bonding_curve::state::fee::*; use ::dynamic_bonding_curve::base_fee::*; "
       "use ::dynamic_bonding_curve::params::swap::TradeDirection; "
       "let dir = |s: &str| if s == \"0\" { TradeDirection::BaseToQuote } else { TradeDirection::QuoteToBase }; ")


def ceil_frac(N, x, num, den):
    q, r = N.divmod(N.mul(x, num), den)
    return add(q, ite(cmp("Gt", r, 0), 1, 0))


def fee_of(N, rate, amount):
    return ceil_frac(N, amount, rate, D)


def included(N, rate, x):
    """the least amount whose part after fees is at least x"""
    d = sub(D, rate)
    return ceil_frac(N, x, D, T(ex(d), 1, D) if isinstance(d, T) else d)


# ------------------------------------------------------------------------------------------------ configurations
def pool_fees(fx, mode=None, dyn=None, name="fees", const=None):
    """(value, type, view of base, view of dynamic) of an arbitrary fee configuration"""
    e = fx.e
    tid = fx.prog.adt("dynamic_bonding_curve::state::config::PoolFeesConfig")
    bt, dt = fx.field_ty(tid, "base_fee"), fx.field_ty(tid, "dynamic_fee")
    bo = dict(const or {})
    if mode is not None:
        bo["base_fee_mode"] = mode
    base = fx.struct(bt, name + ".base", **bo)
    do = {} if dyn is None else {"initialized": dyn}
    dynv = fx.struct(dt, name + ".dyn", **do)
    v = fx.struct(tid, name, base_fee=base, dynamic_fee=dynv)
    fx.note_inputs(v, tid)
    return v, tid, View(e, base, bt), View(e, dynv, dt)


def tracker(fx, name="tracker"):
    tid = fx.prog.adt("VolatilityTracker")
    v = fx.struct(tid, name)
    fx.note_inputs(v, tid)
    return v, tid, View(fx.e, v, tid)


def variable(N, d, t):
    """(fits, the variable rate)"""
    p = N.mul(t.volatility_accumulator, d.bin_step)
    sq = N.mul(p, p)
    v = N.mul(sq, d.variable_fee_control)
    q, r = N.divmod(v, 100_000_000_000)
    fits = b_and(le(p, U128), le(sq, U128), le(add(v, 99_999_999_999), U128))
    return fits, add(q, ite(cmp("Gt", r, 0), 1, 0))


BASE = ["cliff_fee_numerator", "second_factor", "third_factor", "first_factor", "base_fee_mode"]
DYN = ["initialized", "max_volatility_accumulator", "variable_fee_control", "bin_step", "filter_period", "decay_period",
       "reduction_factor", "bin_step_u128"]
TRK = ["last_update_timestamp", "sqrt_price_reference", "volatility_accumulator", "volatility_reference"]


def fill(var, path, names, k):
    return "".join("%s.%s%s = p(&a[%d]); " % (var, path, n, k + i) for i, n in enumerate(names))


MKFEES = "let mut c = PoolFeesConfig::default(); " + fill("c", "base_fee.", BASE, 0) + fill("c", "dynamic_fee.", DYN, 5)
MKTRK = "let mut t = VolatilityTracker::default(); " + fill("t", "", TRK, 13)


def order_fees(b, d):
    return [getattr(b, n) for n in BASE] + [getattr(d, n) for n in DYN]


def order_trk(t):
    return [getattr(t, n) for n in TRK]


# ------------------------------------------------------------------------------------------------ rate limiter
def increment(N, bps):
    return N.divmod(N.mul(bps, D), 10000)[0]


def limiter_parts(N, c, bps, x0):
    i = increment(N, bps)
    mi = N.divmod(sub(MAXF, c), T(ex(i), 1, D) if not isinstance(i, int) else i)[0]
    return i, mi


def half(N, x):
    return N.divmod(x, 2)[0]


def marginal(N, c, i, mi, x0, a):
    """the sum of the marginal fees of an input a > x0, times 1e9"""
    q, b = N.divmod(sub(a, x0), x0)
    first = add(add(c, N.mul(c, q)), half(N, N.mul(N.mul(i, q), add(q, 1))))
    low = add(N.mul(x0, first), N.mul(b, add(c, N.mul(i, add(q, 1)))))
    top = add(add(c, N.mul(c, mi)), half(N, N.mul(N.mul(i, mi), add(mi, 1))))
    rest = add(N.mul(sub(q, mi), x0), b)
    high = add(N.mul(x0, top), N.mul(rest, MAXF))
    return ite(lt(q, mi), low, high)


def limiter_rate(N, c, i, mi, x0, a):
    f = marginal(N, c, i, mi, x0, a)
    t = N.divmod(add(f, D - 1), D)[0]
    r, m = N.divmod(N.mul(t, D), T(ex(a), 1, U64) if not isinstance(a, int) else a)
    return ite(le(a, x0), c, add(r, ite(cmp("Gt", m, 0), 1, 0))), t
