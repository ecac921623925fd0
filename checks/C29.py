"""Configs and the identity of pools never change; prices, reserves and fees only where they may."""
from .allkit import *

META = {"assumptions": ASSUME, "bounds": ["the instruction that migrates to the second-generation AMM is decided in C21"]}
IDENTITY = ["config", "base_mint", "base_vault", "quote_vault", "pool_type", "activation_point", "creator"]
MARKET = ["sqrt_price", "base_reserve", "quote_reserve", "has_swap", "volatility_tracker", "metrics"]
# the fees each instruction may change
MAY = {"claim_trading_fee": ["partner_base_fee", "partner_quote_fee"], "claim_creator_trading_fee": ["creator_base_fee", "creator_quote_fee"],
       "claim_protocol_fee": ["protocol_base_fee", "protocol_quote_fee"] + MIG_FEES,
       "zap_protocol_fee": ["protocol_base_fee", "protocol_quote_fee"] + MIG_FEES, "migrate_meteora_damm": MIG_FEES}


def goals(n, x):
    g = []
    for r in records(x, "PoolConfig"):
        g += frame(x, r)
    for r in records(x, "VirtualPool"):
        ident = [f for f in IDENTITY if not (n == "transfer_pool_creator" and f == "creator")]
        g += same(x, r, ident + MARKET + [f for f in POOL_FEES + MIG_FEES if f not in MAY.get(n, ())])
        if n in MAY and n != "migrate_meteora_damm":
            a, b = x.pre(r), x.post(r)
            g += [("%s: %s does not grow" % (r, f), le(getattr(b, f), getattr(a, f))) for f in MAY[n]]
    for r in records(x, "Operator") + records(x, "ClaimFeeOperator"):
        g += [] if n.startswith("close") else frame(x, r)
    return g


def swap(x, q):
    g = same(x, "pool", IDENTITY + MIG_FEES + ["protocol_liquidity_migration_fee_bps", "is_migrated", "creation_fee_bits",
                                                "migration_fee_withdraw_status", "is_withdraw_leftover"])
    a, b = x.pre("pool"), x.post("pool")
    return [("config unchanged", b_and(*[c for _, c in frame(x, "config")])), ("the pool's identity does not change", b_and(*[c for _, c in g])),
            ("no fee owed falls", b_and(*[ge(getattr(b, f), getattr(a, f)) for f in POOL_FEES]))]


def tasks():
    return all_tasks(goals) + swaps(swap, ("swap2 mode 0 collect 0", "swap2 mode 1 collect 1", "swap2 mode 2 collect 0", "swap collect 0"))
