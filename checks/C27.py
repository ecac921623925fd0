"""Transfer of the pool creator role."""
from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts"],
        "bounds": ["at most one remaining account"]}


def goals(x):
    p, c = x.pre("virtual_pool"), x.pre("config")
    pr = p.migration_progress
    m = x.pre("rem0")
    if m is None:
        settled = False
    else:
        settled = b_and(eq(m.virtual_pool, x.key("virtual_pool")), *[b_or(eq(getattr(m, a), 0), eq(getattr(m, s), 1)) for a, s in (
            ("partner_locked_liquidity", "partner_locked_status"), ("creator_locked_liquidity", "creator_locked_status"),
            ("partner_liquidity", "partner_claim_status"), ("creator_liquidity", "creator_claim_status"))])
    g = [("only the current creator", b_and(x.signer("creator"), eq(x.key("creator"), p.creator), eq(p.config, x.key("config")))),
         ("the new creator is someone else", ne(x.key("new_creator"), x.key("creator"))),
         ("only before bonding ends or after migration", b_or(eq(pr, 0), eq(pr, 3))),
         ("after a migration to the first AMM only when all liquidity is claimed and locked",
          b_or(eq(pr, 0), ne(c.migration_option, 0), settled))]
    g += frame(x, "virtual_pool", {"creator": x.key("new_creator")}) + frame(x, "config")
    if m is not None:
        g += frame(x, "rem0")
    return g + no_other_token_ops(x, ())


def tasks():
    return [("with_metadata", lambda c: each(c, "transfer_pool_creator", goals, witnesses=6)),
            ("without_metadata", lambda c: each(c, "transfer_pool_creator", goals, extra=0))]
