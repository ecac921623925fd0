"""Protocol fee claims by the operator, to the treasury."""
from vkit.ix import b58

from .common import *

TREASURY = b58("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm")
META = {
    "assumptions": ["accounts passed for different roles with mutable state are different accounts",
                    "the token programs move exactly the amount they are asked to move",
                    "a pool's base and quote vault are different accounts"],
}


def base_claim(x, p, cap):
    t = tmin(p.protocol_base_fee, cap)
    m = tmin(p.protocol_migration_base_fee_amount, sub(cap, t))
    return t, m


def quote_claim(x, p, c, cap):
    """(from trading fees, from migration fees, surplus share)"""
    t = tmin(p.protocol_quote_fee, cap)
    m = tmin(p.protocol_migration_quote_fee_amount, sub(cap, t))
    s = sub(p.quote_reserve, c.migration_quote_threshold)
    due = b_and(eq(p.is_protocol_withdraw_surplus, 0), ge(p.quote_reserve, c.migration_quote_threshold))
    return t, m, due, ite(due, sub(s, percent(x.e, s, 80)), 0)


def claim(x):
    p, c, o = x.pre("pool"), x.pre("config"), x.pre("operator")
    bmax, qmax = argv(x)
    bt, bm = base_claim(x, p, bmax)
    qt, qm, due, sur = quote_claim(x, p, c, qmax)
    g = [("only a whitelisted operator with the claim permission", b_and(
        x.signer("signer"), eq(o.whitelisted_address, x.key("signer")), eq(bit(x.e, o.permission, 0), 1))),
        ("pool and config belong together", eq(p.config, x.key("config")))]
    eb, eqq = add(bt, bm), add(add(qt, qm), sur)
    g += moves(x, [(p.base_vault, x.key("token_base_account"), eb, p.base_mint, AUTHORITY),
                   (p.quote_vault, x.key("token_quote_account"), eqq, c.quote_mint, AUTHORITY)])
    g += [("base fees go to the treasury's token account", b_or(eq(eb, 0), eq(
        x.key("token_base_account"), ata(x.e, TREASURY, x.key("base_mint"), x.key("token_base_program"))))),
        ("quote fees go to the treasury's token account", b_or(eq(eqq, 0), eq(
            x.key("token_quote_account"), ata(x.e, TREASURY, x.key("quote_mint"), x.key("token_quote_program")))))]
    g += frame(x, "pool", {
        "protocol_base_fee": sub(p.protocol_base_fee, bt),
        "protocol_migration_base_fee_amount": sub(p.protocol_migration_base_fee_amount, bm),
        "protocol_quote_fee": sub(p.protocol_quote_fee, qt),
        "protocol_migration_quote_fee_amount": sub(p.protocol_migration_quote_fee_amount, qm),
        "is_protocol_withdraw_surplus": ite(due, 1, p.is_protocol_withdraw_surplus)})
    return g + frame(x, "config") + frame(x, "operator")


def tasks():
    return [("claim_protocol_fee", lambda c: each(c, "claim_protocol_fee", claim, vaults_differ, witnesses=6))]
