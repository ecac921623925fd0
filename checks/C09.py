"""Partner and creator trading-fee claims."""
from .common import *

META = {
    "assumptions": ["accounts passed for different roles with mutable state are different accounts",
                    "the token programs move exactly the amount they are asked to move",
                    "a pool's base and quote vault are different accounts (they are derived from different mints)"],
}


def partner(x):
    p, c = x.pre("pool"), x.pre("config")
    bmax, qmax = argv(x)
    eb, eq_ = tmin(p.partner_base_fee, bmax), tmin(p.partner_quote_fee, qmax)
    g = [("only the partner of the pool's config claims", b_and(x.signer("fee_claimer"), eq(x.key("fee_claimer"), c.fee_claimer),
                                                               eq(p.config, x.key("config"))))]
    g += moves(x, [(p.base_vault, x.key("token_a_account"), eb, p.base_mint, AUTHORITY),
                   (p.quote_vault, x.key("token_b_account"), eq_, c.quote_mint, AUTHORITY)])
    g += frame(x, "pool", {"partner_base_fee": sub(p.partner_base_fee, eb), "partner_quote_fee": sub(p.partner_quote_fee, eq_)})
    g += frame(x, "config")
    return g


def creator(x):
    p = x.pre("pool")
    bmax, qmax = argv(x)
    eb, eq_ = tmin(p.creator_base_fee, bmax), tmin(p.creator_quote_fee, qmax)
    g = [("only the pool's creator claims", b_and(x.signer("creator"), eq(x.key("creator"), p.creator)))]
    g += moves(x, [(p.base_vault, x.key("token_a_account"), eb, p.base_mint, AUTHORITY),
                   (p.quote_vault, x.key("token_b_account"), eq_, x.key("quote_mint"), AUTHORITY)])
    g += frame(x, "pool", {"creator_base_fee": sub(p.creator_base_fee, eb), "creator_quote_fee": sub(p.creator_quote_fee, eq_)})
    return g


def tasks():
    return [("partner", lambda c: each(c, "claim_trading_fee", partner, vaults_differ)),
            ("creator", lambda c: each(c, "claim_creator_trading_fee", creator, vaults_differ))]
