"""Surplus withdrawal by partner and creator."""
from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the token programs move exactly the amount they are asked to move"]}


def side(x, who, flag, which):
    p, c = x.pre("virtual_pool"), x.pre("config")
    s = sub(p.quote_reserve, c.migration_quote_threshold)
    share = percent(x.e, s, 80)
    part, crea = split_creator(x.e, share, c.creator_trading_fee_percentage)
    amt = crea if which == "creator" else part
    g = [("only after the curve is complete", ge(p.quote_reserve, c.migration_quote_threshold)),
         ("only once", eq(getattr(p, flag), 0)),
         ("only the entitled signer", b_and(x.signer(who), eq(x.key(who), p.creator if which == "creator" else c.fee_claimer),
                                            eq(p.config, x.key("config"))))]
    g += moves(x, [(p.quote_vault, x.key("token_quote_account"), amt, c.quote_mint, AUTHORITY)])
    g += frame(x, "virtual_pool", {flag: 1}) + frame(x, "config")
    g += [("the three parties' parts never exceed the surplus", le(add(add(part, crea), sub(s, share)), s)),
          ("the part is not negative", ge(amt, 0))]
    return g


def tasks():
    return [("creator", lambda c: each(c, "creator_withdraw_surplus", lambda x: side(x, "creator", "is_creator_withdraw_surplus", "creator"))),
            ("partner", lambda c: each(c, "partner_withdraw_surplus", lambda x: side(x, "fee_claimer", "is_partner_withdraw_surplus", "partner")))]
