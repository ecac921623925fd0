"""Leftover withdrawal."""
from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the token programs move exactly the amount they are asked to move"]}


def goals(x):
    p, c = x.pre("virtual_pool"), x.pre("config")
    bal = x.token("base_vault").amount
    owed = total([p.partner_base_fee, p.protocol_base_fee, p.creator_base_fee, p.protocol_migration_base_fee_amount])
    g = [("only after migration", eq(p.migration_progress, 3)),
         ("only for fixed supply", eq(c.fixed_token_supply_flag, 1)),
         ("only once", eq(p.is_withdraw_leftover, 0)),
         ("pool and config belong together", eq(p.config, x.key("config"))),
         ("paid to the token account of the configured receiver", eq(
             x.key("token_base_account"), ata(x.e, c.leftover_receiver, p.base_mint, x.key("token_base_program"))))]
    g += moves(x, [(p.base_vault, x.key("token_base_account"), sub(bal, owed), p.base_mint, AUTHORITY)])
    return g + frame(x, "virtual_pool", {"is_withdraw_leftover": 1}) + frame(x, "config")


def tasks():
    return [("withdraw_leftover", lambda c: each(c, "withdraw_leftover", goals))]
