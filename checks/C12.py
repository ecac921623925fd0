"""Migration fee withdrawal by partner and creator."""
from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the token programs move exactly the amount they are asked to move"]}


def goals(x):
    e = x.e
    p, c = x.pre("virtual_pool"), x.pre("config")
    flag, = argv(x)
    thr = c.migration_quote_threshold
    pct = c.migration_fee_percentage
    amount = e.N.divmod(add(e.N.mul(thr, sub(100, pct)), 99), 100)[0]
    fee = sub(thr, amount)
    crea = percent(e, fee, c.creator_migration_fee_percentage)
    part = sub(fee, crea)
    is_partner = eq(flag, 0)
    amt = ite(is_partner, part, crea)
    mask = ite(is_partner, 4, 2)
    st = p.migration_fee_withdraw_status
    g = [("only after the curve is complete", ge(p.quote_reserve, thr)),
         ("the flag names the partner or the creator", b_or(eq(flag, 0), eq(flag, 1))),
         ("only the entitled signer", b_and(x.signer("sender"), eq(x.key("sender"), ite(is_partner, c.fee_claimer, p.creator)),
                                            eq(p.config, x.key("config")))),
         ("only once", eq(ite(is_partner, bit(e, st, 2), bit(e, st, 1)), 0))]
    g += moves(x, [(p.quote_vault, x.key("token_quote_account"), amt, c.quote_mint, AUTHORITY)])
    g += frame(x, "virtual_pool", {"migration_fee_withdraw_status": add(st, mask)}) + frame(x, "config")
    return g


def tasks():
    return [("withdraw_migration_fee", lambda c: each(c, "withdraw_migration_fee", goals, witnesses=4))]
