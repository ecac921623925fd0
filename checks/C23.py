"""Creating the locker of the creator's vested tokens."""
from vkit.ix import FOREIGN

from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the locker moves exactly the schedule's tokens from the sender's account it is given"]}


def goals(x):
    p, c = x.pre("virtual_pool"), x.pre("config")
    v = c.locked_vesting_config
    g = [("pool and config belong together", eq(p.config, x.key("config"))),
         ("the curve is completed and nothing is locked yet", eq(p.migration_progress, 1)),
         ("no token movement of its own", len(x.transfers()) == 0)] + no_other_token_ops(x)
    cs = cpis(x)
    ok = len(cs) == 1 and cs[0].disc == sha8("global:create_vesting_escrow_v2")
    g += [("one call, which creates the escrow", ok)]
    if ok:
        k = cs[0]
        a = k.args().params
        g += [("the locker is called", eq(k.program, FOREIGN["locker"])),
              ("vesting starts when the curve completed", eq(a.vesting_start_time, p.finish_curve_timestamp)),
              ("the cliff is the configured time after that", eq(
                  a.cliff_time, tmin(U64, add(p.finish_curve_timestamp, v.cliff_duration_from_migration_time)))),
              ("configured frequency", eq(a.frequency, v.frequency)),
              ("configured cliff amount", eq(a.cliff_unlock_amount, v.cliff_unlock_amount)),
              ("configured amount per period", eq(a.amount_per_period, v.amount_per_period)),
              ("configured number of periods", eq(a.number_of_period, v.number_of_period)),
              ("the recipient alone may change the recipient", eq(a.update_recipient_mode, 2)),
              ("only its creator, the pool authority, may cancel", eq(a.cancel_mode, 1)),
              ("the escrow is bound to this pool", eq(k.keys[0], base_pda(x))),
              ("the recipient is the creator", b_and(eq(k.keys[6], p.creator), eq(k.keys[6], x.key("creator")))),
              ("in the pool's base token", eq(k.keys[2], p.base_mint)),
              ("from the pool's base vault, by the pool authority", b_and(eq(k.keys[5], p.base_vault), eq(k.keys[4], AUTHORITY),
                                                                        k.signed_by_authority()))]
    g += [auth_lamports_safe(x)]
    return g + frame(x, "virtual_pool", {"migration_progress": 2}) + frame(x, "config")


def base_pda(x):
    from vkit.ix import pda
    s = b"base_locker"
    return pda(x.e, ((len(s), int.from_bytes(s, "little")), (32, x.key("virtual_pool"))), PROGRAM)[0]


def tasks():
    return [("create_locker", lambda c: each(c, "create_locker", goals))]
