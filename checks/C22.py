"""Locking and claiming the liquidity tokens of a pool migrated to the first-generation AMM."""
from vkit.ix import FOREIGN

from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the token program and the AMM move exactly the amount they are asked to move"]}


def amount(x, kind):
    """(condition of acceptance, amount, flags set) by the roles of the owner"""
    p, m = x.pre("virtual_pool"), x.pre("migration_metadata")
    o = x.key("owner")
    isp, isc = eq(o, m.partner), eq(o, p.creator)
    if kind == "claim":
        pa, ca, pf, cf = m.partner_liquidity, m.creator_liquidity, "partner_claim_status", "creator_claim_status"
    else:
        pa, ca, pf, cf = m.partner_locked_liquidity, m.creator_locked_liquidity, "partner_locked_status", "creator_locked_status"
    pdone, cdone = eq(getattr(m, pf), 1), eq(getattr(m, cf), 1)
    amt = add(ite(isp, pa, 0), ite(isc, ca, 0))
    g = [("after migration", eq(p.migration_progress, 3)),
         ("record and pool belong together", eq(m.virtual_pool, x.key("virtual_pool"))),
         ("only for the partner or the creator", b_or(isp, isc)),
         ("once per role", b_and(b_implies(isp, b_not(pdone)), b_implies(isc, b_not(cdone)))),
         ("there is something to pay", gt(amt, 0))]
    fr = {pf: ite(isp, 1, getattr(m, pf)), cf: ite(isc, 1, getattr(m, cf))}
    return g, amt, frame(x, "migration_metadata", fr) + frame(x, "virtual_pool")


def claim(x):
    g, amt, fr = amount(x, "claim")
    m = x.pre("migration_metadata")
    d, s = x.token("destination_token"), x.token("source_token")
    g += [("paid to the owner's account", eq(x.key("destination_token"), ata(x.e, x.key("owner"), m.lp_mint, TOKEN))),
          ("from the authority's account", eq(x.key("source_token"), ata(x.e, AUTHORITY, m.lp_mint, TOKEN)))]
    g += moves(x, [(x.key("source_token"), x.key("destination_token"), amt, m.lp_mint, AUTHORITY)])
    g += [("nothing else is called", len(cpis(x)) == 0)]
    return g + fr


def lock(x):
    g, amt, fr = amount(x, "lock")
    m = x.pre("migration_metadata")
    cs = cpis(x)
    esc = x.token("lock_escrow")
    ok = len(cs) == 1 and cs[0].disc == sha8("global:lock")
    g += [("one call, which locks", ok),
          ("no token movement of its own", len(x.transfers()) == 0)] + no_other_token_ops(x)
    if ok:
        c = cs[0]
        g += [("the AMM is called", eq(c.program, FOREIGN["dynamic_amm"])),
              ("the exact amount is locked", eq(c.args().max_amount, amt)),
              ("by the pool authority", b_and(c.signed_by_authority(), eq(c.keys[3], AUTHORITY))),
              ("in the owner's escrow of this pool", b_and(eq(c.keys[2], x.key("lock_escrow")), eq(esc.owner, x.key("owner")),
                                                           eq(esc.pool, c.keys[0]), eq(c.keys[0], x.key("pool")))),
              ("of the recorded liquidity token, from the authority's account", b_and(
                  eq(c.keys[1], m.lp_mint), eq(c.keys[4], ata(x.e, AUTHORITY, m.lp_mint, TOKEN))))]
    g += [auth_lamports_safe(x)]
    return g + fr


def tasks():
    return [("claim", lambda c: each(c, "migrate_meteora_damm_claim_lp_token", claim)),
            ("lock", lambda c: each(c, "migrate_meteora_damm_lock_lp_token", lock))]
