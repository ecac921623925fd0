"""Solvency: the vaults cover what the pool owes."""
from . import C20
from .allkit import *

META = {"assumptions": ASSUME + ["the AMM and the locker take exactly the amounts they are asked to take"],
        "bounds": ["the instruction that migrates to the second-generation AMM is decided in C21",
                   "one instruction at a time: the invariant is carried over histories by induction"]}


def percent_(x, v, p):
    return percent(x.e, v, p)


def surplus_parts(x, p, c):
    """(partner, creator, protocol) parts of the surplus"""
    s = sub(p.quote_reserve, c.migration_quote_threshold)
    share = percent_(x, s, 80)
    part, crea = split_creator(x.e, share, c.creator_trading_fee_percentage)
    return part, crea, sub(s, share)


def fee_parts(x, p, c):
    t = c.migration_quote_threshold
    left = x.e.N.divmod(add(x.e.N.mul(t, sub(100, c.migration_fee_percentage)), 99), 100)[0]
    fee = sub(t, left)
    crea = percent_(x, fee, c.creator_migration_fee_percentage)
    return sub(fee, crea), crea


def owed_base(p):
    return total([p.base_reserve, p.protocol_base_fee, p.partner_base_fee, p.creator_base_fee, p.protocol_migration_base_fee_amount])


def owed_quote(x, p, c, parts):
    """what the quote vault still has to pay: fees, and the reserve less what was withdrawn from it"""
    o = total([p.quote_reserve, p.protocol_quote_fee, p.partner_quote_fee, p.creator_quote_fee, p.protocol_migration_quote_fee_amount])
    if parts is None:
        return o
    (sp, sc, so), (fp, fc) = parts
    st = p.migration_fee_withdraw_status
    for flag, v in ((ne(p.is_partner_withdraw_surplus, 0), sp), (ne(p.is_creator_withdraw_surplus, 0), sc),
                    (ne(p.is_protocol_withdraw_surplus, 0), so), (eq(bit(x.e, st, 2), 1), fp), (eq(bit(x.e, st, 1), 1), fc)):
        o = sub(o, ite(flag, v, 0))
    return o


def change(x, vault):
    t = 0
    for m in x.transfers():
        t = add(t, ite(eq(m.dst, vault), m.amount, 0))
        t = sub(t, ite(eq(m.src, vault), m.amount, 0))
    return t


def goals(n, x):
    r = pool_of(x)
    if r is None:
        return [("tokens move only for a pool", len(x.transfers()) == 0)]
    p, a = x.pre(r), x.post(r)
    cs = records(x, "PoolConfig")
    c = x.pre(cs[0]) if cs else None
    parts = None
    if c is not None and n in ("withdraw_migration_fee", "creator_withdraw_surplus", "partner_withdraw_surplus", "claim_protocol_fee", "zap_protocol_fee"):
        parts = surplus_parts(x, p, c), fee_parts(x, p, c)
    h = b_and(vaults_differ(x, r), *[b_and(ne(m.dst, p.base_vault), ne(m.dst, p.quote_vault)) for m in x.transfers()])
    g = []
    if n == "withdraw_leftover":
        bal = x.token("base_vault").amount
        g.append(("the base fees stay in the vault", ge(add(bal, change(x, p.base_vault)), sub(owed_base(a), a.base_reserve))))
    else:
        g.append(("the base vault covers what is owed as before", ge(change(x, p.base_vault), sub(owed_base(a), owed_base(p)))))
    g.append(("the quote vault covers what is owed as before",
              ge(change(x, p.quote_vault), sub(owed_quote(x, a, c, parts), owed_quote(x, p, c, parts)))))
    if parts is not None:
        g.append(("the parts of the surplus never exceed it", b_implies(ge(p.quote_reserve, c.migration_quote_threshold), le(
            total(parts[0]), sub(p.quote_reserve, c.migration_quote_threshold)))))
    return [(l, b_implies(h, z)) for l, z in g]


def swap(x, q):
    p, a = q.p, x.post("pool")
    return [("the base vault covers what is owed as before", ge(change(x, p.base_vault), sub(owed_base(a), owed_base(p)))),
            ("the quote vault covers what is owed as before", ge(change(x, p.quote_vault), sub(owed_quote(x, a, None, None), owed_quote(x, p, None, None)))),
            ] + pick(sk.books(x, q), "completed curve leaves enough")


MOVING = [n for n in INSTR if n.startswith(("claim_", "withdraw_", "zap")) or n.endswith("surplus")] + ["transfer_pool_creator"]


def migrate(n, x):
    return pick(C20.migrate(x), "deposited|burned|enough base|complete|transfers|protocol_migration")


def tasks():
    return all_tasks(goals, MOVING) + [task("migrate_meteora_damm", migrate)] + \
        swaps(swap, ("swap2 mode 0 collect 0", "swap2 mode 1 collect 1", "swap2 mode 2 collect 0", "swap collect 1"))
