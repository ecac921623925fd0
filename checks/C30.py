"""Tokens leave a vault only under the pool authority and in the right mint."""
from . import C20, C22, C23
from .allkit import *

META = {"assumptions": ASSUME + ["a pool's base and quote vault are different accounts (they are derived from different mints)"], "bounds": ["the instruction that migrates to the second-generation AMM is decided in C21"]}
LP = {"migrate_meteora_damm_claim_lp_token"}


def sides(x, r):
    """(vault, mint) of the pool"""
    p = x.pre(r)
    cs = records(x, "PoolConfig")
    c = x.pre(cs[0]) if cs else None
    qm = c.quote_mint if c is not None else (x.token("quote_vault").mint if x.token("quote_vault") is not None else None)
    return p, c, ((p.base_vault, p.base_mint), (p.quote_vault, qm))


def goals(n, x):
    g = []
    r = pool_of(x)
    ms = x.transfers()
    if not ms:
        for k in cpis(x):
            if n not in ("create_locker", "migrate_meteora_damm", "migrate_meteora_damm_lock_lp_token", "migrate_meteora_damm_claim_lp_token"):
                g.append(("no foreign call in the authority's name", not k.signed_by_authority()))
        return g + [l for l in no_other_token_ops(x, ("token.burn",) if n == "migrate_meteora_damm" else ())]
    if r is None:
        return [("tokens move only for a pool", False)]
    p, c, sd = sides(x, r)
    if c is not None:
        g.append(("the config is the pool's", eq(p.config, x.key(records(x, "PoolConfig")[0]))))
    for k, m in enumerate(ms):
        if n in LP:
            md = x.pre("migration_metadata")
            g.append(("transfer %d: the pool's liquidity token from the authority's account" % k, b_or(eq(m.amount, 0), b_and(
                eq(md.virtual_pool, x.key(r)), eq(m.mint, md.lp_mint) if m.mint is not None else True, eq(m.src, ata(x.e, AUTHORITY, md.lp_mint, TOKEN)), eq(m.auth, AUTHORITY)))))
            continue
        alts = [b_and(eq(m.src, v), eq(m.mint, mt) if m.mint is not None and mt is not None else True) for v, mt in sd]
        g.append(("transfer %d: from the pool's vault of that mint, by the authority" % k, b_or(eq(m.amount, 0), b_and(b_or(*alts), eq(m.auth, AUTHORITY)))))
        g += [("transfer %d: %s" % (k, l), z) for l, z in program_owns(x, m)]
    return g + no_other_token_ops(x)


def program_owns(x, m):
    """the token program called owns the vault or its mint (a vault and its mint have the same owner)"""
    prog = m.call.args[0]
    mints = [b_and(eq(m.mint, x.key(f)), eq(prog, x.owner0(f))) for f in x.run.fields if f.endswith("mint") and m.mint is not None]
    return [("the token program called owns the vault (%s)" % f, b_implies(b_and(gt(m.amount, 0), eq(m.src, x.key(f)), vaults_differ(x, pool_of(x))), b_or(eq(prog, x.owner0(f)), *mints)))
            for f in x.run.fields if "vault" in f]


def swap(x, q):
    g = sk.movement(x, q)
    for k, m in enumerate(x.transfers()):
        g += [("transfer %d: %s" % (k, l), z) for l, z in program_owns(x, m)]
    return g


def part(mod, f, rx):
    return lambda n, x: pick(getattr(mod, f)(x), rx)


def tasks():
    out = all_tasks(goals, [n for n in INSTR if "metadata" not in n and "operator" not in n])
    out += [task("create_locker", part(C23, "goals", "vault|authority|base token|locker is called|pool and config")),
            task("migrate_meteora_damm", part(C20, "migrate", "burned|authority|vault|AMM is called|mints|belong")),
            task("migrate_meteora_damm_lock_lp_token", part(C22, "lock", "authority|AMM|escrow|belong"))]
    out = [(n if [y for y, _ in out[:i]].count(n) == 0 else n + " calls", f) for i, (n, f) in enumerate(out)]
    return out + swaps(swap, ("swap2 mode 0 collect 0", "swap2 mode 1 collect 1", "swap2 mode 2 collect 1", "swap collect 0"))
