"""Migration of a completed pool to the first-generation (constant-product) AMM."""
from vkit.ix import FOREIGN

from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "the AMM and the token program move exactly the amounts they are asked to move"]}

BPS = {0: 25, 1: 30, 2: 100, 3: 200, 4: 400, 5: 600}


def accrued_base(p):
    return total([p.protocol_base_fee, p.partner_base_fee, p.creator_base_fee])


def migration_amounts(x, p, c):
    """(base, quote) for the new pool before the protocol's part, and the protocol's parts"""
    e = x.e
    quote = ceil_div(e, e.N.mul(c.migration_quote_threshold, sub(100, c.migration_fee_percentage)), 100)
    base = c.migration_base_threshold
    bps = p.protocol_liquidity_migration_fee_bps
    return base, quote, floor_frac(e, base, bps, 10000), floor_frac(e, quote, bps, 10000)


def lp_parts(x, c, lp):
    e = x.e
    pl = percent(e, lp, c.partner_permanent_locked_liquidity_percentage)
    pv = percent(e, lp, c.partner_liquidity_vesting_info.vesting_percentage)
    pf = percent(e, lp, c.partner_liquidity_percentage)
    cl = percent(e, lp, c.creator_permanent_locked_liquidity_percentage)
    cv = percent(e, lp, c.creator_liquidity_vesting_info.vesting_percentage)
    return pl, pv, pf, cl, cv


def burnable(c, left):
    cap = ite(eq(c.fixed_token_supply_flag, 1), sub(c.pre_migration_token_supply, c.post_migration_token_supply), U64)
    return tmin(cap, left)


def migrate(x):
    e = x.e
    p, m, c = x.pre("virtual_pool"), x.pre("migration_metadata"), x.pre("config")
    dc = x.token("damm_config")
    base, quote, pb, pq = migration_amounts(x, p, c)
    vault0 = x.token("base_vault")
    g = [("only at the locked stage", eq(p.migration_progress, 2)),
         ("only when the curve is complete", ge(p.quote_reserve, c.migration_quote_threshold)),
         ("only for configs that chose this AMM", eq(c.migration_option, 0)),
         ("config, record and vaults belong to the pool", b_and(
             eq(p.config, x.key("config")), eq(m.virtual_pool, x.key("virtual_pool")),
             eq(p.base_vault, x.key("base_vault")), eq(p.quote_vault, x.key("quote_vault")))),
         ("the target configuration belongs to the AMM", eq(x.owner0("damm_config"), FOREIGN["dynamic_amm"])),
         ("the target configuration is controlled by this program", eq(dc.pool_creator_authority, AUTHORITY)),
         ("the target pool opens at once", eq(dc.activation_duration, 0)),
         ("no partner fee in the target pool", eq(dc.partner_fee_numerator, 0)),
         ("no vault configuration in the target pool", eq(dc.vault_config_key, 0))]
    q = floor_frac(e, dc.pool_fees.trade_fee_numerator, 10000, dc.pool_fees.trade_fee_denominator)
    g += [("the fee option is known", le(c.migration_fee_option, 6))]
    for o, bps in BPS.items():
        g.append(("fee option %d means %d bps" % (o, bps), b_implies(eq(c.migration_fee_option, o), eq(q, bps))))
    cs = cpis(x)
    ok = len(cs) == 1 and cs[0].disc == sha8("global:initialize_permissionless_constant_product_pool_with_config2")
    g.append(("one call, which creates the pool", ok))
    if not ok:
        return g
    cc = cs[0]
    a = cc.args()
    g += [("the AMM is called", eq(cc.program, FOREIGN["dynamic_amm"])),
          ("enough base tokens are there besides the fees owed", ge(sub(vault0.amount, accrued_base(p)), base)),
          ("base amount deposited", eq(a.token_a_amount, sub(base, pb))),
          ("quote amount deposited", eq(a.token_b_amount, sub(quote, pq))),
          ("deposited from the pool's vaults", b_and(eq(cc.keys[13], p.base_vault), eq(cc.keys[14], p.quote_vault))),
          ("with the checked target configuration", eq(cc.keys[1], x.key("damm_config"))),
          ("in the right order of mints", b_and(eq(cc.keys[3], x.key("token_a_mint")), eq(cc.keys[4], x.key("token_b_mint")))),
          ("by the pool authority", b_and(cc.signed_by_authority(), eq(cc.keys[18], AUTHORITY))),
          ("opens immediately", eq(field_of(x, a.activation_point), 0)),
          auth_lamports_safe(x)]
    n = cc.call.index
    vault1 = x.token_at("base_vault", n)
    lp = x.token_at("virtual_pool_lp", n)
    g += [("liquidity tokens are read from the account the AMM pays", eq(cc.keys[15], x.key("virtual_pool_lp")))]
    left = sub(vault1.amount, add(accrued_base(p), pb))
    want = burnable(c, left)
    burns = x.calls("token.burn")
    g.append(("at most one burn", len(burns) <= 1))
    g.append(("what is burned is there", ge(left, 0)))
    if burns:
        b = burns[0].args
        g += [("burned amount", eq(b[5], want)), ("burned from the base vault", eq(b[1], p.base_vault)),
              ("the burned mint", eq(b[2], x.key("token_a_mint"))), ("burned by the authority", eq(b[3], AUTHORITY))]
    else:
        g.append(("nothing to burn", eq(want, 0)))
    g += [("no transfers", len(x.transfers()) == 0)] + no_other_token_ops(x, ("token.burn",))
    pl, pv, pf, cl, cv = lp_parts(x, c, lp.amount)
    rest = sub(lp.amount, total([pl, pv, pf, cl, cv]))
    mp = x.post("migration_metadata")
    g += frame(x, "migration_metadata", {
        "lp_mint": x.key("lp_mint"), "partner_locked_liquidity": pl, "partner_liquidity": pf,
        "creator_locked_liquidity": cl, "creator_liquidity": rest})
    g.append(("without vesting the shares add up to the liquidity minted", b_implies(
        b_and(eq(c.partner_liquidity_vesting_info.vesting_percentage, 0), eq(c.creator_liquidity_vesting_info.vesting_percentage, 0)),
        eq(total([mp.partner_locked_liquidity, mp.partner_liquidity, mp.creator_locked_liquidity, mp.creator_liquidity]), lp.amount))))
    g += frame(x, "virtual_pool", {"migration_progress": 3, "is_migrated": 1, "protocol_migration_base_fee_amount": pb,
                                   "protocol_migration_quote_fee_amount": pq})
    g += frame(x, "config")
    return g


def metadata(x):
    p, c = x.pre("virtual_pool"), x.pre("config")
    from vkit.ix import pda
    key = pda(x.e, ((len(b"meteora"), int.from_bytes(b"meteora", "little")), (32, x.key("virtual_pool"))), PROGRAM)[0]
    m = x.post("migration_metadata")
    g = [("only for configs that chose this AMM", eq(c.migration_option, 0)),
         ("config of the pool", eq(p.config, x.key("config"))),
         ("the record is the pool's own", eq(x.key("migration_metadata"), key)),
         ("the record did not exist", x.st.mem.get(("acct", x.run.idx["migration_metadata"], "inited")) is True),
         ("records the pool", eq(m.virtual_pool, x.key("virtual_pool"))),
         ("records the partner", eq(m.partner, c.fee_claimer)),
         ("paid by a signer", x.signer("payer"))]
    for f in ("lp_mint", "partner_locked_liquidity", "partner_liquidity", "creator_locked_liquidity", "creator_liquidity",
              "creator_locked_status", "partner_locked_status", "creator_claim_status", "partner_claim_status"):
        g.append(("%s starts empty" % f, eq(getattr(m, f), 0)))
    return g + frame(x, "virtual_pool") + frame(x, "config") + [("no transfers", len(x.transfers()) == 0)]


def tasks():
    return [("migrate", lambda c: each(c, "migrate_meteora_damm", migrate)),
            ("metadata", lambda c: each(c, "migration_meteora_damm_create_metadata", metadata))]
