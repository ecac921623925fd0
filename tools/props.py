"""The table of properties; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
SRC = "programs/dynamic-bonding-curve/src/"
SDK = "dynamic-bonding-curve-sdk/src/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [f if f.startswith(("dyn", "libs")) else SRC + f for f in files],
                          "mechanism": [{"name": n, "where": (w if w.startswith("dyn") else SRC + w)} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m} for n, m in state]} if state else {})}})


NOIX = "No unit test of the repository executes this instruction; the integration tests (outside the stable suite) run it on a handful of accounts and amounts, not on every account content, signer and amount."
SOME = "The unit tests evaluate a few hand-picked or randomly sampled values; the statement ranges over all 64/128-bit inputs, including the rounding and overflow edges no sample hits."

prop("C01", "A swap moves exactly the quoted tokens and books every fee once",
     "A successful swap takes the reported input from the trader into the input vault and pays the reported output from the output vault to the trader, and a referral fee to the referrer only if one is given. The pool's reserves change by exactly the amounts moved excluding all fees, and the protocol, partner and creator fee balances grow by exactly their shares, so that everything moved is accounted for once. The price becomes the quote's next price and nothing else about the pool changes except the volatility data and, on completion, the completion mark.",
     ["inputs", "configurations", "histories"], "every pool state, config, amount, direction, mode, referral choice and quote result",
     NOIX, ["instructions/swap/ix_swap.rs", "state/virtual_pool.rs"],
     [("handle_swap", "instructions/swap/ix_swap.rs"), ("apply_swap_result", "state/virtual_pool.rs")],
     [("quote_reserve/base_reserve", "tokens backing the curve"), ("*_fee fields", "fees owed")])
prop("C02", "Swap amount, slippage limit and mode are always honoured",
     "A swap of amount zero never succeeds. An exact-input swap consumes exactly the requested input and pays at least the caller's minimum; a partial-fill swap consumes at most the requested input and pays at least the minimum, and an exact-output swap pays exactly the requested output for at most the caller's maximum. No swap is accepted on a pool whose curve is completed.",
     ["inputs", "configurations"], "every mode, amount, limit and pool state",
     NOIX, ["instructions/swap/ix_swap.rs", "instructions/swap/swap_exact_in.rs", "instructions/swap/swap_exact_out.rs", "instructions/swap/swap_partial_fill.rs"],
     [("process_swap_exact_in", "instructions/swap/swap_exact_in.rs"), ("process_swap_exact_out", "instructions/swap/swap_exact_out.rs"), ("process_swap_partial_fill", "instructions/swap/swap_partial_fill.rs")])
prop("C03", "Curve step formulas equal the constant-liquidity definition, rounded safely",
     "For one liquidity segment, the token amounts between two prices are exactly the constant-liquidity formulas rounded down when the pool pays and up when the pool receives, and the next price after an input or output is the formula's value rounded so that the pool never gives more than the curve allows. Whenever the exact result does not fit, the computation fails instead of returning a wrong number.",
     ["inputs"], "every price pair in the allowed range, every 128-bit liquidity and 64-bit amount",
     SOME, ["curve.rs", "math/u128x128_math.rs"],
     [("get_delta_amount_base_unsigned", "curve.rs"), ("get_delta_amount_quote_unsigned", "curve.rs"), ("get_next_sqrt_price_from_input", "curve.rs"), ("get_next_sqrt_price_from_output", "curve.rs")])
prop("C04", "Walking the curve conserves value across segments",
     "A swap walks the liquidity segments in order without skipping or repeating any part of the curve: the sum over the segments of the exact segment formulas accounts for the whole input and output. A buy only raises and a sell only lowers the price, never beyond the migration price on a buy and never below the starting price on a sell, and input left over is reported rather than lost.",
     ["inputs", "configurations"], "every well-formed curve up to the stated number of segments, every price on it, every amount",
     "The tests swap a few amounts on one or two fixed curves; segment boundaries, partial fills and rounding at a boundary are not sampled.",
     ["state/virtual_pool.rs"],
     [("calculate_quote_to_base_from_amount_in", "state/virtual_pool.rs"), ("calculate_base_to_quote_from_amount_in", "state/virtual_pool.rs"), ("calculate_quote_to_base_from_amount_out", "state/virtual_pool.rs"), ("calculate_base_to_quote_from_amount_out", "state/virtual_pool.rs")])
prop("C05", "Trading fees are computed exactly and split without loss",
     "The trading fee on an amount is the fee rate applied to it rounded up, never exceeds the amount, and the amount before fees computed for a wanted amount after fees is sufficient. The fee is split into protocol, referral and trading parts that add up to the whole, where the protocol and referral shares are the fixed percentages rounded down and the referral share is zero when there is no referral. The trading part is split between partner and creator by the configured percentage without losing a unit.",
     ["inputs", "configurations"], "every amount, fee rate up to the maximum and creator percentage",
     SOME, ["state/fee.rs", "state/config.rs", "state/virtual_pool.rs"],
     [("get_fee_on_amount", "state/config.rs"), ("split_fees", "state/config.rs"), ("get_included_fee_amount", "state/config.rs"), ("get_excluded_fee_amount", "state/config.rs")])
prop("C06", "Base fee schedules decay exactly as configured and never leave the limits",
     "With a fee schedule the base fee rate at any time is the starting rate reduced linearly or exponentially by the number of whole periods elapsed since activation, capped at the configured number of periods (an exponential schedule is bounded by the starting rate). The total fee rate charged is the base rate plus the variable rate, capped at the protocol's maximum.",
     ["inputs", "configurations"], "every schedule, elapsed time and volatility state",
     SOME, ["base_fee/fee_scheduler.rs", "math/fee_math.rs", "state/config.rs"],
     [("FeeScheduler", "base_fee/fee_scheduler.rs"), ("get_fee_in_period", "math/fee_math.rs"), ("get_total_fee_numerator_from_included_fee_amount", "state/config.rs")])
prop("C07", "The rate limiter charges larger buys the configured marginal rates",
     "While active, the rate limiter charges the base rate on the first reference amount of a buy and a rate growing by the configured increment on every further reference amount, capped at the maximum rate; it applies only to buys and only within its duration after activation. The total fee equals the sum of the parts, and the inverse computation used for exact-output swaps charges the rate that this schedule gives the input it derives.",
     ["inputs", "configurations"], "every limiter setting, amount and time",
     SOME, ["base_fee/fee_rate_limiter.rs"],
     [("FeeRateLimiter", "base_fee/fee_rate_limiter.rs")])
prop("C08", "Volatility tracking decays, accumulates and caps as configured",
     "The dynamic fee's reference price and volatility are refreshed only when the filter period has passed, the reference volatility is the accumulated one reduced by the reduction factor within the decay period and zero after it, and the accumulated volatility is the reference plus the price distance, capped at the configured maximum. The variable fee is the quadratic function of volatility rounded up, and is zero when the dynamic fee is off.",
     ["inputs", "histories"], "every volatility state, price, time and dynamic fee setting",
     SOME, ["state/fee.rs", "state/config.rs"],
     [("VolatilityTracker", "state/fee.rs"), ("DynamicFeeConfig", "state/config.rs")])
prop("C09", "Partner and creator trading fees are paid only to them and only once",
     "A trading fee claim succeeds only when signed by the pool's configured partner (or by the pool's creator, for the creator's fee), pays the smaller of the balance owed and the requested maximum out of the pool's own vaults to the named token accounts, and reduces the fees owed by exactly the amounts paid. No other balance, pool field or config field changes.",
     ["inputs", "histories"], "every account set, pool state and requested maximum",
     NOIX, ["instructions/partner/ix_claim_partner_trading_fee.rs", "instructions/creator/ix_claim_creator_trading_fee.rs", "state/virtual_pool.rs"],
     [("handle_claim_trading_fee", "instructions/partner/ix_claim_partner_trading_fee.rs"), ("claim_partner_trading_fee", "state/virtual_pool.rs"), ("claim_creator_trading_fee", "state/virtual_pool.rs")])
prop("C10", "Protocol fees are paid only to the treasury by authorised operators",
     "A protocol fee claim succeeds only when signed by a whitelisted operator whose permissions include claiming, pays exactly the smaller of the trading and migration fees owed and the requested maximum from the pool's own vaults to the treasury's token accounts, and reduces what is owed by exactly that amount. Once the curve is completed, the protocol's part of the surplus is added to the quote payment, exactly once, and nothing else changes.",
     ["inputs", "histories"], "every account set, operator permission, pool state and requested maximum",
     NOIX, ["instructions/operator/ix_claim_protocol_fee.rs", "state/virtual_pool.rs"],
     [("handle_claim_protocol_fee", "instructions/operator/ix_claim_protocol_fee.rs"), ("claim_protocol_base_fee", "state/virtual_pool.rs")])
prop("C11", "Surplus beyond the migration threshold is split fairly and paid once",
     "After the curve is completed, the partner and the creator can each withdraw, once, exactly their configured part of the fixed share of the quote tokens collected beyond the migration threshold, to be paid from the pool's quote vault; nobody else can. The partner's, creator's and protocol's parts together never exceed the surplus.",
     ["inputs", "histories"], "every account set and pool state",
     NOIX, ["instructions/partner/ix_withdraw_partner_surplus.rs", "instructions/creator/ix_withdraw_creator_surplus.rs", "state/virtual_pool.rs"],
     [("get_partner_surplus", "state/virtual_pool.rs"), ("get_creator_surplus", "state/virtual_pool.rs")])
prop("C12", "The migration fee is withdrawn once, by its owner, in the right split",
     "After the curve is completed, the migration fee (the part of the threshold that does not go to the new pool) can be withdrawn once by the partner and once by the creator, each getting exactly the configured share so that both together get exactly the fee. Anyone else is refused and no other balance or field changes.",
     ["inputs", "histories"], "every account set, flag and fee configuration",
     "The unit tests evaluate the fee formula on a few random thresholds and the status bits on fixed values; no test runs the instruction on arbitrary accounts.",
     ["instructions/migration/ix_withdraw_migration_fee.rs", "state/config.rs", "state/virtual_pool.rs"],
     [("handle_withdraw_migration_fee", "instructions/migration/ix_withdraw_migration_fee.rs"), ("get_migration_fee_distribution", "state/config.rs")])
prop("C13", "Pool creation fees are claimed once by their owners and keep the pool alive",
     "The pool creation fee paid in lamports is claimed once by the partner (its share) and once by an authorised protocol operator to the treasury (the protocol's share, plus the fixed legacy fee where one is due), the shares adding up to the whole fee. The pool account pays exactly that amount, no other account's lamports change, and the pool always stays rent exempt.",
     ["inputs", "histories"], "every account set, lamport balance and claim status",
     NOIX, ["instructions/partner/ix_claim_partner_pool_creation_fee.rs", "instructions/operator/ix_claim_protocol_pool_creation_fee.rs", "state/virtual_pool.rs"],
     [("handle_claim_partner_pool_creation_fee", "instructions/partner/ix_claim_partner_pool_creation_fee.rs"), ("handle_claim_protocol_pool_creation_fee", "instructions/operator/ix_claim_protocol_pool_creation_fee.rs")])
prop("C14", "A pool's life only moves forward through its migration stages",
     "The migration stage of a pool changes only forward: a swap completes the curve exactly when the quote reserve reaches the threshold (going straight past the locker stage if there is nothing to lock), the locker moves it one stage on, and only migration of a completed pool at the right stage, with the matching option, marks it migrated. No instruction moves it back, and no instruction outside these changes it.",
     ["inputs", "histories"], "every instruction of the program from every pool state",
     NOIX, ["state/virtual_pool.rs", "instructions/swap/ix_swap.rs", "instructions/migration/create_locker.rs"],
     [("MigrationProgress", "state/virtual_pool.rs")], [("migration_progress", "stage of the pool"), ("is_migrated", "liquidity moved out")])
prop("C15", "Privileged actions require the right signer, whatever accounts are passed",
     "Every instruction that changes state or moves funds on behalf of a role succeeds only if the account bound to that role in the pool, config or operator record signed the transaction, and operator accounts are created or closed only by the hard-coded administrators. An operator record grants exactly the permissions stored in it.",
     ["inputs"], "every instruction that is restricted to a role, every account set",
     NOIX, ["access_control.rs", "instructions/admin/auth.rs", "state/operator.rs"],
     [("is_valid_operator_role", "access_control.rs"), ("assert_eq_admin", "instructions/admin/auth.rs")])
prop("C16", "Only economically sound configurations are accepted",
     "A config is created only if its fees, liquidity shares, locks, migration settings, supply and curve satisfy every documented limit: percentages add up to 100, enough liquidity stays locked, prices strictly increase within bounds, fee rates stay within the allowed range. The derived migration amounts and prices stored in it are the ones the curve implies, so that the curve can always be filled and migrated.",
     ["configurations", "inputs"], "every parameter set up to the stated number of curve points",
     "The unit tests build a few valid configurations; no test shows that every accepted configuration satisfies the limits.",
     ["instructions/partner/ix_create_config.rs", "params/fee_parameters.rs", "params/liquidity_distribution.rs"],
     [("ConfigParameters::validate", "instructions/partner/ix_create_config.rs"), ("handle_create_config", "instructions/partner/ix_create_config.rs")])
prop("C17", "A new pool starts in exactly the configured state",
     "Creating a pool records the signing creator, the config, the mint and the vaults, starts at the config's start price with the full curve supply as base reserve, empty quote reserve and no fees, and mints exactly the configured initial supply to the base vault. The token's mint authority is then removed or handed over as the config demands, and the creation fee is charged exactly once.",
     ["inputs", "configurations"], "every account set and config, both token programs",
     NOIX, ["instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs", "instructions/initialize_pool/ix_initialize_virtual_pool_with_token2022.rs", "state/virtual_pool.rs"],
     [("handle_initialize_virtual_pool_with_spl_token", "instructions/initialize_pool/ix_initialize_virtual_pool_with_spl_token.rs"), ("VirtualPool::initialize", "state/virtual_pool.rs")])
prop("C18", "Leftover base tokens go once to the configured receiver after migration",
     "Leftover base tokens can be withdrawn only from a migrated pool with a fixed supply, only once, only to the token account of the receiver stored in the config, and in exactly the amount of the vault's balance less all base fees still owed.",
     ["inputs", "histories"], "every account set, vault balance and pool state",
     NOIX, ["instructions/migration/withdraw_leftover.rs"], [("handle_withdraw_leftover", "instructions/migration/withdraw_leftover.rs")])
prop("C19", "Migrated liquidity is divided and locked exactly as configured",
     "The liquidity of the new pool is divided between partner and creator by the configured percentages, with the permanently locked, vested and free parts of each adding up to the whole without losing a unit. Liquidity counted as locked for at least a day after creation is never less than what the stored vesting terms keep locked, and never overstated.",
     ["inputs", "configurations"], "every liquidity amount, percentage set and vesting setting",
     "The unit tests sample a few vesting settings and random amounts; the statement covers every amount and setting.",
     ["state/config.rs", "params/liquidity_distribution.rs", "utils/damm_v2_utils.rs"],
     [("get_liquidity_distribution", "state/config.rs"), ("LiquidityVestingInfo", "state/config.rs")])
prop("C20", "Migration to the constant-product pool moves exactly the promised tokens",
     "Migrating to the first-generation pool is accepted only for a completed pool at the right stage whose target configuration matches the chosen fee and is controlled by this program, and deposits exactly the threshold's base and quote amounts less the migration fee and the protocol's migration fee. The resulting liquidity shares are recorded for partner and creator without loss, surplus supply is burned as configured, and the pool is marked migrated once.",
     ["inputs", "histories"], "every account set, balance and config",
     NOIX, ["instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs", "instructions/migration/meteora_damm/meteora_damm_metadata_state.rs"],
     [("handle_migrate_meteora_damm", "instructions/migration/meteora_damm/migrate_meteora_damm_initialize_pool.rs")])
prop("C21", "Migration to the second-generation pool moves exactly the promised tokens",
     "Migrating to the second-generation pool is accepted only for a completed pool at the right stage with a matching target configuration, deposits no more than the promised base and quote amounts less the migration and protocol fees, and splits the position between partner and creator with the configured permanent locks and vesting. Surplus supply is burned as configured, and the pool is marked migrated once.",
     ["inputs", "histories"], "every account set, balance and config",
     NOIX, ["instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs", "migration_handler/mod.rs", "migration_handler/concentrated_liquidity.rs", "migration_handler/compounding_liquidity.rs"],
     [("handle_migrate_damm_v2", "instructions/migration/dynamic_amm_v2/migrate_damm_v2_initialize_pool.rs")])
prop("C22", "Liquidity shares of a migrated pool are locked and claimed once by their owners",
     "After migration, the partner and the creator each get exactly their recorded unlocked liquidity tokens once, and exactly their recorded locked amount is locked in their name once, never more than recorded and never for anyone else. Claim and lock flags are set exactly once and nothing else in the record changes.",
     ["inputs", "histories"], "every account set and record",
     NOIX, ["instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs", "instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs"],
     [("handle_migrate_meteora_damm_claim_lp_token", "instructions/migration/meteora_damm/meteora_damm_claim_lp_token.rs"), ("handle_migrate_meteora_damm_lock_lp_token", "instructions/migration/meteora_damm/meteora_damm_lock_lp_token.rs")])
prop("C23", "The creator's vested tokens are locked exactly as configured",
     "When a completed pool has vesting configured, the locker is created exactly once, for the pool's creator, with exactly the configured schedule starting at the time the curve completed, funded from the base vault, such that only its recipient may redirect it and only the program's own authority may cancel it. The pool then advances one stage and nothing else changes.",
     ["inputs", "histories"], "every account set, vesting config and pool state",
     NOIX, ["instructions/migration/create_locker.rs", "params/liquidity_distribution.rs"],
     [("handle_create_locker", "instructions/migration/create_locker.rs")])
prop("C24", "Off-chain quotes equal what the program would execute",
     "For every pool and config state, time and amount, the quote library's results for exact-input, partial-fill and exact-output swaps are exactly what the program's swap would produce in that state, and the library refuses completed pools and amount zero as the program does.",
     ["inputs", "configurations"], "every pool state, config, time, amount and mode",
     "The library's tests compare one pool snapshot; agreement over all states is not sampled.",
     [SDK + "quote_exact_in.rs", SDK + "quote_exact_out.rs", SDK + "quote_partial_fill.rs"],
     [("quote_exact_in", SDK + "quote_exact_in.rs"), ("quote_exact_out", SDK + "quote_exact_out.rs"), ("quote_partial_fill", SDK + "quote_partial_fill.rs")])
prop("C25", "Wide arithmetic is exact or refused",
     "The shared multiply-divide, shift-divide and square root helpers return exactly the mathematical result rounded in the requested direction, and fail when it does not fit; the power helper is repeated squaring in 64.64 fixed point, each product rounded down; the checked arithmetic and casts never wrap or truncate.",
     ["inputs"], "every argument value",
     SOME, ["math/u128x128_math.rs", "math/utils_math.rs", "math/safe_math.rs", "math/fee_math.rs"],
     [("mul_div_u256", "math/u128x128_math.rs"), ("safe_mul_div_cast_u64", "math/utils_math.rs"), ("pow", "math/fee_math.rs"), ("SafeMath", "math/safe_math.rs")])
prop("C26", "Rate-limited pools accept one swap per transaction",
     "While the rate limiter applies to a trade, the swap is accepted only if the transaction contains no other swap on the same pool, whether called directly or from another program before or after it. The reduced first-swap fee is granted only when the configuration enables it and the pool is created in the same transaction.",
     ["inputs", "programs"], "every list of instructions in the transaction up to the stated length",
     NOIX, ["instructions/swap/ix_swap.rs", "utils/cpi_checker.rs"],
     [("validate_single_swap_instruction", "instructions/swap/ix_swap.rs"), ("validate_contain_initialize_pool_ix_and_no_cpi", "instructions/swap/ix_swap.rs")])
prop("C27", "Only the creator can hand over a pool, and the record follows",
     "Ownership of a pool passes to a new creator only when the current creator signs and the new one differs, and only before the curve completes or after migration; from then on the recorded creator is the new one and nothing else changes. If the liquidity went to the first-generation pool, the transfer is refused until every share of the liquidity has been claimed and locked.",
     ["inputs", "histories"], "every account set, pool state and migration record",
     NOIX, ["instructions/creator/ix_transfer_pool_creator.rs"],
     [("handle_transfer_pool_creator", "instructions/creator/ix_transfer_pool_creator.rs")])
prop("C28", "Protocol fees are zapped out only by authorised operators, only for conversion",
     "Protocol fees can be moved out for conversion only by a whitelisted operator with the conversion permission, only into that operator's own token account, only in tokens that cannot be claimed directly to the treasury, and only when a conversion back to the treasury follows in the same transaction. The amount moved is exactly the smaller of what is owed and the requested maximum, and what is owed falls by exactly that.",
     ["inputs", "histories"], "every account set, pool state and requested maximum",
     NOIX, ["instructions/operator/ix_zap_protocol_fee.rs"],
     [("handle_zap_protocol_fee", "instructions/operator/ix_zap_protocol_fee.rs")])
prop("C29", "Configs are immutable and pool identity never changes",
     "No instruction changes an existing config, and no instruction changes a pool's config, mint, vaults, type or activation point after creation. Price and reserves change only by swapping, and fees owed only by swapping, migrating and being claimed.",
     ["histories", "inputs"], "every instruction of the program from every state",
     NOIX, ["lib.rs", "state/config.rs", "state/virtual_pool.rs"],
     [("dynamic_bonding_curve", "lib.rs")])
prop("C30", "Tokens leave a vault only under the pool authority and in the right mint",
     "Whenever any instruction moves tokens out of a pool vault, the source is the vault recorded in that pool, the mint is the pool's own for that side, the token program called is the one that owns the vault and its mint, and the transfer is authorised by the program's pool authority. Tokens of one pool are never paid on account of another pool.",
     ["inputs", "histories"], "every instruction of the program that moves tokens, every account set",
     NOIX, ["utils/token.rs", "const_pda.rs"], [("transfer_token_from_pool_authority", "utils/token.rs")])
prop("C31", "Pool vaults always cover everything the pool owes",
     "If before an instruction the base and quote vaults hold at least the reserves and fees the pool still owes, they do so afterwards, whatever the instruction, so that every fee claim, surplus, migration and leftover withdrawal can always be paid.",
     ["histories", "inputs"], "every instruction of the program that moves tokens, from every state satisfying the invariant",
     "Solvency over arbitrary histories follows only from an inductive argument over every state; tests run a few histories.",
     ["state/virtual_pool.rs", "instructions/swap/ix_swap.rs", "utils/token.rs"], [("VirtualPool", "state/virtual_pool.rs")])
