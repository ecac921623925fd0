"""Pool creation fee claims (lamports)."""
from vkit.ix import b58

from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts",
                        "rent parameters are the chain's defaults (6960 lamports per byte, 128 bytes overhead)"]}
TREASURY = b58("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm")
RENT = (8 + 416 + 128) * 6960
LEGACY = 10_000_000


def lam_goals(x, to, amt):
    others = [n for n in x.run.fields if n not in ("pool", to)]
    g = [("the pool pays exactly the fee", eq(lamports(x, "pool"), sub(lamports0(x, "pool"), amt))),
         ("the receiver gets exactly the fee", eq(lamports(x, to), add(lamports0(x, to), amt))),
         ("the pool stays rent exempt", b_or(eq(amt, 0), ge(lamports(x, "pool"), RENT))),
         ("no other account's lamports change", b_and(*[eq(lamports(x, n), lamports0(x, n)) for n in others]))]
    return g + no_other_token_ops(x, ())


def partner(x):
    p, c = x.pre("pool"), x.pre("config")
    fee = c.pool_creation_fee
    part = sub(fee, percent(x.e, fee, 10))
    bits = p.creation_fee_bits
    g = [("only the partner", b_and(x.signer("fee_claimer"), eq(x.key("fee_claimer"), c.fee_claimer), eq(p.config, x.key("config")))),
         ("only once", eq(bit(x.e, bits, 1), 0)),
         ("there is a fee", gt(part, 0))]
    g += lam_goals(x, "fee_receiver", part)
    return g + frame(x, "pool", {"creation_fee_bits": add(bits, 2)}) + frame(x, "config")


def protocol(x):
    p, c, o = x.pre("pool"), x.pre("config"), x.pre("operator")
    e = x.e
    bits, lbits = p.creation_fee_bits, p.legacy_creation_fee_bits
    due = eq(bit(e, bits, 0), 0)
    legacy = b_and(eq(bit(e, lbits, 0), 1), eq(bit(e, lbits, 1), 0))
    amt = add(ite(due, percent(e, c.pool_creation_fee, 10), 0), ite(legacy, LEGACY, 0))
    g = [("only a whitelisted operator with the claim permission", b_and(
        x.signer("signer"), eq(o.whitelisted_address, x.key("signer")), eq(bit(e, o.permission, 0), 1))),
        ("paid to the treasury", eq(x.key("treasury"), TREASURY)),
        ("pool and config belong together", eq(p.config, x.key("config")))]
    g += lam_goals(x, "treasury", amt)
    return g + frame(x, "pool", {"creation_fee_bits": ite(due, add(bits, 1), bits),
                                 "legacy_creation_fee_bits": ite(legacy, add(lbits, 2), lbits)}) + frame(x, "config")


def tasks():
    return [("partner", lambda c: each(c, "claim_partner_pool_creation_fee", partner)),
            ("protocol", lambda c: each(c, "claim_protocol_pool_creation_fee", protocol, witnesses=6))]
