"""Moving protocol fees out for conversion (zap)."""
import re

from . import swapkit as sk
from .C10 import TREASURY, base_claim, quote_claim
from .common import *

META = {
    "assumptions": ["accounts passed for different roles with mutable state are different accounts",
                    "the token programs move exactly the amount they are asked to move",
                    "the check that a conversion back to the treasury follows is the external protocol-zap crate's, which is not available here: it is an "
                    "arbitrary verdict on the arguments it is given, and the list of excluded mints is a stand-in of two mints"],
}
DISALLOWED = [int.from_bytes(bytes([b]) * 32, "little") for b in (1, 2)]


def validate(e, st, fn, a, t):
    from vkit.sx import E, UNIT, Opq
    import z3
    e.N.n += 1
    b = z3.Bool("zap_out_follows#%d" % e.N.n)
    st.notes.append(("zapcheck", b, [a[0]] + [e.bytes_to_int(e.load(a[i])) for i in (1, 2, 5, 6)]))
    return E(ite(b, 0, 1), {0: (UNIT,), 1: (E(0, {}),)})


HOOK = (re.compile(r"validate_zap_out_to_treasury$"), validate)


def zap(x):
    e = x.e
    p, c, o = x.pre("pool"), x.pre("config"), x.pre("operator")
    cap, = argv(x)
    mint, rcv = x.key("token_mint"), x.key("receiver_token")
    base = eq(mint, p.base_mint)
    bt, bm = base_claim(x, p, cap)
    qt, qm, due, sur = quote_claim(x, p, c, cap)
    amt = ite(base, add(bt, bm), add(add(qt, qm), sur))
    vault = ite(base, p.base_vault, p.quote_vault)
    prog = x.key("token_program")
    g = [("only a whitelisted operator with the conversion permission", b_and(
        x.signer("signer"), eq(o.whitelisted_address, x.key("signer")), eq(bit(e, o.permission, 1), 1), eq(x.owner0("operator"), PROGRAM))),
        ("pool and config belong together", eq(p.config, x.key("config"))),
        ("a token of the pool", b_or(base, eq(mint, c.quote_mint))),
        ("not a token that can be claimed directly", b_and(*[ne(mint, d) for d in DISALLOWED])),
        ("something is owed", gt(amt, 0)),
        ("into the operator's own token account", eq(rcv, ata(e, x.key("signer"), mint, prog)))]
    zs = [n for n in x.st.notes if type(n) is tuple and n[0] == "zapcheck"]
    g.append(("a conversion back to the treasury is demanded", len(zs) == 1))
    if len(zs) == 1:
        _, verdict, (moved, prog_, to, treasury, paired) = zs[0]
        other = ite(base, c.quote_mint, p.base_mint)
        flag = ite(base, c.quote_token_flag, p.pool_type)
        g += [("the conversion check passed", verdict), ("for the amount moved", eq(moved, amt)),
              ("for this program, the receiver and the treasury", b_and(eq(prog_, PROGRAM), eq(to, rcv), eq(treasury, TREASURY))),
              ("for the treasury's account of the other token", eq(paired, ite(eq(flag, 0), ata(e, TREASURY, other, TOKEN), ata(e, TREASURY, other, TOKEN22))))]
    g += moves(x, [(vault, rcv, amt, mint, AUTHORITY)])
    nb = b_not(base)
    g += frame(x, "pool", {
        "protocol_base_fee": ite(base, sub(p.protocol_base_fee, bt), p.protocol_base_fee),
        "protocol_migration_base_fee_amount": ite(base, sub(p.protocol_migration_base_fee_amount, bm), p.protocol_migration_base_fee_amount),
        "protocol_quote_fee": ite(base, p.protocol_quote_fee, sub(p.protocol_quote_fee, qt)),
        "protocol_migration_quote_fee_amount": ite(base, p.protocol_migration_quote_fee_amount, sub(p.protocol_migration_quote_fee_amount, qm)),
        "is_protocol_withdraw_surplus": ite(b_and(nb, due), 1, p.is_protocol_withdraw_surplus)})
    return g + frame(x, "config") + frame(x, "operator")


def tasks():
    return [("zap_protocol_fee", lambda c: each(c, "zap_protocol_fee", zap, hooks=[HOOK], witnesses=4))]
