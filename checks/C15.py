"""Privileged instructions and the signers they require."""
from vkit.ix import b58, pda

from vkit.sx import View

from .C28 import HOOK as ZAP
from .common import *

META = {"assumptions": ["accounts passed for different roles with mutable state are different accounts"]}
ADMINS = [b58("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"), b58("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX")]


def seed(b):
    return (len(b), int.from_bytes(b, "little"))


def own(x, *names):
    return [("the %s is a record of this program" % n.replace("_", " "), eq(x.owner0(n), PROGRAM)) for n in names]


def partner(pool):
    def goals(x):
        c = x.pre("config")
        g = [("the partner of the config signs", b_and(x.signer("fee_claimer"), eq(x.key("fee_claimer"), c.fee_claimer))),
             ("the config is the pool's", eq(x.pre(pool).config, x.key("config")))]
        return g + own(x, "config", pool)
    return goals


def creator(pool):
    def goals(x):
        return [("the creator of the pool signs", b_and(x.signer("creator"), eq(x.key("creator"), x.pre(pool).creator)))] + own(x, pool)
    return goals


def migration_fee(x):
    p, c = x.pre("virtual_pool"), x.pre("config")
    flag, = argv(x)
    return [("the partner or the creator signs for his own part", b_and(x.signer("sender"), eq(p.config, x.key("config")), b_or(
        b_and(eq(flag, 0), eq(x.key("sender"), c.fee_claimer)), b_and(eq(flag, 1), eq(x.key("sender"), p.creator)))))] + own(x, "virtual_pool", "config")


def operator(k):
    def goals(x):
        o = x.pre("operator")
        return [("a whitelisted operator signs", b_and(x.signer("signer"), eq(o.whitelisted_address, x.key("signer")))),
                ("its record holds the permission", eq(bit(x.e, o.permission, k), 1))] + own(x, "operator", "pool") + frame(x, "operator")
    return goals


def admin(x):
    return ("an administrator signs", b_and(x.signer("signer"), b_or(*[eq(x.key("signer"), a) for a in ADMINS])))


def create_operator(x):
    o = x.post("operator")
    perm, = argv(x)
    w = x.key("whitelisted_address")
    key = pda(x.e, (seed(b"operator"), (32, w)), PROGRAM)[0]
    return [admin(x), ("the payer signs", x.signer("payer")),
            ("a new record", x.st.mem.get(("acct", x.run.idx["operator"], "inited")) is True),
            ("the record is the address's own", eq(x.key("operator"), key)),
            ("whitelists the named address", eq(o.whitelisted_address, w)),
            ("grants exactly the permissions given", eq(o.permission, perm)),
            ("only known permissions, at least one", b_and(gt(perm, 0), lt(perm, 4)))]


def close(name):
    def goals(x):
        i = x.run.idx[name]
        return [admin(x), ("the record is closed", b_and(x.st.mem.get(("acct", i, "closed")) is True,
                                                         eq(x.st.mem.get(("acct", i, "owner")), 0))),
                ("its lamports go to the named receiver", b_and(eq(lamports(x, name), 0), eq(
                    lamports(x, "rent_receiver"), add(lamports0(x, "rent_receiver"), lamports0(x, name)))))] + own(x, name)
    return goals


def written(x, kind):
    """the only record of the kind written at the end"""
    cs = [c for c in x.calls("serialize") if c.ty.endswith("::" + kind)]
    x.e.st = x.st
    return View(x.e, cs[0].value, cs[0].tid) if len(cs) == 1 else None


def partner_metadata(x):
    m = written(x, "PartnerMetadata")
    if m is None:
        return [("one record is written", False)]
    key = pda(x.e, (seed(b"partner_metadata"), (32, x.key("fee_claimer"))), PROGRAM)[0]
    return [("the partner signs", b_and(x.signer("fee_claimer"), x.signer("payer"))), ("recorded for the partner", eq(m.fee_claimer, x.key("fee_claimer"))),
            ("in the partner's own record", eq(x.key("partner_metadata"), key)),
            ("a new record", x.st.mem.get(("acct", x.run.idx["partner_metadata"], "inited")) is True)]


def pool_metadata(x):
    m = written(x, "VirtualPoolMetadata")
    if m is None:
        return [("one record is written", False)]
    key = pda(x.e, (seed(b"virtual_pool_metadata"), (32, x.key("virtual_pool"))), PROGRAM)[0]
    return creator("virtual_pool")(x) + [
        ("recorded for the pool", eq(m.virtual_pool, x.key("virtual_pool"))), ("in the pool's own record", eq(x.key("virtual_pool_metadata"), key)),
        ("a new record", x.st.mem.get(("acct", x.run.idx["virtual_pool_metadata"], "inited")) is True),
        ("the payer signs", x.signer("payer"))] + frame(x, "virtual_pool")


ROLES = [("claim_trading_fee", partner("pool")), ("claim_partner_pool_creation_fee", partner("pool")),
         ("partner_withdraw_surplus", partner("virtual_pool")), ("claim_creator_trading_fee", creator("pool")),
         ("creator_withdraw_surplus", creator("virtual_pool")), ("transfer_pool_creator", creator("virtual_pool")),
         ("create_virtual_pool_metadata", pool_metadata), ("withdraw_migration_fee", migration_fee),
         ("claim_protocol_fee", operator(0)), ("claim_protocol_pool_creation_fee", operator(0)),
         ("create_operator_account", create_operator), ("close_operator_account", close("operator")),
         ("close_claim_protocol_fee_operator", close("claim_fee_operator")), ("create_partner_metadata", partner_metadata),
         ("zap_protocol_fee", operator(1))]


def task(n, g):
    return lambda c: each(c, n, g, witnesses=2, **({"hooks": [ZAP]} if n == "zap_protocol_fee" else {}))


def tasks():
    return [(n, task(n, g)) for n, g in ROLES]
