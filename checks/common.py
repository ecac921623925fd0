"""Shared parts of the properties' oracles."""
import hashlib

from vkit import terms as tm
from vkit.check import (Ctx, IxRun, eq, frame, leaves, ge, gt, le, lt, ne, sha8)
from vkit.conc import find_pda, kb
from vkit.ix import PROGRAM, TOKEN, TOKEN22, SYSTEM
from vkit.terms import T, add, b_and, b_iff, b_implies, b_not, b_or, bx, cmp, ex, ite, sub

AUTHORITY, AUTHORITY_BUMP = find_pda([b"pool_authority"], kb(PROGRAM))
U64 = (1 << 64) - 1


def tmin(a, b):
    return ite(cmp("Le", a, b), a, b)


def total(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def floor_frac(e, x, num, den):
    """floor(x * num / den)"""
    return e.N.divmod(e.N.mul(x, num), den)[0]


def ceil_div(e, a, b):
    q, r = e.N.divmod(a, b)
    return add(q, ite(cmp("Gt", r, 0), 1, 0))


def moves(x, flows, label=""):
    """goals: the only token movements are the given ones.
    flows: list of (source key, destination key, amount, mint key, authority or None)"""
    out = []
    ms = x.transfers()
    for k, m in enumerate(ms):
        alts = [eq(m.amount, 0)]
        for s, d, a, mint, auth in flows:
            c = [eq(m.src, s), eq(m.dst, d)]
            if m.mint is not None and mint is not None:
                c.append(eq(m.mint, mint))
            if auth is not None:
                c.append(eq(m.auth, auth))
            alts.append(b_and(*c))
        out.append(("%stransfer %d goes from and to the right accounts, of the right mint and authority" % (label, k), b_or(*alts)))
    for n, (s, d, a, mint, auth) in enumerate(flows):
        t = total([ite(b_and(eq(m.src, s), eq(m.dst, d)), m.amount, 0) for m in ms])
        out.append(("%sflow %d moves the exact amount" % (label, n), eq(t, a)))
    out += no_other_token_ops(x)
    return out


def no_other_token_ops(x, allowed=("token.transfer", "token.transfer_checked")):
    out = []
    for c in x.st.events:
        if c.kind.startswith("token") and c.kind not in allowed:
            out.append(("no other token operation (%s)" % c.kind, False))
    return out


def vault_flow(x, pool, side, dst, amount):
    """a transfer out of a pool vault, signed by the pool authority"""
    p = x.pre(pool)
    v = getattr(p, side + "_vault")
    return v, amount, dst


def distinct(x, *keys):
    out = []
    for i in range(len(keys)):
        for j in range(i):
            out.append(ne(keys[i], keys[j]))
    return out


ATA_PROGRAM = None


def ata(e, owner, mint, prog):
    """the associated token account address"""
    from vkit.ix import pda, b58
    return pda(e, ((32, owner), (32, prog), (32, mint)), b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"))[0]


def bit(e, x, k):
    """bit k of x, as 0 or 1"""
    q = e.N.divmod(x, 1 << k)[0]
    return e.N.divmod(q, 2)[1]


def field_of(x, v):
    return v._v.v if hasattr(v, "_v") else v


# ---------------------------------------------------------------------------------------------- instructions
# name -> (accounts structure, number of remaining accounts)
INSTR = {
    "claim_trading_fee": ("ClaimTradingFeesCtx", 0),
    "claim_creator_trading_fee": ("ClaimCreatorTradingFeesCtx", 0),
    "transfer_pool_creator": ("TransferPoolCreatorCtx", 1),
    "withdraw_migration_fee": ("WithdrawMigrationFeeCtx", 0),
    "creator_withdraw_surplus": ("CreatorWithdrawSurplusCtx", 0),
    "partner_withdraw_surplus": ("PartnerWithdrawSurplusCtx", 0),
    "claim_partner_pool_creation_fee": ("ClaimPartnerPoolCreationFeeCtx", 0),
    "claim_protocol_pool_creation_fee": ("ClaimProtocolPoolCreationFeeCtx", 0),
    "withdraw_leftover": ("WithdrawLeftoverCtx", 0),
    "claim_protocol_fee": ("ClaimProtocolFeesCtx", 0),
    "zap_protocol_fee": ("ix_zap_protocol_fee::ZapProtocolFee", 0),
    "create_operator_account": ("CreateOperatorAccountCtx", 0),
    "close_operator_account": ("CloseOperatorAccountCtx", 0),
    "close_claim_protocol_fee_operator": ("CloseClaimProtocolFeeOperatorCtx", 0),
    "create_partner_metadata": ("CreatePartnerMetadataCtx", 0),
    "create_virtual_pool_metadata": ("CreateVirtualPoolMetadataCtx", 0),
    "create_locker": ("CreateLockerCtx", 0),
    "migration_meteora_damm_create_metadata": ("MigrationMeteoraDammCreateMetadataCtx", 0),
    "migrate_meteora_damm": ("MigrateMeteoraDammCtx", 0),
    "migrate_meteora_damm_lock_lp_token": ("MigrateMeteoraDammLockLpTokenCtx", 0),
    "migrate_meteora_damm_claim_lp_token": ("MigrateMeteoraDammClaimLpTokenCtx", 0),
    "migration_damm_v2_create_metadata": ("MigrationDammV2CreateMetadataCtx", 0),
    "migration_damm_v2": ("MigrateDammV2Ctx", 1),
}


def instr(ctx, name, **kw):
    s, n = INSTR[name]
    return IxRun(ctx, name, s, extra=kw.pop("extra", n), **kw)


def each(ctx, name, goals, hyp=None, label=None, witnesses=3, witness_hyp=None, **kw):
    """prove the goals on every accepting path of the instruction; goals(x) -> [(label, condition)]"""
    run = instr(ctx, name, **kw)
    n = 0
    wit = 0
    for x in run.oks():
        n += 1
        h = hyp(x) if hyp else True
        gs = [("%s: %s" % (name, l), b_implies(h, z)) for l, z in goals(x)]
        ctx.prove(x, gs)
        if wit < witnesses:
            extra = [h] if h is not True else []
            if ctx.witness(x, label="%s, accepting path %d" % (name, n), extra=extra + (witness_hyp(x) if witness_hyp else [])) == "sat":
                wit += 1
    if not n:
        ctx.obls.append({"name": "%s: an accepting path exists" % name, "verdict": "undecided"})
    elif not wit and witnesses:
        ctx.note("no witness for %s" % name)
    return n


def arg_names(x):
    t = x.e.tys[x.st.mty[("ixargs",)]]
    return [f[0] for f in t["vars"][0]["f"]]


def argv(x):
    return [getattr(x.args, n) for n in arg_names(x)]


def lamports(x, name):
    i = x.run.idx[name]
    return x.st.mem[("acct", i, "lamports")]


def lamports0(x, name):
    return x.e.N.named(x.e.world.acct_var(x.run.idx[name], "lamports"), 0, U64)


def vaults_differ(x, pool="pool"):
    p = x.pre(pool)
    return ne(p.base_vault, p.quote_vault)


def percent(e, x, p, den=100):
    return floor_frac(e, x, p, den)


def split_creator(e, x, pct):
    """(partner, creator) parts of an amount"""
    c = ite(eq(pct, 0), 0, percent(e, x, pct))
    return sub(x, c), c


class Cpi:
    def __init__(self, x, call):
        from vkit.ix import cpi_view
        v = cpi_view(x.e, call)
        self.call, self.program, self.keys, self.metas = call, v.program, v.keys, v.metas
        self.disc = v.data[0][:8] if v.data and isinstance(v.data[0], bytes) else None
        self.recs = [d for d in (v.data or ()) if not isinstance(d, bytes)]
        self.e = x.e

    def args(self, k=0):
        """the k-th serialised argument structure"""
        from vkit.sx import View
        tid, v = self.recs[k]
        return View(self.e, v, tid)

    def signed_by_authority(self):
        """the seeds of the program's pool authority are among the signer seeds"""
        return any(len(s) and s[0] == (14, int.from_bytes(b"pool_authority", "little")) for s in self.call.seeds if s != "?")


def cpis(x, program=None, disc=None):
    """raw cross-program calls; disc: the name of the called instruction"""
    out = []
    for c in x.st.events:
        if c.kind == "cpi":
            v = Cpi(x, c)
            if disc is not None and v.disc != sha8("global:" + disc):
                continue
            out.append(v)
    return out


def auth_lamports_safe(x, name="pool_authority"):
    """the pool authority never pays lamports"""
    return ("the pool authority's lamports do not fall", ge(lamports(x, name), lamports0(x, name)))


def progress(p):
    return p.migration_progress


def clock_of(e, st):
    """the clock, before the program asks for it"""
    if ("clock",) not in st.mem:
        tid = e.prog.adt("Clock")
        st.mty[("clock",)] = tid
        st.mem[("clock",)] = e.fresh_of(tid, "clock")
    return st.mem[("clock",)]


def set_leaf(e, v, tid, path, val):
    """the value with one scalar replaced"""
    name, _, rest = path.partition(".")
    t = e.tys[tid]
    er = e.erase(tid)
    for i, f in enumerate(t["vars"][0]["f"]):
        if f[0] == name:
            old = v if er is not None else v.f[i]
            new = set_leaf(e, old, f[1], rest, val) if rest else val
            if er is not None:
                return new
            return type(v)(v.f[:i] + (new,) + v.f[i + 1:])
    raise KeyError("%s.%s" % (t["str"], path))


def fixing(**by_type):
    """world_fix: scalars of the accounts of the named types are given constants; by_type: type -> {path: value}"""
    def fix(st, i, tid, v, e=None):
        for path, val in by_type.get(e.tys[tid]["name"].split("::")[-1], {}).items():
            v = set_leaf(e, v, tid, path, val)
        return v
    return fix


def fixed_args(**vals):
    """mkargs: arbitrary arguments but for some constants"""
    def mkargs(e, st, tid):
        v = e.fresh_of(tid, "arg")
        for path, val in vals.items():
            full = next((q for q, _ in leaves(e, v, tid) if q == path or q.endswith("." + path)), path)
            v = set_leaf(e, v, tid, full, val)
        return v
    return mkargs
