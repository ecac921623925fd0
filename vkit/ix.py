"""Instruction-level harness: arbitrary accounts and arguments for one anchor instruction entry."""
import re

import z3

from . import terms as tm
from .hooks import HOOKS, NONE, eq_vals, hook, opt, _ud
from .sx import (BA, E, Engine, F, NOHOOK, Opq, P, PB, Panic, S, St, TailCall, U, UNIT, Unsupported, View)
from .terms import T, add, b_and, b_not, b_or, bx, cmp, ex, ite, sub

B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(s):
    n = 0
    for c in s:
        n = n * 58 + B58.index(c)
    return int.from_bytes(n.to_bytes(32, "big"), "little")


SYSTEM = 0
TOKEN = b58("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA")
TOKEN22 = b58("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb")
WSOL = b58("So11111111111111111111111111111111111111112")
PROGRAM = b58("dbcij3LWUppWqq96dh6gJWwBifmcGfLSB5D4DuSMaqN")
FOREIGN = {"damm_v2": b58("cpamdpZCGKUy5JxQXB4dcpGPiikHawvSWAd6mEn1sGG"),
           "dynamic_amm": b58("Eo7WjKq67rjJQSZxS6z3YkapzY3eMj6Xy8X5EQVn5UaB"),
           "dynamic_vault": b58("24Uqj9JCLxUeoC3hGfh5W3s9FM9uCHDS2SG3LYwBpyTi"),
           "locker": b58("LocpQgucEQHbqNABEYvBvwoxCPsSbG91A1QaQhQQqjn")}


def owner_program(e, tid):
    """the program that owns accounts of the type"""
    return FOREIGN.get(e.tys[tid]["name"].split("::")[0], PROGRAM)


def field_index(e, tid, name):
    for i, f in enumerate(e.tys[tid]["vars"][0]["f"]):
        if f[0] == name:
            return i, f[1]
    raise KeyError("%s.%s" % (e.tys[tid]["str"], name))


def mk(e, tid, **kw):
    """struct value from named fields"""
    t = e.tys[tid]
    vals = []
    for n, ft in t["vars"][0]["f"]:
        if n in kw:
            vals.append(kw[n])
        elif e.size(ft) == 0:
            vals.append(e.zval(ft))
        else:
            vals.append(U)
    er = e.erase(tid)
    return vals[er] if er is not None else S(tuple(vals))


def acct_of(p):
    """account index of a pointer into one of its objects"""
    if type(p) is P and type(p.base) is tuple and p.base[0] == "acct":
        return p.base[1]
    return None


class World:
    """symbolic accounts of one instruction"""

    def __init__(self, e, n, prefix=""):
        self.e = e
        self.n = n
        self.px = prefix
        p = e.prog
        self.ai = p.adt("prelude::AccountInfo")
        self.names = {}

    def acct_var(self, i, what):
        return self.px + "acc%d.%s" % (i, what)

    def setup(self, st):
        e = self.e
        fs = {f[0]: f[1] for f in e.tys[self.ai]["vars"][0]["f"]}
        pk = e.tys[fs["key"]]["to"]
        infos = []
        for i in range(self.n):
            key = e.N.named(self.acct_var(i, "key"), 0, (1 << 256) - 1)
            owner = e.N.named(self.acct_var(i, "owner"), 0, (1 << 256) - 1)
            e.N.kind[self.acct_var(i, "key")] = e.N.kind[self.acct_var(i, "owner")] = "key"
            lam = e.N.named(self.acct_var(i, "lamports"), 0, (1 << 64) - 1)
            dl = e.N.named(self.acct_var(i, "data_len"), 0, 10 * 1024 * 1024)
            st.mem[("acct", i, "key")] = key
            st.mem[("acct", i, "owner")] = owner
            st.mem[("acct", i, "lamports")] = lam
            st.mem[("acct", i, "lamref")] = self.rc(fs["lamports"], P(("acct", i, "lamports"), (), None, e.prog.prim["u64"]))
            st.mem[("acct", i, "data_len")] = dl
            st.mem[("acct", i, "bytes")] = Opq("account data")
            st.mem[("acct", i, "dataref")] = self.rc(fs["data"], P(("acct", i, "bytes"), (("i", 0),), dl, e.prog.prim["u8"]))
            st.mem[("acct", i, "disc")] = e.N.named(self.acct_var(i, "disc"), 0, (1 << 64) - 1)
            info = mk(e, self.ai, key=P(("acct", i, "key"), (), None, pk), owner=P(("acct", i, "owner"), (), None, pk),
                      lamports=P(("acct", i, "lamref"), (), None, self.rc_inner(fs["lamports"])),
                      data=P(("acct", i, "dataref"), (), None, self.rc_inner(fs["data"])),
                      rent_epoch=0, _unused=0, is_signer=z3.Bool(self.acct_var(i, "signer")),
                      is_writable=z3.Bool(self.acct_var(i, "writable")),
                      executable=z3.Bool(self.acct_var(i, "executable")))
            infos.append(info)
        st.mem[("accts",)] = S(tuple(infos))
        return P(("accts",), (("i", 0),), self.n, self.ai)

    def rc_inner(self, rcty):
        """the RcBox/RcInner type behind Rc<X>"""
        e = self.e
        t = e.core(rcty)
        # Rc erases to a NonNull<RcInner<T>> pointer
        return e.tys[t]["to"]

    def rc(self, rcty, ref):
        e = self.e
        inner = self.rc_inner(rcty)
        fs = e.tys[inner]["vars"][0]["f"]
        cell_ty = fs[-1][1]
        cf = e.tys[cell_ty]["vars"][0]["f"]
        vals = []
        for n, ft in cf:
            vals.append(ref if n == "value" else 0)
        return S((1, 1, S(tuple(vals))))


def cell_value_ptr(e, p, cellty):
    i, vt = field_index(e, cellty, "value")
    # path of the RefCell's value
    path = e.adapt(p, cellty)
    inner = vt
    while e.erase(inner) is not None and e.tys[inner]["k"] == "adt" and e.tys[inner]["name"].endswith("UnsafeCell"):
        inner = e.fields_of(inner)[e.erase(inner)]
    return P(p.base, path + (i,), p.meta, inner)


@hook(r"^(std|core)::cell::RefCell::<.*>::(try_)?borrow(_mut)?$")
def h_borrow(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    p = a[0]
    if p.ty is None:
        raise Unsupported("RefCell pointer without a type")
    cellty = p.ty
    if not e.tys[cellty]["name"].endswith("RefCell"):
        raise Unsupported("borrow through %s" % e.tys[cellty]["str"])
    v = cell_value_ptr(e, p, cellty)
    rt = t
    if n.startswith("try_"):
        rt = e.tys[t]["vars"][0]["f"][0][1]
    r = mk(e, rt, value=v, borrow=U)
    return E(0, {0: (r,)}) if n.startswith("try_") else r


@hook(r"^<(std|alloc)::rc::Rc<.*> as (std|core)::clone::Clone>::clone$")
def h_rcclone(e, st, fn, a, t):
    return e.load(a[0])


def acct_from_info(e, p):
    """index of the account an AccountInfo (or a pointer to one) describes"""
    v = p
    for _ in range(3):
        if type(v) is P:
            v = e.load(v)
    ai = e.prog.adt("prelude::AccountInfo")
    i, _ = field_index(e, ai, "data")
    d = e.get1(v, i)
    i = acct_of(d)
    if i is None:
        raise Unsupported("account info %r" % (v,))
    return i


def err(code):
    return E(1, {1: (Opq("error", code),)})


def obj_ptr(e, st, i, tid):
    """pointer to the typed contents of account i"""
    base = ("acct", i, "obj")
    have = st.mty.get(base)
    if have is None:
        st.mty[base] = tid
        w = e.world
        v = e.fresh_of(tid, w.acct_var(i, e.tys[tid]["name"].split("::")[-1]))
        v = e.world_fix(st, i, tid, v, e) if hasattr(e, "world_fix") else v
        st.mem[base] = v
        st.mem[("acct", i, "obj0")] = v
        st.mty[("acct", i, "obj0")] = tid
    elif e.norm(have) != e.norm(tid):
        raise Unsupported("account %d loaded as %s and as %s" % (i, e.tys[have]["str"], e.tys[tid]["str"]))
    return P(base, (), None, tid)


def disc_const(e, tid):
    """the account discriminator anchor gives the type: sha256("account:Name")[..8]"""
    import hashlib
    n = e.tys[tid]["name"].split("::")[-1]
    return int.from_bytes(hashlib.sha256(("account:" + n).encode()).digest()[:8], "little")


def loader_t(e, fn):
    return next(x for x in fn.args if isinstance(x, int))


@hook(r"AccountLoader::<.*>::try_from$", r"AccountLoader::<.*>::try_from_unchecked$")
def h_loader_from(e, st, fn, a, t):
    unchecked = fn.name.endswith("unchecked")
    info = a[-1]
    tid = loader_t(e, fn)
    i = acct_from_info(e, info)
    owner = st.mem[("acct", i, "owner")]
    if e.decide(cmp("Ne", owner, owner_program(e, tid))):
        return err("AccountOwnedByWrongProgram")
    if not unchecked and e.decide(cmp("Ne", st.mem[("acct", i, "disc")], disc_const(e, tid))):
        return err("AccountDiscriminatorMismatch")
    lt = e.tys[t]["vars"][0]["f"][0][1]
    return E(0, {0: (mk(e, lt, acc_info=info),)})


@hook(r"AccountLoader::<.*>::(load|load_mut|load_init)$")
def h_loader_load(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    tid = loader_t(e, fn)
    lo = e.load(a[0])
    info = lo if type(lo) is P else e.get1(lo, 0)
    i = acct_from_info(e, info)
    if n != "load":
        ai = e.prog.adt("prelude::AccountInfo")
        k, _ = field_index(e, ai, "is_writable")
        if not e.decide(e.get1(e.load(info), k)):
            return err("AccountNotMutable")
    d = st.mem[("acct", i, "disc")]
    if n == "load_init":
        if e.decide(cmp("Ne", d, 0)):
            return err("AccountDiscriminatorAlreadySet")
        st.mty.pop(("acct", i, "obj"), None)
        st.setmem(("acct", i, "disc"), disc_const(e, tid))
        st.mty[("acct", i, "obj")] = tid
        st.setmem(("acct", i, "obj"), zeroed(e, tid))
        p = P(("acct", i, "obj"), (), None, tid)
    else:
        if e.decide(cmp("Ne", d, disc_const(e, tid))):
            return err("AccountDiscriminatorMismatch")
        p = obj_ptr(e, st, i, tid)
    rt = e.tys[t]["vars"][0]["f"][0][1]
    return E(0, {0: (mk(e, rt, value=p, borrow=U),)})


def zeroed(e, tid):
    t = e.tys[tid]
    if e.prog.is_pubkey(t) or e.prog.is_opaque_int(t) or t["k"] in ("uint", "int"):
        return 0
    if t["k"] == "bool":
        return False
    if t.get("size") == 0:
        return e.zval(tid)
    er = e.erase(tid)
    if er is not None:
        return zeroed(e, e.fields_of(tid)[er])
    if t["k"] == "array":
        return S((zeroed(e, t["elem"]),) * t["len"])
    fs = e.fields_of(tid)
    if t["k"] == "adt" and t["kind"] == "enum":
        return E(0, {})
    return S(tuple(zeroed(e, f) for f in fs))


@hook(r"AccountLoader<.*> as .*AccountsExit.*>::exit$", r"account_loader::.*AccountsExit.*::exit$")
def h_loader_exit(e, st, fn, a, t):
    return E(0, {0: (UNIT,)})


@hook(r"as (anchor_lang::)?AccountDeserialize>::try_deserialize(_unchecked)?$")
def h_try_deser(e, st, fn, a, t):
    # a[0]: &mut &[u8] into account data
    sl = e.load(a[0])
    i = acct_of(sl)
    if i is None:
        raise Unsupported("deserialisation of %r" % (sl,))
    tid = e.tys[t]["vars"][0]["f"][0][1]
    ok = z3.Bool(e.world.acct_var(i, "is_" + e.tys[tid]["name"].split("::")[-1]))
    if not e.decide(ok):
        return err("AccountDidNotDeserialize")
    key = ("acct", i, "deser", e.tys[tid]["name"])
    v = st.mem.get(key)
    if v is None:
        v = e.fresh_of(tid, e.world.acct_var(i, e.tys[tid]["name"].split("::")[-1]))
        st.mem[key] = v
        st.mty[key] = tid
        initialised(e, st, v, tid)
    return E(0, {0: (v,)})


def initialised(e, st, v, tid):
    """unpacking succeeds for initialised token accounts and mints only"""
    n = e.tys[tid]["name"].split("::")[-1]
    w = View(e, v, tid)
    if n in ("Account", "TokenAccount"):
        x = w.state
        e.assume(st, bx(cmp("Ne", x._v.v if isinstance(x, View) else x, 0)))
    elif n == "Mint":
        e.assume(st, bx(w.is_initialized))


@hook(r"as (anchor_lang::)?(Anchor|Borsh)Deserialize>::deserialize$", r"AnchorDeserialize>::deserialize$", r"BorshDeserialize>::deserialize(_reader)?$")
def h_args(e, st, fn, a, t):
    tid = e.tys[t]["vars"][0]["f"][0][1]
    mkargs = getattr(e, "mkargs", None)
    if mkargs is None:
        raise Unsupported("deserialize " + e.tys[tid]["str"])
    v = mkargs(e, st, tid)
    st.mem[("ixargs",)] = v
    st.mty[("ixargs",)] = tid
    return E(0, {0: (v,)})


# ---------------------------------------------------------------------------------------------- errors
@hook(r"^<anchor_lang::error::Error as std::convert::From<anchor_lang::error::AnchorError>>::from$",
      r"anchor_lang::error::.*From<.*AnchorError>.*::from$")
def h_err1(e, st, fn, a, t):
    v = a[0]
    tid = e.prog.adt("anchor_lang::error::AnchorError")
    try:
        i, _ = field_index(e, tid, "error_code_number")
        code = e.get1(v, i)
    except Exception:
        code = None
    return Opq("error", code)


@hook(r"^<anchor_lang::error::Error as (std|core)::convert::From<.*>>::from$", r"impl (std|core)::convert::From<.*> for (anchor_lang::error::)?Error>::from$")
def h_err2(e, st, fn, a, t):
    v = a[0]
    if type(v) is E and isinstance(v.v, int):
        src = fn.name
        return Opq("error", (re.sub(r".*From<(.*)> ?(>|for).*", r"\1", src), v.v))
    return Opq("error", repr(v)[:60])


@hook(r"anchor_lang::error::Error::(with_\w+|log)$", r"anchor_lang::error::(AnchorError|ProgramErrorWithOrigin)::(with_\w+|log)$")
def h_errwith(e, st, fn, a, t):
    return a[0] if e.size(t) != 0 else UNIT


# ---------------------------------------------------------------------------------------------- keys and addresses
def seeds_of(e, p):
    """&[&[u8]] -> tuple of seed descriptions"""
    out = []
    for k in range(p.meta):
        s = e.load(e.ptr_add(p, k))
        out.append(seed_bytes(e, s))
    return tuple(out)


def seed_bytes(e, s):
    """a byte slice as (n, integer)"""
    if type(s) is not P:
        raise Unsupported("seed %r" % (s,))
    if s.base is None or s.meta == 0:
        return (0, 0)
    last = s.path[-1] if s.path else None
    if isinstance(last, tuple) and last[0] == "i":
        c = e.getpath(e.mem_get(s.base), s.path[:-1])
        if type(c) is Opq:
            return (s.meta, ("opq", c.tag))
        if type(c) is PB and last[1] == 0 and s.meta == c.n:
            return (c.n, c.v)
        if tm.is_scalar(c):
            c = PB(c, s.meta)
            return (s.meta, c.v)
        el = e.elems(c)[last[1]:last[1] + s.meta]
        return (s.meta, e.bytes_to_int(S(tuple(el))))
    raise Unsupported("seed %r" % (s,))


def pda(e, seeds, prog):
    """(key, bump) of find_program_address: an uninterpreted function of the seeds and the program"""
    k = ("pda",) + tuple(x for n, v in seeds for x in ((n,) + (e.N.key(v) if not isinstance(v, tuple) else v))) + e.N.key(prog)
    r = e.N.cse.get(k)
    if r is None:
        key = e.N.fresh("pda", 1 << 200, (1 << 256) - 1)
        bump = e.N.fresh("bump", 0, 255)
        r = e.N.cse[k] = (key, bump)
        # equal seeds give equal addresses, different seeds of the same shape different ones
        sh = (tuple(n for n, v in seeds), prog) if isinstance(prog, int) and not any(isinstance(v, tuple) for n, v in seeds) else None
        if sh is not None:
            old = e.N.__dict__.setdefault("pdas", [])
            for osh, oseeds, ok, ob in old:
                same = False
                if osh == sh:
                    same = b_and(*[cmp("Eq", v, w) for (_, v), (_, w) in zip(seeds, oseeds)])
                f = key.e != ok.e if same is False else z3.And(bx(same) == (key.e == ok.e), z3.Implies(bx(same), bump.e == ob.e))
                for nm in (str(key.e), str(bump.e), str(ok.e)):
                    e.N.facts[nm].append(f)
            old.append((sh, seeds, key, bump))
        e.N.origin[str(key.e)] = ("pda", seeds, prog)
        e.N.origin[str(bump.e)] = ("bump", seeds, prog)
    return r


@hook(r"Pubkey::(find_program_address|try_find_program_address)$")
def h_find_pda(e, st, fn, a, t):
    r = pda(e, seeds_of(e, a[0]), e.load(a[1]))
    st.notes.append(("pda", r[0]))
    v = S(r)
    return opt(v) if "try_" in fn.name else v


@hook(r"Pubkey::create_program_address$")
def h_create_pda(e, st, fn, a, t):
    seeds = seeds_of(e, a[0])
    prog = e.load(a[1])
    if seeds and seeds[-1][0] == 1:
        k, b = pda(e, seeds[:-1], prog)
        if e.decide(cmp("Eq", seeds[-1][1], b)):
            return E(0, {0: (k,)})
    key = e.N.fresh("cpda", 1, (1 << 256) - 1)
    return E(0, {0: (key,)})


@hook(r"get_associated_token_address_with_program_id$")
def h_ata(e, st, fn, a, t):
    o, m, p = (e.load(x) for x in a)
    return pda(e, ((32, o), (32, p), (32, m)), b58("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"))[0]


@hook(r"Pubkey as (core|std)::convert::AsRef<\[u8\]>>::as_ref$", r"Pubkey::as_array$", r"Pubkey as .*AsRef.*>::as_ref$")
def h_keyref(e, st, fn, a, t):
    p = a[0]
    return P(p.base, e.adapt(p, p.ty) + (("b", 32), ("i", 0)), 32, e.prog.prim["u8"])


@hook(r"Pubkey::to_bytes$")
def h_keybytes(e, st, fn, a, t):
    return PB(_ud(e, a[0]), 32)


@hook(r"Pubkey::(new_from_array|from)$", r"Pubkey as (core|std)::convert::From<\[u8; 32\]>>::from$")
def h_keyfrom(e, st, fn, a, t):
    return e.bytes_to_int(a[0])


@hook(r"Pubkey as (core|std)::(clone::Clone)>::clone$")
def h_keyclone(e, st, fn, a, t):
    return _ud(e, a[0])


@hook(r"Pubkey as (core|std)::default::Default>::default$")
def h_keydefault(e, st, fn, a, t):
    return 0


@hook(r"Pubkey as (core|std)::cmp::(Ord|PartialOrd)>::(cmp|partial_cmp|lt|gt|le|ge|max|min)$")
def h_keyord(e, st, fn, a, t):
    # lexicographic order on bytes: an arbitrary total order consistent with equality
    n = fn.name.split("::")[-1]
    x, y = _ud(e, a[0]), _ud(e, a[1])
    rank = z3.Function("key_rank", z3.IntSort(), z3.IntSort())
    if e.decide(cmp("Eq", x, y)):
        c = 0
    else:
        c = -1 if e.decide(rank(ex(x)) < rank(ex(y))) else 1
    if n in ("cmp", "partial_cmp"):
        v = E(c + 1)
        return v if n == "cmp" else opt(v)
    if n in ("max", "min"):
        return x if (c >= 0) == (n == "max") else y
    return {"lt": c < 0, "gt": c > 0, "le": c <= 0, "ge": c >= 0}[n]


# ---------------------------------------------------------------------------------------------- sysvars
@hook(r"Clock as .*Sysvar>::get$", r"Sysvar for .*Clock>::get$")
def h_clock(e, st, fn, a, t):
    tid = e.tys[t]["vars"][0]["f"][0][1]
    v = st.mem.get(("clock",))
    if v is None:
        v = e.fresh_of(tid, "clock")
        st.mem[("clock",)] = v
        st.mty[("clock",)] = tid
    return E(0, {0: (v,)})


@hook(r"Rent as .*Sysvar>::get$", r"Sysvar for .*Rent>::get$")
def h_rent(e, st, fn, a, t):
    return E(0, {0: (Opq("rent"),)})


@hook(r"Rent::(minimum_balance|is_exempt)$")
def h_minbal(e, st, fn, a, t):
    ln = a[-1]
    k = ("rent",) + e.N.key(ln)
    r = e.N.cse.get(k)
    if r is None:
        # the default rent parameters: 3480 lamports per byte-year, two years
        r = e.N.cse[k] = e.N.mul(add(ln, 128), 6960)
    if fn.name.endswith("is_exempt"):
        return cmp("Ge", a[1], r)
    return r


# ---------------------------------------------------------------------------------------------- cross-program calls
class Call:
    """one cross-program call or token movement, in order"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "Call(%s, %s)" % (self.kind, {k: v for k, v in self.__dict__.items() if k != "kind"})


@hook(r"spl_token(_2022)?::instruction::(transfer_checked|transfer|burn|mint_to|mint_to_checked|close_account|set_authority|initialize_account3?|initialize_mint2?|sync_native|thaw_account|approve)$",
      r"^spl_token_2022.*::instruction::(transfer_checked|mint_to|set_authority|burn|close_account)$")
def h_tokix(e, st, fn, a, t):
    name = fn.name.split("::")[-1]
    args = []
    for x in a:
        if type(x) is P and x.meta is None:
            args.append(e.load(x))
        else:
            args.append(x)
    return E(0, {0: (Opq("ix", ("token." + name, args)),)})


@hook(r"system_instruction::(transfer|create_account|allocate|assign)$")
def h_sysix(e, st, fn, a, t):
    name = fn.name.split("::")[-1]
    args = [e.load(x) if type(x) is P else x for x in a]
    return Opq("ix", ("system." + name, args))


def signer_seeds(e, p):
    try:
        out = []
        for k in range(p.meta):
            s = e.load(e.ptr_add(p, k))
            out.append(seeds_of(e, s))
        return tuple(out)
    except Unsupported:
        return ("?",)


@hook(r"program::invoke(_signed)?(_unchecked)?$")
def h_invoke(e, st, fn, a, t):
    ixn = e.load(a[0])
    seeds = signer_seeds(e, a[2]) if len(a) > 2 else ()
    infos = []
    p = a[1]
    if isinstance(p.meta, int):
        for k in range(p.meta):
            try:
                infos.append(acct_from_info(e, e.ptr_add(p, k)))
            except Unsupported:
                infos.append(None)
    if type(ixn) is Opq and ixn.tag == "ix":
        c = Call(ixn.data[0], args=ixn.data[1], infos=infos, seeds=seeds)
    else:
        c = Call("cpi", ix=ixn, infos=infos, seeds=seeds)
    c.index = sum(1 for x in st.events if x.kind not in NOT_CALLS)
    st.events.append(c)
    if hasattr(e, "on_cpi"):
        r = e.on_cpi(e, st, c)
        if r is not None:
            return r
    effects(e, st, c)
    return E(0, {0: (UNIT,)})


NOT_CALLS = ("emit", "serialize", "realloc", "note", "call")


def acct_by_key(e, st, k):
    """index of the account whose address term this is"""
    kk = e.N.key(k)
    for i in range(e.world.n):
        x = st.mem[("acct", i, "key")]
        if x is k or e.N.key(x) == kk:
            return i
    return None


def fx(e, st, c, i, what, v):
    """record an effect of call c on account i, for the native replay"""
    st.setmem(("fx",), st.mem.get(("fx",), ()) + ((c.index, i, what, v),))


def keep_first(st, k):
    k0 = k[:2] + ("deser0",) + k[3:]
    if k0 not in st.mem:
        st.setmem(k0, st.mem[k])
        st.mty[k0] = st.mty[k]


def havoc_data(e, st, c, i, only=None):
    """the contents of account i, as far as they were read, become arbitrary"""
    for k in list(st.mem):
        if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] == "deser":
            tid = st.mty[k]
            short = e.tys[tid]["name"].split("::")[-1]
            keep_first(st, k)
            nm = "cpi%d." % c.index + e.world.acct_var(i, short)
            if only is None:
                v = e.fresh_of(tid, nm)
                initialised(e, st, v, tid)
            else:
                v = set_field(e, st.mem[k], tid, only, nm)
                if v is None:
                    continue
            st.setmem(k, v)
            fx(e, st, c, i, "data", (v, tid))
        elif type(k) is tuple and k[0] == "pod" and acct_of(P(k[1], (), None, None)) == i and only is None:
            st.setmem(k, e.fresh_of(st.mty[k], "cpi%d.pod%d" % (c.index, i)))


def set_field(e, v, tid, names, nm):
    """v with the first existing field of that name (also inside a wrapper) made arbitrary"""
    t = e.tys[tid]
    fs = t["vars"][0]["f"]
    er = e.erase(tid)
    for j, f in enumerate(fs):
        x = v if er == j else (None if er is not None else e.get1(v, j))
        if f[0] in names:
            y = e.N.named(nm + "." + f[0], 0, (1 << 64) - 1)
        elif e.tys[f[1]]["k"] == "adt" and e.size(f[1]) and x is not None and (er == j or len(fs) <= 2):
            y = set_field(e, x, f[1], names, nm)
        else:
            continue
        if y is None:
            continue
        if er == j:
            return y
        l = [e.get1(v, q) for q in range(len(fs))]
        l[j] = y
        return S(tuple(l))
    return None


def with_len(e, v, n):
    """a reference-counted cell over a slice, with another slice length"""
    if type(v) is P:
        return P(v.base, v.path, n, v.ty)
    if type(v) is S:
        return S(tuple(with_len(e, x, n) for x in v.f))
    return v


def set_len(e, st, i, n):
    st.setmem(("acct", i, "dataref"), with_len(e, st.mem[("acct", i, "dataref")], n))
    st.setmem(("acct", i, "data_len"), n)


def set_lamports(e, st, c, i, v):
    st.setmem(("acct", i, "lamports"), v)
    fx(e, st, c, i, "lamports", v)


def effects(e, st, c):
    """what a cross-program call can do to the accounts the program can look at afterwards"""
    k = c.kind
    if k == "cpi":
        for m in cpi_view(e, c).metas:
            w = m.is_writable
            if w is False:
                continue
            i = acct_by_key(e, st, m.pubkey)
            if i is None:
                continue
            nm = "cpi%d." % c.index
            set_lamports(e, st, c, i, e.N.named(nm + e.world.acct_var(i, "lamports"), 0, (1 << 64) - 1))
            own = st.mem[("acct", i, "owner")]
            new = e.N.named(nm + e.world.acct_var(i, "owner"), 0, (1 << 256) - 1)
            e.N.kind[nm + e.world.acct_var(i, "owner")] = "key"
            mine = cmp("Eq", own, PROGRAM)
            o = ite(mine, own, new)
            st.setmem(("acct", i, "owner"), o)
            fx(e, st, c, i, "owner", o)
            if m.is_signer is not False and not any(type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] in ("deser", "obj", "tlv")
                                                    for k in st.mem):
                dl = e.N.named(nm + e.world.acct_var(i, "data_len"), 0, 10 * 1024)
                set_len(e, st, i, dl)
                fx(e, st, c, i, "datalen", dl)
            tid = st.mty.get(("acct", i, "obj"))
            if tid is not None and owner_program(e, tid) != PROGRAM:
                st.setmem(("acct", i, "obj"), e.fresh_of(tid, nm + e.world.acct_var(i, "obj")))
            havoc_data(e, st, c, i)
    elif k == "system.transfer":
        f, t, amt = acct_by_key(e, st, c.args[0]), acct_by_key(e, st, c.args[1]), c.args[2]
        if f is not None:
            l = st.mem[("acct", f, "lamports")]
            e.assume(st, bx(cmp("Ge", l, amt)))
            set_lamports(e, st, c, f, sub(l, amt))
        if t is not None:
            set_lamports(e, st, c, t, add(st.mem[("acct", t, "lamports")], amt))
    elif k == "system.create_account":
        f, t = acct_by_key(e, st, c.args[0]), acct_by_key(e, st, c.args[1])
        lam, space, owner = c.args[2:5]
        if f is not None:
            l = st.mem[("acct", f, "lamports")]
            e.assume(st, bx(cmp("Ge", l, lam)))
            set_lamports(e, st, c, f, sub(l, lam))
        if t is not None:
            e.assume(st, bx(cmp("Eq", st.mem[("acct", t, "lamports")], 0)))
            set_lamports(e, st, c, t, lam)
            new_account(e, st, c, t, space)
            st.setmem(("acct", t, "owner"), _ud(e, owner))
            fx(e, st, c, t, "owner", _ud(e, owner))
    elif k == "system.allocate":
        t = acct_by_key(e, st, c.args[0])
        if t is not None:
            new_account(e, st, c, t, c.args[1])
    elif k == "system.assign":
        t = acct_by_key(e, st, c.args[0])
        if t is not None:
            st.setmem(("acct", t, "owner"), _ud(e, c.args[1]))
            fx(e, st, c, t, "owner", _ud(e, c.args[1]))
    elif k.startswith("token."):
        for x in c.infos:
            if isinstance(x, int):
                havoc_data(e, st, c, x, only=("amount", "supply"))


def new_account(e, st, c, i, space):
    """the system program gives the account zeroed data: it must have had none"""
    e.assume(st, bx(cmp("Eq", st.mem[("acct", i, "data_len")], 0)))
    e.assume(st, bx(cmp("Eq", st.mem[("acct", i, "owner")], SYSTEM)))
    set_len(e, st, i, space)
    st.setmem(("acct", i, "disc"), 0)
    st.setmem(("acct", i, "inited"), True)
    for k in list(st.mem):
        if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] in ("deser", "obj"):
            raise Unsupported("account %d read and then created" % i)


def mkvec(e, tid, items, ety):
    """a Vec with these elements"""
    p = e.new_heap(S(tuple(items)))
    ptr = P(p.base, (("i", 0),), None, ety)
    inner = {}

    def fill(t):
        tt = e.tys[t]
        vals = []
        for n, ft in tt["vars"][0]["f"]:
            if n == "len":
                vals.append(len(items))
            elif n == "cap":
                vals.append(len(items))
            elif n == "ptr":
                vals.append(ptr)
            elif e.size(ft) == 0:
                vals.append(e.zval(ft))
            else:
                vals.append(fill(ft))
        er = e.erase(t)
        return vals[er] if er is not None else S(tuple(vals))
    return fill(tid)


def vec_items(e, v, tid):
    """elements of a Vec value"""
    p, n = None, None

    def walk(x, t):
        nonlocal p, n
        tt = e.tys[t]
        for i, (nm, ft) in enumerate(tt["vars"][0]["f"]):
            er = e.erase(t)
            y = x if er == i else (None if er is not None else e.get1(x, i))
            if nm == "len":
                n = y
            elif nm == "ptr":
                p = y
            elif nm == "cap" or e.size(ft) == 0:
                pass
            else:
                walk(y, ft)
    walk(v, tid)
    if not isinstance(n, int):
        raise Unsupported("vector of symbolic length")
    return [e.load(e.ptr_add(p, i)) for i in range(n)]


@hook(r"as anchor_lang::Event>::data$")
def h_event(e, st, fn, a, t):
    p = a[0]
    st.events.append(Call("emit", name=e.tys[p.ty]["name"] if p.ty is not None else "?", value=e.load(p), ty=p.ty))
    return mkvec(e, t, (Opq("event data"),), e.prog.prim["u8"])


@hook(r"Instruction::new_with_bytes$")
def h_newix(e, st, fn, a, t):
    return Opq("ix", ("raw", [a[0], a[1], a[2]]))


@hook(r"as anchor_lang::CheckOwner>::check_owner$", r"as anchor_lang::CheckId>::check_id$")
def h_checkowner(e, st, fn, a, t):
    # interface types accept either token program: one decision instead of two
    if "Interface" not in fn.name and "token_interface" not in fn.name:
        return NOHOOK
    k = _ud(e, a[0])
    if e.decide(b_or(cmp("Eq", k, TOKEN), cmp("Eq", k, TOKEN22))):
        return E(0, {0: (UNIT,)})
    return err("AccountOwnedByWrongProgram")


@hook(r"collections::BTreeSet::<.*>::(new|insert|contains)$")
def h_btree(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    if n == "new":
        return Opq("btreeset")
    return n == "insert"


class Ix(Engine):
    """an engine for one instruction of the program"""

    def __init__(self, prog, name, n, mkargs=None, extra_hooks=(), **kw):
        super().__init__(prog, list(extra_hooks) + HOOKS, **kw)
        self.world = World(self, n)
        self.ixname = name
        self.mkargs = mkargs or (lambda e, st, tid: e.fresh_of(tid, "arg"))

    def start(self, st=None):
        st = st or St()
        self.st = st
        accts = self.world.setup(st)
        f = self.prog.find("dynamic_bonding_curve::__private::__global::" + self.ixname)
        st.mem[("program_id",)] = PROGRAM
        pk = self.tys[f.locals[1]]["to"]
        st.mem[("ixdata",)] = Opq("ixdata")
        return st, f, [P(("program_id",), (), None, pk), accts, P(("ixdata",), (("i", 0),), 64, self.prog.prim["u8"])]

    def ends(self, st=None, deadline=None):
        st, f, args = self.start(st)
        return self.run(f, args, st, deadline)


# ---------------------------------------------------------------------------------------------- account plumbing
@hook(r"token::accessor::(authority|amount|mint)$", r"accessor::(authority|amount|mint)$")
def h_accessor(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    i = acct_from_info(e, a[0])
    v, tid = token_account(e, st, i)
    f = {"authority": "owner"}.get(n, n)
    return E(0, {0: (getattr(View(e, v, tid), f),)})


def token_account(e, st, i):
    """the token account stored in account i"""
    for k in list(st.mem):
        if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] == "deser" and k[3].endswith("TokenAccount"):
            return st.mem[k], st.mty[k]
    tid = e.prog.adt("token_interface::TokenAccount")
    k = ("acct", i, "deser", e.tys[tid]["name"])
    v = e.fresh_of(tid, e.world.acct_var(i, "TokenAccount"))
    st.mem[k] = v
    st.mty[k] = tid
    return v, tid


@hook(r"AccountInfo::<'_>::(realloc|resize)$", r"AccountInfo<'_>::(realloc|resize)$")
def h_realloc(e, st, fn, a, t):
    i = acct_from_info(e, a[0])
    set_len(e, st, i, a[1])
    if a[1] == 0 if isinstance(a[1], int) else False:
        st.setmem(("acct", i, "closed"), True)
    st.events.append(Call("realloc", acct=i, len=a[1]))
    return E(0, {0: (UNIT,)})


@hook(r"AccountInfo::<'_>::assign$", r"AccountInfo<'_>::assign$")
def h_assign(e, st, fn, a, t):
    i = acct_from_info(e, a[0])
    st.setmem(("acct", i, "owner"), _ud(e, a[1]))
    return UNIT


@hook(r"as (anchor_lang::)?AccountSerialize>::try_serialize$")
def h_try_ser(e, st, fn, a, t):
    p = a[0]
    st.events.append(Call("serialize", tid=p.ty, ty=e.tys[p.ty]["name"] if p.ty is not None else "?", value=e.load(p)))
    return E(0, {0: (UNIT,)})


# ---------------------------------------------------------------------------------------------- strings and CPI arguments
@hook(r"string::String::(len|capacity)$", r"^(core|std)::str::<impl str>::len$")
def h_strlen(e, st, fn, a, t):
    v = e.load(a[0])
    return str_len(e, v)


def str_len(e, v):
    if type(v) is Opq and v.tag == "string" and v.data:
        return e.N.named("%s.len" % v.data, 0, 1 << 20)
    raise Unsupported("length of %r" % (v,))


@hook(r"string::String::(as_bytes|as_str)$", r"String as (core|std)::ops::Deref>::deref$")
def h_strbytes(e, st, fn, a, t):
    v = e.load(a[0])
    if type(v) is Opq and v.data:
        base = ("strdata", v.data)
        st.mem[base] = v
        return P(base, (("i", 0),), str_len(e, v), e.prog.prim["u8"])
    return NOHOOK


@hook(r"^(core|std)::str::<impl str>::as_bytes$")
def h_asbytes(e, st, fn, a, t):
    return a[0]


@hook(r"as (.*::)?(Anchor|Borsh)Serialize>::serialize$")
def h_borsh(e, st, fn, a, t):
    w = a[1]
    if type(w) is not P or w.ty is None or not e.tys[w.ty]["name"].endswith("Vec"):
        raise Unsupported("serialize into %r" % (w,))
    src = a[0]
    v = e.load(src)
    rec = Opq("borsh", (src.ty, v))
    old = vec_items(e, e.load(w), w.ty)
    e.store(w, mkvec(e, w.ty, tuple(old) + (rec,), e.prog.prim["u8"]))
    return E(0, {0: (UNIT,)})


@hook(r"StateWithExtensions(Mut|Owned)?::<'?_?,? ?.*(Mint|Account)>::unpack(_unchecked)?$")
def h_unpack(e, st, fn, a, t):
    sl = a[0]
    i = acct_of(sl)
    if i is None:
        raise Unsupported("unpack of %r" % (sl,))
    rt = e.tys[t]["vars"][0]["f"][0][1]
    fs = e.tys[rt]["vars"][0]["f"]
    bt = dict((f[0], f[1]) for f in fs)["base"]
    kind = e.tys[bt]["name"].split("::")[-1]
    ok = z3.Bool(e.world.acct_var(i, "unpacks_" + kind))
    if not e.decide(ok):
        return err("InvalidAccountData")
    v = deser_obj(e, st, i, bt)
    st.mem[("acct", i, "tlv")] = Opq("tlv")
    tlv = P(("acct", i, "tlv"), (("i", 0),), e.N.named(e.world.acct_var(i, "tlv_len"), 0, 1 << 20), e.prog.prim["u8"])
    kw = {n: tlv for n, ft in fs}
    kw["base"] = v
    return E(0, {0: (mk(e, rt, **kw),)})


def deser_obj(e, st, i, tid):
    """contents of account i as the (spl) type, shared by every way of reading it"""
    n = e.tys[tid]["name"].split("::")[-1]
    for k in list(st.mem):
        if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] == "deser":
            kn = e.tys[st.mty[k]]["name"].split("::")[-1].replace("TokenAccount", "Account")
            if kn == n.replace("TokenAccount", "Account"):
                return st.mem[k]
    v = e.fresh_of(tid, e.world.acct_var(i, n.replace("TokenAccount", "Account")))
    k = ("acct", i, "deser", e.tys[tid]["name"])
    st.mem[k] = v
    st.mty[k] = tid
    initialised(e, st, v, tid)
    return v


@hook(r"spl_token_2022::extension::.*::instruction::\w+$", r"spl_token_metadata_interface::instruction::\w+$",
      r"^spl_token_metadata_interface.*::instruction::\w+$")
def h_t22ix(e, st, fn, a, t):
    name = "token22." + "::".join(re.sub(r"<.*?>", "", fn.name).split("::")[-3:])
    args = [e.load(x) if type(x) is P and x.meta is None else x for x in a]
    v = Opq("ix", (name, args))
    tt = e.tys[t]
    if tt["k"] == "adt" and tt["name"].endswith("Result"):
        return E(0, {0: (v,)})
    return v


@hook(r"ExtensionType::(try_calculate_account_len|try_get_required_init_account_extensions).*$")
def h_extlen(e, st, fn, a, t):
    return E(0, {0: (e.N.fresh("extlen", 82, 1000),)})


@hook(r"find_mint_account_size$")
def h_mintsize(e, st, fn, a, t):
    return E(0, {0: (e.N.fresh("mintsize", 82, 1000),)})


@hook(r"^bytemuck::(try_)?from_bytes(_mut)?(::<.*>)?$")
def h_pod(e, st, fn, a, t):
    """bytes of a foreign account read as a structure: an arbitrary value of that structure"""
    tid = next(x for x in fn.args if isinstance(x, int))
    p = a[0]
    base = ("pod", p.base, p.path, e.tys[tid]["name"])
    if base not in st.mem:
        i = acct_of(p)
        st.mem[base] = e.fresh_of(tid, e.world.acct_var(i, e.tys[tid]["name"].split("::")[-1]) if i is not None else "pod%d" % len(st.mem))
        st.mty[base] = tid
    r = P(base, (), None, tid)
    return E(0, {0: (r,)}) if "try_" in fn.name else r


class CpiView:
    def __init__(self, program, keys, data, metas):
        self.program, self.keys, self.data, self.metas = program, keys, data, metas


def cpi_view(e, call):
    """the instruction of a raw cross-program call: program, account keys, data as byte strings and (type, value) records"""
    v = call.ix
    t = e.prog.adt("Instruction") if False else next(i for n, ids in e.prog.ty_by_name.items() if n.endswith("instruction::Instruction") for i in ids)
    w = View(e, v, t)
    fs = {f[0]: f[1] for f in e.tys[t]["vars"][0]["f"]}
    metas = vec_items(e, w.accounts.raw, fs["accounts"])
    mt = next(x for x in e.tys[fs["accounts"]]["args"] if isinstance(x, int))
    mv = [View(e, m, mt) for m in metas]
    data = []
    buf = bytearray()
    for b in vec_items(e, w.data.raw, fs["data"]):
        if isinstance(b, int):
            buf.append(b)
        elif type(b) is Opq and b.tag == "borsh":
            if buf:
                data.append(bytes(buf))
                buf = bytearray()
            data.append(b.data)
        else:
            data = None
            break
    if data is not None and buf:
        data.append(bytes(buf))
    return CpiView(w.program_id, [m.pubkey for m in mv], data, mv)
