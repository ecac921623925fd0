"""C26: rate-limited pools accept one swap per transaction; the reduced first-swap fee is for the pool's creation transaction."""
import re

from vkit.check import sha8
from vkit.conc import kb
from vkit.ix import PROGRAM, World, b58, err, mkvec
from vkit.sx import S
from . import swapkit as sk
from .fnkit import *

SYSVAR = sk.INSTRUCTIONS
SWAPS = [sha8("global:swap"), sha8("global:swap2")]
INITS = [sha8("global:initialize_virtual_pool_with_spl_token"), sha8("global:initialize_virtual_pool_with_token2022")]
MOD = "dynamic_bonding_curve::instructions::swap::ix_swap::"
NUSE = ("use anchor_lang::prelude::*; let h = |s: &str| -> Vec<u8> { if s == \"-\" { return vec![]; } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }; "
        "let pool = Pubkey::try_from(h(&a[0]).as_slice()).unwrap(); let key = Pubkey::try_from(h(&a[1]).as_slice()).unwrap(); let mut data = h(&a[2]); let mut lam = 1u64; "
        "let owner = Pubkey::default(); let infos = vec![AccountInfo::new(&key, false, false, &mut lam, &mut data, &owner, false, 0)]; "
        "let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(infos.as_slice()) }; ")
Funcs.table["single_swap"] = NUSE + "match ::dynamic_bonding_curve::instructions::swap::ix_swap::validate_single_swap_instruction(&pool, infos) { Ok(_) => \"ok\".to_string(), Err(_) => \"err\".to_string() }"
Funcs.table["created_now"] = NUSE + "match ::dynamic_bonding_curve::instructions::swap::ix_swap::validate_contain_initialize_pool_ix_and_no_cpi(&pool, &None, infos) { Ok(_) => \"ok\".to_string(), Err(_) => \"err\".to_string() }"


class Ins:
    """one instruction of the transaction"""

    def __init__(self, fx, name, m):
        self.fx, self.m = fx, m
        N = fx.N
        self.prog = N.named(name + ".program", 0, U256)
        N.kind[name + ".program"] = "key"
        self.keys = [N.named("%s.key%d" % (name, i), 0, U256) for i in range(m)]
        for i in range(m):
            N.kind["%s.key%d" % (name, i)] = "key"
        self.data = [N.named("%s.d%d" % (name, i), 0, 255) for i in range(8)]

    def value(self, tid):
        e = self.fx.e
        fs = {f[0]: f[1] for f in e.tys[tid]["vars"][0]["f"]}
        meta = next(i for i, t in enumerate(e.tys) if t["k"] == "adt" and t.get("name", "").endswith("::AccountMeta"))
        ms = [self.fx.struct(meta, "meta", pubkey=k, is_signer=False, is_writable=False) for k in self.keys]
        return self.fx.struct(tid, "ins", program_id=self.prog, accounts=mkvec(e, fs["accounts"], ms, meta), data=mkvec(e, fs["data"], self.data, e.prog.prim["u8"]))

    def has_disc(self, discs):
        return b_or(*[b_and(*[eq(d, b) for d, b in zip(self.data, disc)]) for disc in discs])

    def ours(self):
        return eq(self.prog, PROGRAM)

    def text(self, c):
        return kb(c.ev(self.prog)), [kb(c.ev(k)) for k in self.keys], bytes(c.ev(d) for d in self.data)


def sysvar_bytes(ins, n):
    offs, body, base = [], b"", 2 + 2 * len(ins)
    for prog, keys, data in ins:
        offs.append(base + len(body))
        body += len(keys).to_bytes(2, "little") + b"".join(b"\0" + y for y in keys) + prog + len(data).to_bytes(2, "little") + data
    return len(ins).to_bytes(2, "little") + b"".join(o.to_bytes(2, "little") for o in offs) + body + n.to_bytes(2, "little")


class Tx:
    """the transaction as the sysvar and the runtime show it: instruction n is running, ns sibling instructions were processed"""

    def __init__(self, c, path, n, ns, m):
        self.n, self.ns = n, ns
        hooks = [(re.compile(r"sysvar::instructions::load_current_index_checked$"), self.index),
                 (re.compile(r"sysvar::instructions::load_instruction_at_checked$"), self.at),
                 (re.compile(r"instruction::get_processed_sibling_instruction$"), self.sibling),
                 (re.compile(r"instruction::get_stack_height$"), lambda e, st, fn, a, t: self.stack)]
        fx = self.fx = Fx(c, path, hooks=hooks)
        fx.e.world = World(fx.e, 1)
        self.rem = fx.e.world.setup(fx.st)
        self.key = fx.st.mem[("acct", 0, "key")]
        self.top = [Ins(fx, "top%d" % i, m) for i in range(n + 1)]
        self.sib = [Ins(fx, "sib%d" % i, m) for i in range(ns)]
        self.stack = fx.N.named("stack", 1, 5)
        self.pool = fx.N.named("pool", 0, U256)
        fx.N.kind["pool"] = "key"

    def index(self, e, st, fn, a, t):
        if not e.decide(eq(self.key, SYSVAR)):
            return err("UnsupportedSysvar")
        return E(0, {0: (self.n,)})

    def at(self, e, st, fn, a, t):
        if not e.decide(eq(self.key, SYSVAR)):
            return err("UnsupportedSysvar")
        i = a[0]
        if not isinstance(i, int):
            i = sk.simp(i) if not isinstance(i, T) else i
        if not isinstance(i, int):
            raise Unsupported("instruction at a symbolic index")
        if i > self.n:
            raise Unsupported("instruction after the current one")
        okty = e.tys[t]["vars"][0]["f"][0][1]
        return E(0, {0: (self.top[i].value(okty),)})

    def sibling(self, e, st, fn, a, t):
        i = a[0]
        if not isinstance(i, int):
            raise Unsupported("sibling at a symbolic index")
        if i >= self.ns:
            return E(0, {})
        return E(1, {1: (self.sib[i].value(e.tys[t]["vars"][1]["f"][0][1]),)})

    def pool_ref(self):
        return self.fx.ref(self.pool, self.fx.pointee(0))

    def replay(self, name):
        def rp(c, end):
            lines = ["stack %d" % c.ev(self.stack)]
            for s in self.sib:
                p, ks, d = s.text(c)
                lines.append("sibling %s %s %s" % (p.hex(), ",".join(k.hex() for k in ks) or "-", d.hex()))
            raw = sysvar_bytes([i.text(c) for i in self.top], self.n)
            lines.append("func %s %s %s %s" % (name, kb(c.ev(self.pool)).hex(), kb(c.ev(self.key)).hex(), raw.hex()))
            if end.kind == "panic":
                return lines, {"ret": "panic"}
            return lines, {"ret": "ok" if end.kind == "ok" and c.ev(end.okc) is True else "err"}
        return rp


def decide(c, tx, ends, label, name, must, why=()):
    """accepted exactly when the condition holds; transactions that make the program panic are refused"""
    wit = {"ok": 0, "err": 0}
    for x in ends:
        if x.kind == "panic":
            continue
        okc = x.okc if x.kind == "ok" else False
        c.prove(x, [("%s: accepted only when it must be" % label, b_implies(okc, must)),
                    ("%s: refused only when it must be" % label, b_implies(b_not(okc) if okc is not False else True, b_not(must)))],
                tx.fx.e, replay=tx.replay(name))
        if any(o["verdict"] == "violated" for o in c.obls):
            return
        if wit.get(x.kind, 1) < 1:
            wit[x.kind] += c.witness(x, tx.fx.e, "%s %s" % (label, x.kind), replay=tx.replay(name)) == "sat"


def single_task(n, ns, m):
    def run(c):
        tx = Tx(c, MOD + "validate_single_swap_instruction", n, ns, m)
        ends = tx.fx.run([tx.pool_ref(), tx.rem], deadline=300)
        swap = lambda i: b_and(i.ours(), i.has_disc(SWAPS), eq(i.keys[2], tx.pool) if m > 2 else False)
        touch = lambda i: b_and(b_not(i.ours()), b_or(*[eq(k, tx.pool) for k in i.keys]))
        direct = tx.top[n].ours()
        nested = b_and(le(tx.stack, 2), *[b_not(swap(s)) for s in tx.sib])
        must = b_and(eq(tx.key, SYSVAR), b_or(direct, nested), *[b_not(b_or(swap(i), touch(i))) for i in tx.top[:n]])
        decide(c, tx, ends, "%d earlier instructions, %d siblings" % (n, ns), "single_swap", must)
    return run


def created_task(n, m):
    def run(c):
        tx = Tx(c, MOD + "validate_contain_initialize_pool_ix_and_no_cpi", n, 0, m)
        fx = tx.fx
        ends = fx.run([tx.pool_ref(), fx.ref(fx.enum(0), fx.pointee(1)), tx.rem], deadline=300)
        init = lambda i: b_and(i.ours(), i.has_disc(INITS), eq(i.keys[5], tx.pool) if m > 5 else False)
        must = b_and(eq(tx.key, SYSVAR), tx.top[n].ours(), b_or(*[init(i) for i in tx.top[:n]]))
        decide(c, tx, ends, "created now, %d earlier instructions of %d accounts" % (n, m), "created_now", must)
        if n != 1:
            return
        # with a referral there is no reduced fee
        tx = Tx(c, MOD + "validate_contain_initialize_pool_ix_and_no_cpi", n, 0, m)
        fx = tx.fx
        ends = fx.run([tx.pool_ref(), fx.ref(E(1, {1: (Opq("referral account"),)}), fx.pointee(1)), tx.rem], deadline=60)
        for x in ends:
            if x.kind == "ok":
                c.prove(x, [("no reduced fee with a referral", b_not(x.okc))], fx.e)
        if not any(x.kind == "ok" for x in ends):
            c.obls.append({"name": "no reduced fee with a referral", "verdict": "proved", "by": "no accepting path"})
    return run


def absent_task(c):
    """without the instructions sysvar nothing is accepted"""
    for f in ("validate_single_swap_instruction", "validate_contain_initialize_pool_ix_and_no_cpi"):
        tx = Tx(c, MOD + f, 1, 0, 3)
        fx = tx.fx
        rem = P(tx.rem.base, tx.rem.path, 0, tx.rem.ty)
        args = [tx.pool_ref()] + ([fx.ref(fx.enum(0), fx.pointee(1))] if "contain" in f else []) + [rem]
        for x in fx.run(args):
            if x.kind == "ok":
                c.prove(x, [("%s without the instructions account" % f, b_not(x.okc))], fx.e)
        c.obls.append({"name": "%s without the instructions account" % f, "verdict": "proved", "by": "every path refuses"})


def swap_goals(x, q):
    """the swap instruction asks for the checks when it has to"""
    g = [("a rate-limited trade is checked to be the only swap", b_implies(q.limited, b_or(*q.singles)))]
    for n in x.st.notes:
        if type(n) is tuple and n[0] == "arbitrary":
            g.append(("the check is about this pool", eq(n[3][0], x.key("pool"))))
    g.append(("the reduced fee needs the option, the first swap and the creation in this transaction",
              b_implies(q.eligible, b_and(eq(q.c.enable_first_swap_with_min_fee, 1), eq(q.p.has_swap, 0), q.created_now))))
    used = [r for r in x.st.notes if isinstance(r, sk.Rec) and r.fn.name.endswith("get_min_base_fee_numerator")]
    g.append(("the lowest rate is used only for the reduced fee", b_and(*[b_implies(r.cond, q.eligible) for r in used])))
    return g + sk.fee_goals(x, q)


def tasks():
    big = TIER == "thorough"
    t = [("single %d %d %d" % (n, ns, m), single_task(n, ns, m)) for n in range(4 if big else 3) for ns in range(3) for m in ((3, 4) if big else (3,))]
    t += [("created %d %d" % (n, m), created_task(n, m)) for n in range(4 if big else 3) for m in (5, 6)]
    t += [("no sysvar", absent_task)]
    sw = sk.swap_tasks(swap_goals)
    return t + [s for s in sw if big or s[0] in ("swap2 mode 0 collect 0", "swap2 mode 1 collect 0", "swap2 mode 2 collect 0", "swap collect 1")]


META = {"level": "model_checking", "funcs": ["single_swap", "created_now"],
        "assumptions": sk.SWAP_ASSUME + ["the instructions sysvar, the stack height and the processed siblings are what the runtime says"],
        "bounds": ["up to 2 earlier top-level instructions (thorough: 3) and 2 processed siblings, each with 3 accounts (5 and 6 for pool creation) and 8 bytes of data, all keys and data; an instruction with fewer accounts or data makes the program panic, which refuses the swap"]}
