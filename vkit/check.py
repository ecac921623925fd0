"""Deciding obligations: symbolic paths of the real code, verification conditions, solver verdicts, replays."""
import hashlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

import z3

from . import build
from . import terms as tm
from .conc import Conc, NoValue, kb
from .hooks import HOOKS
from .ix import Call, Ix, PROGRAM, SYSTEM, TOKEN, TOKEN22, disc_const, vec_items
from .sx import BA, E, End, Engine, F, Limit, Opq, P, PB, S, St, U, Unsupported, View
from .terms import T, add, b_and, b_iff, b_implies, b_not, b_or, bx, cmp, ex, ite, sub

ROOT = build.ROOT
EVID = os.environ.get("VERIF_EVID", os.path.join(ROOT, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def eq(a, b):
    """equality of scalars or booleans"""
    if tm.is_boolv(a) or tm.is_boolv(b):
        return b_iff(a, b)
    return cmp("Eq", a, b)


def ne(a, b):
    return b_not(eq(a, b))


def le(a, b):
    return cmp("Le", a, b)


def lt(a, b):
    return cmp("Lt", a, b)


def ge(a, b):
    return cmp("Ge", a, b)


def gt(a, b):
    return cmp("Gt", a, b)


def sha8(s):
    return hashlib.sha256(s.encode()).digest()[:8]


def units(exprs):
    """the conditions with decided boolean constants filled in"""
    sub = []
    for x in exprs:
        y = x.arg(0) if z3.is_not(x) else x
        if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            sub.append((y, z3.BoolVal(y is x)))
    if not sub:
        return exprs
    keep = [v if z3.is_true(w) else z3.Not(v) for v, w in sub]
    return keep + [z3.simplify(z3.substitute(x, *sub)) for x in exprs]


class Ctx:
    """what one task of a check collects"""

    def __init__(self, prop, task, deadline):
        self.prop = prop
        self.task = task
        self.deadline = deadline
        self.obls = []
        self.enc = {}
        self.cases = []
        self.stats = {"paths": 0, "ok_paths": 0, "steps": 0, "feas": 0, "feas_s": 0.0, "queries": 0, "solver_s": 0.0,
                      "syntactic": 0}
        self.notes = []
        self.bounds = []

    @property
    def prog(self):
        return build.program()

    def left(self):
        return self.deadline - time.time()

    def absorb(self, e):
        for k, v in e.encoded.items():
            self.enc[k] = self.enc.get(k, 0) + v
        self.stats["paths"] += e.npaths
        self.stats["steps"] += e.nsteps
        self.stats["feas"] += e.nfeas
        self.stats["feas_s"] += e.tfeas

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def note(self, s):
        self.notes.append(s[:600])

    # ------------------------------------------------------------------ proving
    def solve(self, N, pc, neg, timeouts=(4, 20), cvc5=True):
        """(verdict, model): unsat | sat | unknown for pc and neg, with all facts and definitions"""
        exprs = units([bx(c) for c in pc] + [bx(neg)])
        t0 = time.time()
        # linear facts first: an over-approximation, so only unsat counts
        s = z3.Solver()
        s.set("timeout", int(1000 * timeouts[0]))
        s.add(*exprs)
        s.add(*N.closure(exprs, False))
        r = s.check()
        self.stats["queries"] += 1
        if r == z3.unsat:
            self.stats["solver_s"] += time.time() - t0
            return "unsat", None, "z3-linear"
        cl = N.closure(exprs, True)
        if r == z3.sat and not any(v in N.defs for x in exprs + cl for v in N.vars_of(x)):
            self.stats["solver_s"] += time.time() - t0
            return "sat", s.model(), "z3-linear"
        for tactic, to in (("default", timeouts[1]), ("nla", timeouts[1])):
            if self.left() < 5:
                break
            if tactic == "default":
                s = z3.Solver()
            else:
                s = z3.Tactic("qfnia").solver()
            s.set("timeout", int(1000 * min(to, max(self.left() - 3, 1))))
            s.add(*exprs)
            s.add(*cl)
            r = s.check()
            self.stats["queries"] += 1
            if r == z3.unsat:
                self.stats["solver_s"] += time.time() - t0
                return "unsat", None, "z3-" + tactic
            if r == z3.sat:
                self.stats["solver_s"] += time.time() - t0
                return "sat", s.model(), "z3-" + tactic
        if cvc5 and self.left() > 5:
            r = self.cvc5(exprs + cl, min(timeouts[1], self.left() - 3))
            if r == "unsat":
                self.stats["solver_s"] += time.time() - t0
                return "unsat", None, "cvc5"
        m = self.search(N, exprs, cl, timeouts[1])
        self.stats["solver_s"] += time.time() - t0
        if m is not None:
            return "sat", m, "z3-fixed"
        return "unknown", None, ""

    def cvc5(self, exprs, to):
        s = z3.Solver()
        s.add(*exprs)
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
        try:
            out = subprocess.run(["cvc5", "--tlimit=%d" % int(1000 * to), f.name], capture_output=True, text=True,
                                 timeout=to + 5).stdout.strip().split("\n")[0]
        except Exception:
            out = "unknown"
        os.unlink(f.name)
        self.stats["queries"] += 1
        return out

    def search(self, N, exprs, cl, to):
        """fix one factor of every product at values of a relaxed model: linear, so a model is found quickly"""
        muls = []
        seen = set()
        todo = set()
        for x in exprs:
            todo |= N.vars_of(x)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for f in list(N.facts.get(v, ())) + list(N.defs.get(v, ())):
                todo |= N.vars_of(f) - seen
            o = N.origin.get(v)
            if o and o[0] == "mul" and not isinstance(o[1], int) and not isinstance(o[2], int):
                muls.append(o)
        if not muls:
            return None
        lin = N.closure(exprs, False)
        t1 = time.time() + to
        for side in (1, 2):
            s = z3.Solver()
            s.set("timeout", 4000)
            s.add(*exprs)
            s.add(*lin)
            ok = True
            for o in muls:
                if s.check() != z3.sat:
                    ok = False
                    break
                m = s.model()
                f = o[side] if tm.rng(o[side])[1] is not None else o[3 - side]
                v = m.eval(ex(f), model_completion=True)
                s.add(ex(f) == v)
                a, b = o[1], o[2]
                nm = N.mul(a, b)
                other = o[2] if f is o[1] else o[1]
                s.add(ex(nm) == v * ex(other))
                if time.time() > t1:
                    ok = False
                    break
            if ok:
                s.add(*cl)
                if s.check() == z3.sat:
                    return s.model()
        return None

    def prove(self, end, goals, e=None, timeouts=(4, 20), replay=None, hyp=(), refine=None):
        """every goal (label, condition) holds at this end"""
        e = e or end.e
        gs = [(l, c if isinstance(c, bool) else z3.simplify(c)) for l, c in goals]
        triv = [g for g in gs if g[1] is True or (not isinstance(g[1], bool) and z3.is_true(g[1]))]
        for l, _ in triv:
            self.obls.append({"name": l, "verdict": "proved", "by": "simplification"})
            self.stats["syntactic"] += 1
        gs = [g for g in gs if not (g[1] is True or (not isinstance(g[1], bool) and z3.is_true(g[1])))]
        if not gs:
            return True
        pc = list(end.st.pc) + [bx(h) for h in hyp if h is not True]
        if len(gs) > 1:
            r, m, by = self.solve(e.N, pc, b_or(*[b_not(c) for _, c in gs]), (timeouts[0], min(5, timeouts[1])), cvc5=False)
            if r == "unsat":
                for l, _ in gs:
                    self.obls.append({"name": l, "verdict": "proved", "by": by})
                return True
        allok = True
        for l, c in gs:
            r, m, by = self.solve(e.N, pc, b_not(c), timeouts)
            if r == "unsat":
                self.obls.append({"name": l, "verdict": "proved", "by": by})
                continue
            allok = False
            if r == "unknown":
                self.obls.append({"name": l, "verdict": "undecided"})
                continue
            d = self.distinct_keys(end)
            if refine is not None:
                m = refine(pc + [bx(b_not(c))], d)
                if m is None:
                    self.obls.append({"name": l, "verdict": "undecided", "why": "no concrete case"})
                    continue
            elif d is not None:
                r2, m2, _ = self.solve(e.N, pc + d, b_not(c), timeouts, cvc5=False)
                m = m2 if r2 == "sat" else m
            ok, why, cs = self.case(end, e, m, pc + [bx(b_not(c))], "cex", l, replay)
            if not ok:
                self.obls.append({"name": l, "verdict": "undecided", "why": why})
                continue
            self.obls.append({"name": l, "verdict": "violated", "case": cs["id"] if cs else None})
            break            # one counterexample per path is enough
        return allok

    def distinct_keys(self, end):
        """a preference for concrete cases: different accounts have different addresses"""
        run = getattr(end, "run", None)
        if run is None:
            return None
        ks = {}
        for i in range(run.n):
            k = ex(end.st.mem[("acct", i, "key")])
            if ("acct", i, "obj") in end.st.mem or any(c[1] == i for c in end.st.mem.get(("fx",), ())) or i < 6:
                ks[k.get_id()] = k
        ks = list(ks.values())
        return [z3.Distinct(*ks)] + [k != 0 for k in ks] if len(ks) > 1 else None

    def witness(self, end, e=None, label="", extra=(), timeouts=(4, 10), replay=None, refine=None):
        """a concrete input that takes this path, for the native replay"""
        e = e or end.e
        pc = list(end.st.pc) + [bx(x) for x in extra]
        d = self.distinct_keys(end)
        r = None
        if refine is not None:
            m = refine(pc, d)
            if m is None:
                return "none"
            r = "sat"
        elif d is not None:
            r, m, by = self.solve(e.N, pc + d, True, timeouts, cvc5=False)
        if r != "sat":
            r, m, by = self.solve(e.N, pc, True, timeouts, cvc5=False)
        if r != "sat":
            return r
        ok, why, cs = self.case(end, e, m, pc, "witness", label, replay)
        if not ok:
            self.note("witness of %s: %s" % (label, why))
            return "none"
        return "sat"

    def case(self, end, e, m, conds, kind, label, replay):
        """check the model against exact arithmetic and real addresses, and write down the case to replay"""
        try:
            c = Conc(e, m)
            consts = getattr(e.N, "keyconsts", None)
            if consts is None:
                e.N.keyconsts = set([SYSTEM, TOKEN, TOKEN22, PROGRAM])
            c.keyvals(conds)
            c.keys()
            for x in conds:
                if c.ev(x) is not True:
                    return False, "the model does not survive exact evaluation (%s)" % str(x)[:200].replace("\n", " "), None
        except NoValue as ex_:
            return False, str(ex_), None
        rp = replay or getattr(end, "replay", None)
        cs = {"id": "%s:%s:%d" % (self.task, kind, len(self.cases)), "kind": kind, "label": label, "lines": None,
              "expect": None, "inputs": self.describe(c, conds)}
        if rp is not None:
            try:
                cs["lines"], cs["expect"] = rp(c, end)
            except NoValue as ex_:
                cs["why"] = "no replay: %s" % ex_
        self.cases.append(cs)
        return True, None, cs

    def describe(self, c, conds):
        names = set()
        for x in conds:
            if not isinstance(x, bool):
                names |= c.N.vars_of(x)
        out = {}
        for n in sorted(names):
            if "#" in n or n.startswith("@"):
                continue
            v = c.env.get(n)
            if v is not None:
                out[n] = v if not isinstance(v, int) or isinstance(v, bool) or v < 1 << 64 else str(c.rename.get(v, v))
            if len(out) >= 60:
                break
        return out

    def result(self):
        return {"task": self.task, "obls": self.obls, "enc": self.enc, "cases": self.cases, "stats": self.stats,
                "notes": self.notes, "bounds": self.bounds}


def _keyvals(self, conds):
    """constants that addresses are compared with keep their value"""
    s = self.N.keyconsts
    done = self.N.__dict__.setdefault("_kc_seen", set())
    stack = [x for x in conds if not isinstance(x, bool)]
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        self.N.keep.append(x)
        if z3.is_int_value(x):
            v = x.as_long()
            if v > 1 << 60:
                s.add(v)
        stack.extend(x.children())


Conc.keyvals = _keyvals


# ---------------------------------------------------------------------------------------------- instruction runs
class IxEnd:
    """a finished path of an instruction, with access by account name"""

    def __init__(self, run, end):
        self.run = run
        self.e = run.e
        self.end = end
        self.st = end.st
        self.replay = run.replay_case

    @property
    def ok(self):
        v = self.end.value
        return self.end.kind == "ret" and type(v) is E and v.v == 0

    def key(self, name):
        return self.st.mem.get(("acct", self.run.idx.get(name), "key"))

    def owner0(self, name):
        return self.e.N.named(self.e.world.acct_var(self.run.idx[name], "owner"), 0, (1 << 256) - 1)

    def signer(self, name):
        return z3.Bool(self.e.world.acct_var(self.run.idx[name], "signer"))

    def pre(self, name):
        i = self.run.idx.get(name)
        b = ("acct", i, "obj0")
        if b not in self.st.mem:
            return None
        return View(self.e, self.st.mem[b], self.st.mty[b])

    def post(self, name):
        i = self.run.idx.get(name)
        b = ("acct", i, "obj")
        if b not in self.st.mem:
            return None
        return View(self.e, self.st.mem[b], self.st.mty[b])

    def token(self, name, which="deser0"):
        """the token account (or mint) as it was first read"""
        i = self.run.idx.get(name)
        for w in (which, "deser"):
            for k in self.st.mem:
                if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] == w:
                    return View(self.e, self.st.mem[k], self.st.mty[k])
        return None

    def token_at(self, name, idx):
        """the token account right after the call with that index"""
        i = self.run.idx.get(name)
        r = self.token(name)
        for n, j, what, v in self.st.mem.get(("fx",), ()):
            if j == i and what == "data" and n <= idx:
                r = View(self.e, v[0], v[1])
        return r

    def token_post(self, name):
        """the token account as it was last read"""
        return self.token(name, "deser")

    @property
    def args(self):
        b = ("ixargs",)
        return View(self.e, self.st.mem[b], self.st.mty[b]) if b in self.st.mem else None

    @property
    def clock(self):
        b = ("clock",)
        return View(self.e, self.st.mem[b], self.st.mty[b]) if b in self.st.mem else None

    def present(self, name):
        """is the optional account given (its address is not the program's)"""
        return cmp("Ne", self.st.mem[("acct", self.run.idx[name], "key")], PROGRAM)

    def transfers(self):
        """token movements in order: (src, dst, amount, authority, seeds, mint, kind)"""
        out = []
        for c in self.st.events:
            if c.kind == "token.transfer_checked":
                a = c.args
                out.append(Move(a[1], a[3], a[6], a[4], c.seeds, a[2], c))
            elif c.kind == "token.transfer":
                a = c.args
                out.append(Move(a[1], a[2], a[5], a[3], c.seeds, None, c))
        return out

    def calls(self, kind):
        return [c for c in self.st.events if c.kind == kind]


class Move:
    def __init__(self, src, dst, amount, auth, seeds, mint, call):
        self.src, self.dst, self.amount, self.auth, self.seeds, self.mint, self.call = src, dst, amount, auth, seeds, mint, call


def leaves(e, v, tid, path=""):
    """(path, term) for every scalar of a value"""
    t = e.tys[tid]
    if t.get("size") == 0:
        return
    if e.prog.is_pubkey(t) or e.prog.is_opaque_int(t) or t["k"] in ("uint", "int", "bool", "char"):
        yield path, v
        return
    if type(v) in (PB, BA):
        yield path, v
        return
    if t["k"] == "array":
        for i, x in enumerate(e.elems(v)):
            yield from leaves(e, x, t["elem"], "%s[%d]" % (path, i))
        return
    if t["k"] == "adt" and t["kind"] == "enum":
        yield path, v.v
        return
    er = e.erase(tid)
    fs = t["vars"][0]["f"] if t["k"] == "adt" else [(str(i), f) for i, f in enumerate(t["fields"])]
    for i, f in enumerate(fs):
        n, ft = f[0], f[1]
        p = (path + "." + n) if path else n
        if er is not None:
            if er == i:
                yield from leaves(e, v, ft, p)
        else:
            yield from leaves(e, e.get1(v, i), ft, p)


def lv_eq(e, a, b):
    if type(a) in (PB, BA) or type(b) in (PB, BA):
        if a is b:
            return True
        return cmp("Eq", e.bytes_to_int(a), e.bytes_to_int(b))
    return eq(a, b)


def frame(x, name, changed=None, label=None):
    """goals: the account's fields are as expected (changed: path -> term) and otherwise as before"""
    a, b = x.pre(name), x.post(name)
    changed = dict(changed or {})
    if a is None:
        return []
    e = x.e
    label = label or name
    if a._v is b._v and not changed:
        return [("%s unchanged" % label, True)]
    out = []
    rest = []
    for (p, u), (_, v) in zip(leaves(e, a._v, a._t), leaves(e, b._v, b._t)):
        if p in changed:
            out.append(("%s.%s" % (label, p), lv_eq(e, v, changed.pop(p))))
        elif u is not v:
            rest.append(lv_eq(e, u, v))
    if changed:
        raise KeyError("no field %s in %s" % (list(changed), name))
    out.append(("%s: no other field changes" % label, b_and(*rest)))
    return out


class IxRun:
    """all paths of one instruction for arbitrary accounts"""

    def __init__(self, ctx, name, struct, extra=0, mkargs=None, hooks=(), fix=None, assume=None, max_paths=20000,
                 on_cpi=None, event_cpi=True):
        self.ctx = ctx
        self.name = name
        prog = ctx.prog
        t = prog.tys[prog.adt(struct)]
        self.fields = [f[0] for f in t["vars"][0]["f"]]
        self.idx = {n: i for i, n in enumerate(self.fields)}
        self.n = len(self.fields) + extra
        for k in range(extra):
            self.idx["rem%d" % k] = len(self.fields) + k
        self.e = Ix(prog, name, self.n, mkargs=mkargs, extra_hooks=hooks, max_paths=max_paths)
        self.e.soft = True
        self.e.run_names = self.idx
        if fix is not None:
            self.e.world_fix = fix
        if on_cpi is not None:
            self.e.on_cpi = on_cpi
        self.assume = assume
        self.rem_meta = {}

    def ends(self):
        st, f, args = self.e.start()
        if self.assume is not None:
            for c in self.assume(self.e, st, self.idx):
                self.e.assume(st, bx(c))
        n = 0
        try:
            for x in self.e.run(f, args, st, self.ctx.deadline - 5):
                if x.kind == "unsup":
                    self.ctx.obls.append({"name": "%s: path outside the encoding" % self.name, "verdict": "undecided",
                                          "why": x.why[:400]})
                    continue
                y = IxEnd(self, x)
                if y.ok:
                    self.ctx.stats["ok_paths"] += 1
                    n += 1
                yield y
        except Limit as l:
            self.ctx.obls.append({"name": "%s: exploration limit (%s)" % (self.name, l), "verdict": "undecided"})
        except Unsupported as u:
            self.ctx.obls.append({"name": "%s: outside the encoding" % self.name, "verdict": "undecided", "why": str(u)[:400]})
        finally:
            self.ctx.absorb(self.e)
        self.n_ok = n

    def oks(self):
        for x in self.ends():
            if x.ok:
                yield x

    # ------------------------------------------------------------------ replay
    def replay_case(self, c, end):
        e, st = self.e, end.st
        lines = []
        N = self.n
        for i in range(N):
            w = e.world.acct_var
            key = c.var(w(i, "key"))
            owner = c.var(w(i, "owner"))
            lam = c.var(w(i, "lamports"))
            data = self.acct_bytes(c, st, i)
            lines.append("acct %s %s %d %d %d %d %s" % (
                kb(key).hex(), kb(owner).hex(), lam, c.var(w(i, "signer"), True), c.var(w(i, "writable"), True),
                c.var(w(i, "executable"), True), data.hex() or "-"))
        ck = st.mem.get(("clock",))
        if ck is not None:
            v = View(e, ck, st.mty[("clock",)])
            lines.append("clock %d %d %d %d %d" % tuple(c.ev(y) for y in (
                v.slot, v.epoch_start_timestamp, v.epoch, v.leader_schedule_epoch, v.unix_timestamp)))
        lines += self.env_lines(c, st)
        for n, i, what, v in st.mem.get(("fx",), ()):
            try:
                if what == "data":
                    d = self.packed(c, v[0], v[1]).hex() or "-"
                else:
                    d = kb(c.ev(v)).hex() if what == "owner" else "%d" % c.ev(v)
            except NoValue:
                continue
            lines.append("effect %d %d %s %s" % (n, i, what, d))
        data = sha8("global:" + self.name)
        if ("ixargs",) in st.mem:
            data += c.borsh(st.mem[("ixargs",)], st.mty[("ixargs",)])
        lines.append("run %s" % data.hex())
        return lines, self.expect(c, end)

    def env_lines(self, c, st):
        out = []
        sh = st.mem.get(("stack_height",))
        if sh is not None:
            out.append("stack %d" % c.ev(sh))
        return out

    def acct_bytes(self, c, st, i):
        e = self.e
        b = ("acct", i, "obj0")
        if b in st.mem:
            tid = st.mty[b]
            return disc_const(e, tid).to_bytes(8, "little") + c.layout(st.mem[b], tid)
        if ("acct", i, "rawbytes") in st.mem:
            return st.mem[("acct", i, "rawbytes")](c)
        for k in st.mem:
            if type(k) is tuple and k[0] == "acct" and k[1] == i and k[2] == "deser" and not st.mem.get(("acct", i, "inited")):
                k = k[:2] + ("deser0",) + k[3:] if k[:2] + ("deser0",) + k[3:] in st.mem else k
                return self.packed(c, st.mem[k], st.mty[k])
        if st.mem.get(("acct", i, "disc")) is not None and ("acct", i, "obj") in st.mem and not st.mem.get(("acct", i, "inited")):
            tid = st.mty[("acct", i, "obj")]
            return bytes(8 + e.size(tid))
        nm = e.world.acct_var(i, "disc")
        if nm in c.env and not st.mem.get(("acct", i, "inited")):
            return c.var(nm).to_bytes(8, "little") + bytes(min(c.env.get(e.world.acct_var(i, "data_len"), 8), 2000))
        return bytes(min(c.env.get(e.world.acct_var(i, "data_len"), 0), 4096))

    def packed(self, c, v, tid):
        e = self.e
        n = e.tys[tid]["name"].split("::")[-1]
        w = View(e, v, tid)

        def copt(x, ty):
            en = x._v if isinstance(x, View) else x
            d = c.ev(en.v)
            if not d:
                return bytes(4 + (32 if ty == "k" else 8))
            p = en.pl[1][0]
            return (1).to_bytes(4, "little") + (kb(c.ev(p)) if ty == "k" else c.ev(p).to_bytes(8, "little"))
        if n in ("Account", "TokenAccount"):
            st_ = w.state._v.v if isinstance(w.state, View) else w.state
            return (kb(c.ev(w.mint)) + kb(c.ev(w.owner)) + c.ev(w.amount).to_bytes(8, "little") + copt(w.delegate, "k")
                    + bytes([c.ev(st_)]) + copt(w.is_native, "u") + c.ev(w.delegated_amount).to_bytes(8, "little")
                    + copt(w.close_authority, "k"))
        if n == "Mint":
            return (copt(w.mint_authority, "k") + c.ev(w.supply).to_bytes(8, "little") + bytes([c.ev(w.decimals)])
                    + bytes([1 if c.ev(w.is_initialized) else 0]) + copt(w.freeze_authority, "k"))
        return sha8("account:" + n) + c.borsh(v, tid)

    def expect(self, c, end):
        """what the engine says the run does"""
        e, st = self.e, end.st
        ok = end.ok
        exp = {"result": "ok" if ok else ("panic" if end.end.kind == "panic" else "err"), "accts": {}, "cpis": []}
        if not ok:
            return exp
        for i in range(self.n):
            b = ("acct", i, "obj")
            if b in st.mem and not st.mem.get(("acct", i, "closed")):
                tid = st.mty[b]
                try:
                    exp["accts"][i] = (c.ev(st.mem[("acct", i, "disc")]).to_bytes(8, "little") + c.layout(st.mem[b], tid)).hex()
                except NoValue:
                    pass
        if not any(c.kind == "cpi" for c in st.events):
            exp["lamports"] = {}
            for i in range(self.n):
                try:
                    exp["lamports"][i] = c.ev(st.mem[("acct", i, "lamports")])
                except NoValue:
                    pass
        ev = None
        for call in st.events:
            k = call.kind
            d = None
            prog = None
            keys = None
            try:
                if k == "emit":
                    ev = bytes.fromhex("e445a52e51cb9a1d") + sha8("event:" + call.name.split("::")[-1]) + c.borsh(call.value, call.ty)
                    continue
                if k == "raw":
                    prog, d, ev = PROGRAM, ev, None
                elif k.startswith("token."):
                    a = call.args
                    prog = c.ev(a[0])
                    if k == "token.transfer_checked":
                        d = bytes([12]) + c.ev(a[6]).to_bytes(8, "little") + bytes([c.ev(a[7])])
                        keys = [a[1], a[2], a[3], a[4]]
                    elif k == "token.transfer":
                        d = bytes([3]) + c.ev(a[5]).to_bytes(8, "little")
                        keys = [a[1], a[2], a[3]]
                    elif k == "token.burn":
                        d = bytes([8]) + c.ev(a[5]).to_bytes(8, "little")
                        keys = [a[1], a[2], a[3]]
                    elif k == "token.mint_to":
                        d = bytes([7]) + c.ev(a[5]).to_bytes(8, "little")
                        keys = [a[1], a[2], a[3]]
                elif k.startswith("system."):
                    prog = 0
                    if k == "system.transfer":
                        d = (2).to_bytes(4, "little") + c.ev(call.args[2]).to_bytes(8, "little")
                        keys = call.args[:2]
                elif k in ("serialize", "realloc", "note", "call"):
                    continue
                elif k == "cpi":
                    from .ix import cpi_view
                    v = cpi_view(e, call)
                    prog = c.ev(v.program)
                    keys = v.keys
                    if v.data is not None:
                        d = b"".join(y if isinstance(y, bytes) else c.borsh(y[1], y[0]) for y in v.data)
            except (NoValue, AttributeError, TypeError, KeyError, IndexError):
                d = None
            exp["cpis"].append({"kind": k, "program": kb(prog).hex() if prog is not None else None,
                                "data": d.hex() if d is not None else None,
                                "keys": self.keyhex(c, keys)})
        return exp

    def keyhex(self, c, keys):
        if keys is None:
            return None
        try:
            return [kb(c.ev(k)).hex() for k in keys]
        except (NoValue, AttributeError, TypeError):
            return None


# ---------------------------------------------------------------------------------------------- native replay
def run_native(exe, cases):
    """run the cases; id -> parsed output"""
    text = []
    for c in cases:
        text.append("case " + c["id"].replace(" ", "_"))
        text += c["lines"]
    r = subprocess.run([exe], input="\n".join(text) + "\n", capture_output=True, text=True, timeout=300)
    out = {}
    cur = None
    for l in r.stdout.split("\n"):
        w = l.split()
        if not w:
            continue
        if w[0] == "case":
            cur = out[w[1]] = {"cpis": [], "accts": {}, "result": None}
        elif cur is None:
            continue
        elif w[0] == "result":
            cur["result"] = w[1]
            cur["code"] = w[2] if len(w) > 2 else None
        elif w[0] == "cpi":
            cur["cpis"].append({"program": w[1], "keys": [] if w[2] == "-" else [k.split(":")[0] for k in w[2].split(",")],
                                "data": "" if w[3] == "-" else w[3], "seeds": w[4] if len(w) > 4 else "-"})
        elif w[0] == "acct":
            cur["accts"][int(w[1])] = {"owner": w[2], "lamports": int(w[3]), "data": "" if w[4] == "-" else w[4]}
        elif w[0] == "ret":
            cur["result"] = "ret"
            cur["ret"] = l[4:]
    return out


def agrees(case, out):
    """does the native run do what the encoding predicts; reason if not"""
    exp = case["expect"]
    if out is None:
        return False, "no output"
    if "ret" in exp:
        g = out.get("ret")
        return (g == exp["ret"]), "returned %s, predicted %s" % (g, exp["ret"])
    if out["result"] != exp["result"]:
        return False, "result %s (%s), predicted %s" % (out["result"], out.get("code"), exp["result"])
    if exp["result"] != "ok":
        return True, None
    for i, d in exp["accts"].items():
        g = out["accts"][int(i)]["data"]
        if not g.startswith(d):
            k = next((j for j in range(0, min(len(g), len(d)), 2) if g[j:j + 2] != d[j:j + 2]), min(len(g), len(d)))
            return False, "account %s differs at byte %d: %s predicted %s" % (i, k // 2, g[k:k + 32], d[k:k + 32])
    for i, l in exp.get("lamports", {}).items():
        if out["accts"][int(i)]["lamports"] != l:
            return False, "account %s has %d lamports, predicted %d" % (i, out["accts"][int(i)]["lamports"], l)
    if len(out["cpis"]) != len(exp["cpis"]):
        return False, "%d calls, predicted %d" % (len(out["cpis"]), len(exp["cpis"]))
    for k, (g, x) in enumerate(zip(out["cpis"], exp["cpis"])):
        if x["program"] and g["program"] != x["program"]:
            return False, "call %d to %s, predicted %s" % (k, g["program"], x["program"])
        if x["data"] is not None and g["data"] != x["data"]:
            return False, "call %d (%s) data %s, predicted %s" % (k, x["kind"], g["data"], x["data"])
        if x["keys"] is not None and g["keys"][:len(x["keys"])] != x["keys"]:
            return False, "call %d (%s) accounts" % (k, x["kind"])
    return True, None


# ---------------------------------------------------------------------------------------------- running a check
def _child(prop, name, fn, deadline, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    c = Ctx(prop, name, deadline)
    try:
        fn(c)
    except Exception:
        c.obls.append({"name": name + ": error", "verdict": "undecided", "why": traceback.format_exc()[-1500:]})
    q.put(c.result())
    q.close()
    q.join_thread()
    os._exit(0)


def run_tasks(prop, tasks, budget, jobs=8):
    deadline = time.time() + budget
    q = mp.Queue()
    todo = list(tasks)
    live = {}
    res = []

    def drain(block):
        try:
            r = q.get(timeout=0.2) if block else q.get_nowait()
        except Exception:
            return False
        res.append(r)
        return True
    while todo or live:
        while todo and len(live) < jobs:
            name, fn = todo.pop(0)
            p = mp.Process(target=_child, args=(prop, name, fn, deadline, q))
            p.start()
            live[name] = p
        while drain(True):
            pass
        for n, p in list(live.items()):
            if any(r["task"] == n for r in res):
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[n]
            elif not p.is_alive():
                while drain(True):
                    pass
                if not any(r["task"] == n for r in res):
                    res.append({"task": n, "obls": [{"name": n + ": ended", "verdict": "undecided"}], "enc": {}, "cases": [],
                                "stats": {}, "notes": ["exit code %s" % p.exitcode], "bounds": []})
                del live[n]
            elif time.time() > deadline + 20:
                p.kill()
                p.join()
                res.append({"task": n, "obls": [{"name": n + ": time limit", "verdict": "undecided"}], "enc": {}, "cases": [],
                            "stats": {}, "notes": [], "bounds": []})
                del live[n]
    return res


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip().startswith("{"):
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


class Funcs:
    """Rust snippets for the functions a check replays"""
    table = {}


def funcs_src(names):
    arms = "\n".join('        "%s" => { %s }' % (n, Funcs.table[n]) for n in sorted(names) if n in Funcs.table)
    return ("#![allow(unused_imports, unused_variables, dead_code)]\n"
            "pub fn p<T: std::str::FromStr>(s: &str) -> T where T::Err: std::fmt::Debug { s.parse::<T>().unwrap() }\n"
            "pub fn opt<T: std::fmt::Display>(r: Option<T>) -> String { match r { Some(v) => format!(\"ok {}\", v), None => \"err\".to_string() } }\n"
            "pub fn res<T: std::fmt::Display, E>(r: std::result::Result<T, E>) -> String { match r { Ok(v) => format!(\"ok {}\", v), Err(_) => \"err\".to_string() } }\n"
            "pub fn call(n: &str, a: &[String]) -> String {\n    match n {\n%s\n        _ => String::new(),\n    }\n}\n" % arms)


def main(prop, tasks, meta):
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", meta.get("budget", {}).get(TIER, 420 if TIER == "quick" else 3000)))
    os.makedirs(os.path.join(EVID), exist_ok=True)
    import concurrent.futures as cf
    src = funcs_src(meta.get("funcs", []))
    pool = cf.ThreadPoolExecutor(1)
    status = {}
    try:
        nat = None
        build.program()
    except build.BuildError as ex_:
        print("the tree does not build:\n%s" % ex_)
        return 2
    nat = pool.submit(build.native, src)
    res = run_tasks(prop, tasks, budget)
    try:
        exe = nat.result()
    except Exception as ex_:
        exe = None
        status["native"] = str(ex_)[-1500:]
        try:                    # a function call that no longer compiles must not take the other replays away
            exe = build.native(funcs_src([])) if src != funcs_src([]) else None
            for r in res:
                for c in r["cases"]:
                    if c["lines"] and c["lines"][0].startswith("func"):
                        c["lines"], c["why"] = None, "the call does not compile"
        except Exception:
            pass
    cases = [c for r in res for c in r["cases"]]
    runnable = [c for c in cases if c["lines"] is not None]
    outs = {}
    if exe and runnable:
        try:
            outs = run_native(exe, runnable)
        except Exception as ex_:
            status["replay"] = str(ex_)[-300:]
    validated, mismatches = 0, []
    for c in cases:
        if c["lines"] is None or not exe:
            c["replayed"] = None
            continue
        ok, why = agrees(c, outs.get(c["id"].replace(" ", "_")))
        c["replayed"] = ok
        if ok:
            validated += 1
        else:
            c["why"] = why
            mismatches.append({"case": c["id"], "label": c["label"], "why": why})
    byid = {c["id"]: c for c in cases}
    known = known_findings(prop)
    viol, kf, und = [], [], []
    for r in res:
        for o in r["obls"]:
            if o["verdict"] == "violated":
                c = byid.get(o.get("case"))
                o["task"] = r["task"]
                if c is not None and c["replayed"] is False:
                    o["verdict"] = "undecided"
                    o["why"] = "the counterexample does not replay: %s" % c["why"]
                    und.append(o)
                    continue
                k = next((k for k in known if k["task"] == r["task"] and k["obligation"] == o["name"]), None)
                (kf if k else viol).append((o, c, k))
            elif o["verdict"] == "undecided":
                und.append(dict(o, task=r["task"]))
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    code = 0
    seen = set()
    for o, c, k in kf:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for n, (o, c, _) in enumerate(viol[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "task": o["task"], "obligation": o["name"], "case": c}, f, indent=1)
        print("violated: [%s] %s" % (o["task"], o["name"]))
        if c:
            print("   replayed on the native program: %s" % c["replayed"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    tot = {}
    for r in res:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    enc = {}
    for r in res:
        for k, v in r["enc"].items():
            enc[k] = enc.get(k, 0) + v
    mine = sorted(k for k in enc if "dynamic_bonding_curve" in k)
    proved = sum(1 for r in res for o in r["obls"] if o["verdict"] == "proved")
    allobl = sum(len(r["obls"]) for r in res)
    wit = [c for c in cases if c["kind"] == "witness"]
    ev = {
        "property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": meta.get("level", "model_checking"),
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("steps", 0),
            "traces_validated_against_impl": validated,
            "samples": [{"case": c["id"], "path": c["label"], "inputs": dict(list(c["inputs"].items())[:14]), "replayed": c["replayed"]}
                        for c in (wit[:4] or cases[:4])] or [{"note": "no witness"}],
            "explanation": "states: symbolic paths explored; transitions: MIR statements and terminators executed symbolically",
            "obligations": allobl, "discharged": proved, "undecided": len(und), "violated": len(viol), "known": len(kf),
            "discharged_by_simplification": tot.get("syntactic", 0),
            "paths_ending_ok": tot.get("ok_paths", 0),
            "solver_queries": tot.get("queries", 0), "solver_seconds": round(tot.get("solver_s", 0.0), 2),
            "feasibility_queries": tot.get("feas", 0), "feasibility_seconds": round(tot.get("feas_s", 0.0), 2),
            "functions_encoded": len(enc), "functions_encoded_in_program": mine[:400],
            "witness_mismatches": mismatches[:10], "undecided_list": und[:40],
            "bounds": sorted(set(b for r in res for b in r["bounds"])) + meta.get("bounds", []),
            "tasks": {r["task"]: {"paths": r["stats"].get("paths", 0), "ok": r["stats"].get("ok_paths", 0),
                                  "obligations": len(r["obls"]),
                                  "notes": r["notes"][:6]} for r in res},
            "status": status,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d proved, %d undecided, %d violated, %d known; %d paths (%d ok), %d replays agree, %d differ; %.1f s"
          % (prop, allobl, proved, len(und), len(viol), len(kf), tot.get("paths", 0), tot.get("ok_paths", 0), validated,
             len(mismatches), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for o in und[:20]:
            print("  undecided [%s] %s %s" % (o.get("task"), o["name"], (o.get("why") or "")[:600]))
        for m in mismatches[:10]:
            print("  differs", m)
        for r in res:
            for n in r["notes"][:5]:
                print("  note [%s] %s" % (r["task"], n))
    return code
