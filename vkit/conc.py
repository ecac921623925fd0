"""Concrete values under a solver model: evaluation of terms, real program addresses, byte encodings."""
import hashlib

import z3

from . import terms as tm
from .sx import BA, E, F, Opq, P, PB, S, U

K = z3


class NoValue(Exception):
    pass


# ---------------------------------------------------------------------------------------------- program addresses
_P = 2 ** 255 - 19
_D = (-121665 * pow(121666, _P - 2, _P)) % _P


def on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    if y >= _P:
        y %= _P
    y2 = y * y % _P
    u = (y2 - 1) % _P
    v = (_D * y2 + 1) % _P
    x2 = u * pow(v, _P - 2, _P) % _P
    if x2 == 0:
        return True
    return pow(x2, (_P - 1) // 2, _P) == 1


def find_pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + prog + b"ProgramDerivedAddress").digest()
        if not on_curve(h):
            return int.from_bytes(h, "little"), bump
    raise NoValue("no address")


def kb(n):
    return int(n).to_bytes(32, "little")


class Conc:
    """values of all variables of an engine under one model"""

    def __init__(self, e, model=None, env=None):
        self.e = e
        self.N = e.N
        self.env = dict(env or {})
        self.memo = {}
        self.rename = {}
        if model is not None:
            for d in model.decls():
                if d.arity() == 0:
                    v = model[d]
                    if z3.is_int_value(v):
                        self.env[d.name()] = v.as_long()
                    elif z3.is_true(v) or z3.is_false(v):
                        self.env[d.name()] = z3.is_true(v)

    # ---------------------------------------------------------------- variables
    def var(self, nm, is_bool=False):
        v = self.env.get(nm)
        if is_bool:
            return bool(v) if v is not None else False
        o = self.N.origin.get(nm)
        if o is not None and ("!" + nm) not in self.env:
            r = self.from_origin(nm, o)
            if r is not None:
                self.env[nm] = r
                self.env["!" + nm] = True
                return r
        if v is None:
            lo, hi = self.N.rng.get(nm, (0, None))
            if self.N.kind.get(nm) == "key":
                v = int.from_bytes(hashlib.sha256(b"key" + nm.encode()).digest(), "little")
            else:
                v = lo if lo is not None else 0
                if v < 0 <= (hi if hi is not None else 0):
                    v = 0
            self.env[nm] = v
        if self.N.kind.get(nm) == "key":
            return self.rename.get(v, v)
        return v

    def from_origin(self, nm, o):
        k = o[0]
        if k == "mul":
            return self.ev(o[1]) * self.ev(o[2])
        if k == "div":
            d = self.ev(o[2])
            return self.ev(o[1]) // d if d else 0
        if k == "sqrt":
            import math
            return math.isqrt(max(self.ev(o[1]), 0))
        if k in ("pda", "bump"):
            seeds = []
            for n, v in o[1]:
                if isinstance(v, tuple):
                    raise NoValue("opaque seed")
                seeds.append(int(self.ev(v)).to_bytes(n, "little"))
            return find_pda(seeds, kb(self.ev(o[2])))[0 if k == "pda" else 1]
        if k == "fn":
            return o[1](*[self.ev(x) for x in o[2]])
        return None

    def keys(self):
        """rename the model's addresses to real ones: plain addresses first, then program addresses from their seeds"""
        pdas = [n for n, o in self.N.origin.items() if o[0] == "pda" and n in self.env]
        pdas.sort(key=lambda n: int(n.split("#")[1]))
        old = {n: self.env[n] for n in pdas}
        taken = set(old.values())
        consts = self.N.__dict__.get("keyconsts", set())
        for n, k in self.N.kind.items():
            v = self.env.get(n)
            if k != "key" or v is None or v in taken or v in consts or v == 0:
                continue
            if v < (1 << 64):
                self.rename[v] = int.from_bytes(hashlib.sha256(b"k%d" % v).digest(), "little")
        for _ in range(6):
            self.memo.clear()
            ch = False
            for n in pdas:
                try:
                    real = self.from_origin(n, self.N.origin[n])
                except NoValue:
                    continue
                self.memo.clear()
                if self.env[n] != real or self.rename.get(old[n]) != real:
                    ch = True
                self.env[n] = real
                self.env["!" + n] = True
                self.rename[old[n]] = real
            if not ch:
                break
        self.memo.clear()

    # ---------------------------------------------------------------- terms
    def ev(self, x):
        if isinstance(x, (bool, int)):
            return x
        if isinstance(x, tm.T):
            return self.ev(x.e)
        if z3.is_expr(x):
            return self.expr(x)
        raise NoValue("value of %r" % (x,))

    def expr(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in memo:
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            memo[i] = (self.apply(x, [memo[c.get_id()][0] for c in ch]), x)
        return memo[root.get_id()][0]

    def apply(self, x, a):
        if z3.is_int_value(x):
            return x.as_long()
        k = x.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sum(a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = 1
            for y in a:
                r *= y
            return r
        if k == z3.Z3_OP_ITE:
            return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1]
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return a[0] == a[1]
        if k == z3.Z3_OP_DISTINCT:
            return len(set(a)) == len(a)
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_AND:
            return all(a)
        if k == z3.Z3_OP_OR:
            return any(a)
        if k == z3.Z3_OP_IMPLIES:
            return (not a[0]) or a[1]
        if k == z3.Z3_OP_XOR:
            return a[0] != a[1]
        if k == z3.Z3_OP_IDIV:
            return a[0] // a[1] if a[1] else 0
        if k == z3.Z3_OP_MOD:
            return a[0] % a[1] if a[1] else 0
        if k == z3.Z3_OP_UNINTERPRETED:
            if x.num_args() == 0:
                return self.var(x.decl().name(), z3.is_bool(x))
            if x.decl().name() == "key_rank":
                return int.from_bytes(kb(a[0]), "big")
            o = self.N.origin.get("@" + x.decl().name())
            if o is not None:
                return o(*a)
        raise NoValue("operator %s" % x.decl())

    # ---------------------------------------------------------------- values to bytes
    def val(self, v, tid):
        """a concrete Python value: int, bool, tuple, ('enum', variant, fields), bytes"""
        e = self.e
        if tm.is_scalar(v) or tm.is_boolv(v):
            return self.ev(v)
        return v

    def layout(self, v, tid):
        """the bytes of a value in memory"""
        e = self.e
        t = e.tys[tid]
        n = t.get("size", 0)
        if n == 0:
            return b""
        if v is U:
            return bytes(n)
        if e.prog.is_pubkey(t) or e.prog.is_opaque_int(t):
            return int(self.ev(v)).to_bytes(n, "little")
        k = t["k"]
        if k in ("uint", "int"):
            return int(self.ev(v)).to_bytes(n, "little", signed=(k == "int"))
        if k == "bool":
            return bytes([1 if self.ev(v) else 0])
        if type(v) is PB:
            return int(self.ev(v.v)).to_bytes(n, "little")
        if type(v) is BA:
            return bytes(v.b)
        if k == "array":
            return b"".join(self.layout(x, t["elem"]) for x in e.elems(v))
        er = e.erase(tid)
        fs = e.fields_of(tid)
        off = t.get("off") or [0] * len(fs)
        out = bytearray(n)
        if k == "adt" and t["kind"] == "enum":
            d = self.ev(v.v)
            tg = t.get("tag")
            if tg and tg["enc"] == "direct" and all(not vr["f"] for vr in t["vars"]):
                return (t["vars"][d]["d"] & ((1 << 8 * n) - 1)).to_bytes(n, "little")
            raise NoValue("layout of " + t["str"])
        for i, f in enumerate(fs):
            sz = e.size(f)
            if not sz:
                continue
            x = v if er == i else (None if er is not None else e.get1(v, i))
            if x is None:
                continue
            out[off[i]:off[i] + sz] = self.layout(x, f)
        return bytes(out)

    def borsh(self, v, tid):
        e = self.e
        t = e.tys[tid]
        if e.prog.is_pubkey(t):
            return int(self.ev(v)).to_bytes(32, "little")
        k = t["k"]
        if k in ("uint", "int"):
            return int(self.ev(v)).to_bytes(t["bits"] // 8, "little", signed=(k == "int"))
        if k == "bool":
            return bytes([1 if self.ev(v) else 0])
        if k == "array":
            if type(v) is BA:
                return bytes(v.b)
            if type(v) is PB:
                return int(self.ev(v.v)).to_bytes(v.n, "little")
            return b"".join(self.borsh(x, t["elem"]) for x in e.elems(v))
        if k in ("ref", "ptr"):
            return self.borsh(e.load(v), t["to"])
        if k == "adt" and t["name"].endswith("::String"):
            s = self.string(v)
            return len(s).to_bytes(4, "little") + s
        if k == "adt" and t["name"].endswith("::Vec"):
            from .ix import vec_items
            items = vec_items(e, v, tid)
            et = next(x for x in t["args"] if isinstance(x, int))
            return len(items).to_bytes(4, "little") + b"".join(self.borsh(x, et) for x in items)
        if k == "adt" and t["kind"] == "enum":
            d = self.ev(v.v)
            vr = t["vars"][d]
            if t["name"].endswith("::Option"):
                return bytes([d]) + (self.borsh(v.pl[1][0], vr["f"][0][1]) if d else b"")
            return bytes([d]) + b"".join(self.borsh(x, f[1]) for x, f in zip(v.pl.get(d, ()), vr["f"]))
        er = e.erase(tid)
        fs = e.fields_of(tid)
        out = b""
        for i, f in enumerate(fs):
            if er is not None:
                if er == i:
                    out += self.borsh(v, f)
            else:
                out += self.borsh(e.get1(v, i), f)
        return out

    def string(self, v):
        if type(v) is Opq and v.tag == "string":
            if isinstance(v.data, bytes):
                return v.data
            if v.data:
                n = self.env.get("%s.len" % v.data, 0)
                return b"s" * min(n, 64)
            return b""
        if type(v) is Opq and v.tag == "str":
            return v.data
        raise NoValue("string %r" % (v,))
