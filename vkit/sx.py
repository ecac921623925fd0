"""Symbolic executor for dumped MIR.

Executes the compiler's own monomorphic MIR of the program (and of the library code it calls) with symbolic
inputs. Machine integers are mathematical integers with explicit range decisions; every branch, overflow, wrap
and index decision is made by `decide`, which keeps each side that is feasible under the path condition.
"""
import re
import sys
import time

import z3

from . import terms as tm
from .terms import T, add, sub, cmp, ite, b_and, b_not, b_or, ex, bx

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Panic(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Dead(Exception):
    """the path is infeasible"""


class Limit(Exception):
    pass


class _U:
    __slots__ = ()

    def __repr__(self):
        return "U"


U = _U()


class S:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return "S(%s)" % ", ".join(map(repr, self.f[:8]))


class E:
    """enum value: variant index (int or T) and payloads per variant"""
    __slots__ = ("v", "pl")

    def __init__(self, v, pl=None):
        self.v = v
        self.pl = pl or {}

    def __repr__(self):
        return "E(%r%s)" % (self.v, ", %r" % (self.pl,) if self.pl else "")


class P:
    __slots__ = ("base", "path", "meta", "ty")

    def __init__(self, base, path=(), meta=None, ty=None):
        self.base = base
        self.path = path
        self.meta = meta
        self.ty = ty

    def __repr__(self):
        return "P(%r,%r%s)" % (self.base, self.path, "" if self.meta is None else ",%r" % (self.meta,))


class F:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return "F(%d)" % self.id


class PB:
    """n bytes packed in one little-endian integer"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v = v
        self.n = n

    def __repr__(self):
        return "PB(%r,%d)" % (self.v, self.n)


class BA:
    """constant bytes"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "BA(%r)" % (self.b[:40],)


class Opq:
    """opaque value: strings, messages and the like, never inspected"""
    __slots__ = ("tag", "data")

    def __init__(self, tag, data=None):
        self.tag = tag
        self.data = data

    def __repr__(self):
        return "<%s>" % self.tag


UNIT = S(())
NOHOOK = object()


class TailCall:
    """returned by a hook: call fn(args) instead, then post(value)"""
    __slots__ = ("fn", "args", "post")

    def __init__(self, fn, args, post=None):
        self.fn = fn
        self.args = args
        self.post = post


class Frame:
    __slots__ = ("fn", "uid", "bb", "si", "dest", "target", "post")

    def __init__(self, fn, uid, dest, target, post=None):
        self.fn = fn
        self.uid = uid
        self.bb = 0
        self.si = 0
        self.dest = dest
        self.target = target
        self.post = post

    def clone(self):
        f = Frame(self.fn, self.uid, self.dest, self.target, self.post)
        f.bb = self.bb
        f.si = self.si
        return f


class St:
    def __init__(self):
        self.mem = {}
        self.mty = {}
        self.frames = []
        self.pc = []
        self.dec = []
        self.dpos = 0
        self.journal = []
        self.events = []
        self.model = None
        self.uid = 0
        self.steps = 0
        self.info = {}
        self.notes = []

    def clone(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.mty = dict(self.mty)
        s.frames = [f.clone() for f in self.frames]
        s.pc = list(self.pc)
        s.dec = list(self.dec)
        s.dpos = 0
        s.journal = []
        s.events = list(self.events)
        s.model = self.model
        s.uid = self.uid
        s.steps = self.steps
        s.info = dict(self.info)
        s.notes = list(self.notes)
        return s

    def setmem(self, base, val):
        self.journal.append((base, self.mem.get(base, None)))
        self.mem[base] = val

    def rollback(self):
        for base, v in reversed(self.journal):
            if v is None:
                self.mem.pop(base, None)
            else:
                self.mem[base] = v
        self.journal.clear()


class End:
    """a finished path"""
    __slots__ = ("kind", "value", "st", "why")

    def __init__(self, kind, value, st, why=None):
        self.kind = kind      # ret | panic
        self.value = value
        self.st = st
        self.why = why

    def __repr__(self):
        return "End(%s,%r,%s)" % (self.kind, self.value, self.why)


def strip_generics(n):
    """the name without trailing generic arguments"""
    while n.endswith(">"):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            if n[i] == ">" and n[i - 1] != "-":
                d += 1
            elif n[i] == "<":
                d -= 1
                if d == 0:
                    break
        if i >= 2 and n[i - 2:i] == "::":
            n = n[:i - 2]
        else:
            break
    return n


def bits_range(t):
    if t["k"] == "uint":
        return 0, (1 << t["bits"]) - 1
    if t["k"] == "int":
        return -(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1
    if t["k"] == "char":
        return 0, 0x10ffff
    return None


class Engine:
    def __init__(self, prog, hooks=(), max_steps=400000, max_paths=20000, feas_ms=2000):
        self.prog = prog
        self.tys = prog.tys
        self.N = tm.Names()
        self.hooks = list(hooks)
        if not hasattr(prog, "globals"):
            prog.globals, prog.gty = {}, {}
        self.globals = prog.globals
        self.gty = prog.gty
        self._erase = {}
        self.assumed = {}
        self._norm = {}
        self._hookc = {}
        self.max_steps = max_steps
        self.max_paths = max_paths
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_ms)
        self.sstack = []          # list of (cond, set of var names whose facts were added)
        self.sfacts = set()
        self.base_pc = []
        self.encoded = {}         # function name -> executions
        self.nsteps = 0
        self.npaths = 0
        self.nfeas = 0
        self.tfeas = 0.0
        self.unknown_feas = 0
        self.st = None
        self.trace = False
        self.soft = False         # an unsupported construct ends its path, not the run
        self.uf = {}

    # ------------------------------------------------------------------ types
    def fields_of(self, tid, variant=0):
        """field types of a struct/tuple/closure (or of one enum variant)"""
        t = self.tys[tid]
        if t["k"] == "adt":
            if variant >= len(t["vars"]):
                return []
            return [f[1] for f in t["vars"][variant]["f"]]
        if t["k"] in ("tuple", "closure"):
            return t["fields"]
        return None

    def is_leaf(self, t):
        return self.prog.is_opaque_int(t) or self.prog.is_pubkey(t)

    def size(self, tid):
        return self.tys[tid].get("size", -1)

    def erase(self, tid):
        """index of the only sized field when the type is a newtype of that field's size, else None"""
        r = self._erase.get(tid, -2)
        if r != -2:
            return r
        t = self.tys[tid]
        r = None
        self._erase[tid] = None
        if (t["k"] == "adt" and t["kind"] in ("struct", "union") and not self.is_leaf(t)) or t["k"] in ("tuple", "closure"):
            fs = self.fields_of(tid)
            nz = [i for i, f in enumerate(fs) if self.size(f) != 0]
            if len(nz) == 1 and self.size(fs[nz[0]]) == t.get("size", -2) and t.get("size", -2) > 0:
                r = nz[0]
            elif len(nz) == 1 and t.get("size") == -1 and len(fs) == 1:
                r = nz[0]
        self._erase[tid] = r
        return r

    def core(self, tid):
        """the type whose values represent values of tid"""
        while True:
            t = self.tys[tid]
            if t["k"] == "pat":
                tid = t["of"]
                continue
            i = self.erase(tid)
            if i is None:
                return tid
            tid = self.fields_of(tid)[i]

    def norm(self, tid, d=0):
        r = self._norm.get(tid)
        if r is not None:
            return r
        tid0 = tid
        tid = self.core(tid)
        t = self.tys[tid]
        k = t["k"]
        if k in ("uint", "int"):
            r = (k, t["bits"])
        elif k in ("ptr", "ref"):
            r = ("p",)
        elif k == "array":
            r = ("a", t["len"], self.norm(t["elem"], d + 1))
        elif k in ("slice",):
            r = ("sl", self.norm(t["elem"], d + 1))
        elif k == "adt":
            if d > 8:
                r = ("adt", t["name"])
            else:
                r = ("adt", t["name"], tuple(self.norm(a, d + 1) if isinstance(a, int) else str(a) for a in t["args"]))
        elif k in ("tuple",):
            r = ("t",) + tuple(self.norm(f, d + 1) for f in t["fields"])
        elif k == "closure":
            r = ("clo", t["name"], tid)
        else:
            r = (k, t.get("str"))
        if d == 0:
            self._norm[tid0] = r
        return r

    def range_of(self, tid):
        return bits_range(self.tys[self.core(tid)])

    def zval(self, tid):
        """the value of a zero-sized type"""
        t = self.tys[tid]
        if t["k"] == "fndef":
            return F(t["fn"]) if t["fn"] is not None else UNIT
        if t["k"] == "array":
            return S(tuple(self.zval(t["elem"]) for _ in range(t["len"])))
        fs = self.fields_of(tid)
        if fs is None:
            return UNIT
        if t["k"] == "adt" and t["kind"] == "enum":
            return E(t.get("single", 0), {})
        return S(tuple(self.zval(f) for f in fs))

    # ------------------------------------------------------------------ symbolic values
    def fresh_of(self, tid, name):
        """an arbitrary value of the type, with named variables"""
        t = self.tys[tid]
        if self.prog.is_pubkey(t):
            self.N.kind[name] = "key"
            return self.N.named(name, 0, (1 << 256) - 1)
        if self.prog.is_opaque_int(t):
            return self.N.named(name, 0, (1 << t["args"][0]["c"]) - 1)
        if t["k"] == "pat":
            return self.fresh_of(t["of"], name)
        if t["k"] in ("uint", "int", "char"):
            lo, hi = bits_range(t)
            return self.N.named(name, lo, hi)
        if t["k"] == "bool":
            return z3.Bool(name)
        if t.get("size") == 0:
            return self.zval(tid)
        if t["k"] == "adt" and t["name"].endswith("::String"):
            return Opq("string", name)
        e = self.erase(tid)
        if e is not None:
            fn = ""
            if t["k"] == "adt":
                fn = ""
            return self.fresh_of(self.fields_of(tid)[e], name + fn)
        if t["k"] == "array":
            return S(tuple(self.fresh_of(t["elem"], "%s[%d]" % (name, i)) for i in range(t["len"])))
        if t["k"] in ("tuple", "closure"):
            return S(tuple(self.fresh_of(f, "%s.%d" % (name, i)) for i, f in enumerate(t["fields"])))
        if t["k"] == "adt" and t["kind"] == "struct":
            return S(tuple(self.fresh_of(f[1], "%s.%s" % (name, f[0])) for f in t["vars"][0]["f"]))
        if t["k"] == "adt" and t["kind"] == "enum":
            n = len(t["vars"])
            v = self.N.named(name + ".tag", 0, n - 1)
            pl = {}
            for i, vr in enumerate(t["vars"]):
                if vr["f"]:
                    pl[i] = tuple(self.fresh_of(f[1], "%s.%s.%s" % (name, vr["n"], f[0])) for f in vr["f"])
            return E(v, pl)
        raise Unsupported("arbitrary value of type " + t.get("str", "?"))

    def decode(self, tid, b, rel, off=0):
        """constant bytes -> value"""
        t = self.tys[tid]
        size = t.get("size", -1)
        if size == 0:
            return self.zval(tid)
        if self.prog.is_pubkey(t) or self.prog.is_opaque_int(t):
            return int.from_bytes(bytes.fromhex(b[2 * off:2 * (off + size)]), "little")
        k = t["k"]
        if k == "pat":
            return self.decode(t["of"], b, rel, off)
        if k in ("uint", "int", "char"):
            h = b[2 * off:2 * (off + size)]
            if "x" in h:
                return U
            if off in rel and size == 8:
                return self.global_ptr(rel[off], None)
            return int.from_bytes(bytes.fromhex(h), "little", signed=(k == "int"))
        if k == "bool":
            h = b[2 * off:2 * off + 2]
            return U if "x" in h else int(h, 16) != 0
        if k in ("ptr", "ref", "fnptr"):
            h = b[2 * off:2 * (off + 8)]
            if "x" in h:
                return U
            addr = int.from_bytes(bytes.fromhex(h), "little")
            to = t.get("to")
            meta = None
            if size == 16:
                h2 = b[2 * (off + 8):2 * (off + 16)]
                tail = self.tail(to)
                if self.tys[tail]["k"] == "dyn":
                    al = self.prog.als[rel[off + 8]]
                    meta = ("vt", al["vt"], tail)
                else:
                    meta = int.from_bytes(bytes.fromhex(h2), "little")
            if off in rel:
                return self.global_ptr(rel[off], to, meta, addr)
            return P(None, (addr,), meta, to)
        if k == "array":
            st = t["stride"] if "stride" in t else (size // max(t["len"], 1))
            if self.tys[t["elem"]]["k"] == "uint" and self.tys[t["elem"]]["bits"] == 8:
                h = b[2 * off:2 * (off + size)]
                if "x" not in h:
                    return BA(bytes.fromhex(h))
            return S(tuple(self.decode(t["elem"], b, rel, off + i * st) for i in range(t["len"])))
        e = self.erase(tid)
        fs = self.fields_of(tid)
        if e is not None:
            o = t.get("off")
            return self.decode(fs[e], b, rel, off + (o[e] if o and e < len(o) else 0))
        if k in ("tuple", "closure") or (k == "adt" and t["kind"] == "struct"):
            return S(tuple(self.decode(f, b, rel, off + t["off"][i]) for i, f in enumerate(fs)))
        if k == "adt" and t["kind"] == "enum":
            if "tag" not in t:
                v = t.get("single", 0)
                offs = t.get("off", [])
                pl = tuple(self.decode(f[1], b, rel, off + offs[i]) for i, f in enumerate(t["vars"][v]["f"]))
                return E(v, {v: pl} if pl else {})
            tg = t["tag"]
            to = t["off"][0]
            raw = b[2 * (off + to):2 * (off + to + tg["size"])]
            if "x" in raw:
                return U
            raw = int.from_bytes(bytes.fromhex(raw), "little")
            if tg["enc"] == "direct":
                mask = (1 << (8 * tg["size"])) - 1
                v = next(i for i, x in enumerate(t["vars"]) if (x["d"] & mask) == raw)
            else:
                un, s, e2, start = tg["enc"]
                if (off + to) in rel:
                    v = un
                else:
                    d = (raw - start) & ((1 << (8 * tg["size"])) - 1)
                    v = s + d if d <= e2 - s else un
            pl = tuple(self.decode(f[1], b, rel, off + tg["voff"][v][i]) for i, f in enumerate(t["vars"][v]["f"]))
            return E(v, {v: pl} if pl else {})
        if k == "adt" and t["kind"] == "union":
            for i, f in enumerate(fs):
                if self.size(f) == size:
                    return self.decode(f, b, rel, off)
        raise Unsupported("constant of type " + t.get("str", "?"))

    def tail(self, tid):
        """the unsized tail of a pointee type"""
        while True:
            t = self.tys[tid]
            if t["k"] in ("dyn", "slice", "str"):
                return tid
            fs = self.fields_of(tid)
            if not fs:
                return tid
            tid = fs[-1]

    def global_ptr(self, aid, to, meta=None, addend=0):
        al = self.prog.als[aid]
        if "fn" in al:
            return F(al["fn"])
        if "vt" in al:
            return Opq("vtable", al["vt"])
        if "typeid" in al:
            return Opq("typeid", al["typeid"])
        key = ("g", aid, to)
        if key not in self.globals:
            mem = al.get("mem")
            if mem is None:
                self.globals[key] = U
            else:
                rel = {o: p for o, p in mem["p"]}
                n = len(mem["b"]) // 2
                if to is None:
                    self.globals[key] = Opq("rawconst", mem)
                else:
                    tt = self.tys[to]
                    if tt["k"] == "str" or (tt["k"] == "slice" and self.tys[tt["elem"]].get("size") == 1
                                            and self.tys[tt["elem"]]["k"] == "uint"):
                        self.globals[key] = BA(bytes.fromhex(mem["b"].replace("x", "0")))
                    elif tt["k"] == "slice":
                        sz = self.size(tt["elem"])
                        cnt = meta if isinstance(meta, int) else (n // sz if sz else 0)
                        self.globals[key] = S(tuple(self.decode(tt["elem"], mem["b"], rel, i * sz) for i in range(cnt)))
                    elif tt.get("size", -1) >= 0:
                        try:
                            self.globals[key] = self.decode(to, mem["b"], rel, addend) if n >= tt["size"] + addend else Opq("rawconst", mem)
                        except Unsupported:
                            self.globals[key] = Opq("rawconst", mem)
                    else:
                        self.globals[key] = Opq("rawconst", mem)
            self.gty[key] = to
        path = ()
        ety = to
        if to is not None and self.tys[to]["k"] in ("slice", "str"):
            path = (("i", addend),)
            ety = self.tys[to].get("elem", self.prog.prim.get("u8"))
        return P(key, path, meta, ety)

    # ------------------------------------------------------------------ memory
    def getpath(self, v, path):
        for e in path:
            v = self.get1(v, e)
        return v

    def get1(self, v, e):
        if type(e) is int:
            if type(v) is S:
                return v.f[e] if e < len(v.f) else U
            if v is U:
                return U
            if type(v) is Opq:
                return Opq(v.tag + ".f")
            raise Unsupported("field %d of %r" % (e, v))
        k = e[0]
        if k == "i":
            i = e[1]
            if type(v) is S:
                if isinstance(i, int):
                    return v.f[i] if 0 <= i < len(v.f) else U
                return self.select(v.f, i)
            if type(v) is PB:
                if not isinstance(i, int):
                    raise Unsupported("symbolic index into packed bytes")
                if isinstance(v.v, int):
                    return (v.v >> (8 * i)) & 255
                q, _ = self.N.divmod(v.v, 1 << (8 * i))
                return self.N.divmod(q, 256)[1]
            if type(v) is BA:
                if not isinstance(i, int):
                    raise Unsupported("symbolic index into constant bytes")
                return v.b[i]
            if v is U:
                return U
            raise Unsupported("index %r of %r" % (i, v))
        if k == "vf":
            if type(v) is E:
                pl = v.pl.get(e[1])
                return U if pl is None or e[2] >= len(pl) else pl[e[2]]
            if v is U:
                return U
            if type(v) is Opq:
                return Opq(v.tag + ".vf")
            raise Unsupported("variant field of %r" % (v,))
        if k == "w":
            a = self.elems(v)
            return S(tuple(a[e[1]:e[1] + e[2]]))
        if k == "z":
            return self.zval(e[1])
        if k == "b":
            if type(v) in (PB, BA, S):
                return v
            return PB(v, e[1])
        if k == "bv":          # array of bytes read as an integer
            return self.bytes_to_int(v)
        raise Unsupported("path element %r" % (e,))

    def elems(self, v):
        if type(v) is S:
            return v.f
        if type(v) is BA:
            return tuple(v.b)
        if type(v) is PB:
            return tuple(self.get1(v, ("i", i)) for i in range(v.n))
        raise Unsupported("elements of %r" % (v,))

    def select(self, items, i):
        lo, hi = tm.rng(i)
        lo = max(lo or 0, 0)
        hi = min(len(items) - 1, hi if hi is not None else len(items) - 1)
        r = items[hi]
        for j in range(hi - 1, lo - 1, -1):
            r = self.merge(cmp("Eq", i, j), items[j], r)
        return r

    def merge(self, c, a, b):
        if a is b:
            return a
        if isinstance(c, bool):
            return a if c else b
        if tm.is_boolv(a) and tm.is_boolv(b):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            return z3.If(c, bx(a), bx(b))
        if tm.is_scalar(a) and tm.is_scalar(b):
            return ite(c, a, b)
        if type(a) is S and type(b) is S and len(a.f) == len(b.f):
            return S(tuple(self.merge(c, x, y) for x, y in zip(a.f, b.f)))
        if type(a) is E and type(b) is E:
            pl = dict(a.pl)
            for k, y in b.pl.items():
                pl[k] = tuple(self.merge(c, p, q) for p, q in zip(pl[k], y)) if k in pl else y
            return E(ite(c, a.v, b.v), pl)
        if type(a) in (PB, BA) or type(b) in (PB, BA):
            if type(a) is PB and type(b) is PB and a.n == b.n:
                return PB(ite(c, a.v, b.v), a.n)
            return self.merge(c, S(self.elems(a)), S(self.elems(b)))
        if a is U or b is U:
            return b if a is U else a
        if type(a) is P and type(b) is P and a.base == b.base and a.path == b.path:
            return a
        raise Unsupported("merge of %r and %r" % (a, b))

    def setpath(self, v, path, x):
        if not path:
            return x
        e = path[0]
        rest = path[1:]
        if type(e) is int:
            if type(v) is not S:
                if v is not U:
                    raise Unsupported("write field %d of %r" % (e, v))
                v = S(())
            f = list(v.f)
            while len(f) <= e:
                f.append(U)
            f[e] = self.setpath(f[e], rest, x)
            return S(tuple(f))
        k = e[0]
        if k == "i":
            i = e[1]
            if type(v) in (BA, PB):
                v = S(self.elems(v))
            if v is U:
                v = S(())
            f = list(v.f)
            if isinstance(i, int):
                while len(f) <= i:
                    f.append(U)
                f[i] = self.setpath(f[i], rest, x)
            else:
                lo, hi = tm.rng(i)
                for j in range(max(lo or 0, 0), min(len(f) - 1, hi if hi is not None else len(f) - 1) + 1):
                    f[j] = self.merge(cmp("Eq", i, j), self.setpath(f[j], rest, x), f[j])
            return S(tuple(f))
        if k == "vf":
            if type(v) is not E:
                v = E(e[1])
            pl = dict(v.pl)
            cur = list(pl.get(e[1], ()))
            while len(cur) <= e[2]:
                cur.append(U)
            cur[e[2]] = self.setpath(cur[e[2]], rest, x)
            pl[e[1]] = tuple(cur)
            return E(v.v, pl)
        if k == "w":
            f = list(self.elems(v)) if v is not U else []
            while len(f) < e[1] + e[2]:
                f.append(U)
            part = self.setpath(S(tuple(f[e[1]:e[1] + e[2]])), rest, x)
            f[e[1]:e[1] + e[2]] = list(self.elems(part))
            return S(tuple(f))
        if k == "z":
            return v
        if k == "b":
            cur = PB(v, e[1]) if tm.is_scalar(v) else v
            return self.bytes_to_int(self.setpath(cur, rest, x))
        if k == "bv":
            return PB(x, e[1])
        raise Unsupported("path element %r" % (e,))

    def bytes_to_int(self, v):
        if tm.is_scalar(v):
            return v
        if type(v) is PB:
            return v.v
        if type(v) is BA:
            return int.from_bytes(v.b, "little")
        if type(v) is S:
            r = 0
            for i, b in enumerate(v.f):
                if b is U:
                    raise Unsupported("uninitialised byte")
                r = add(r, self.N.mul(b, 1 << (8 * i)))
            return r
        raise Unsupported("bytes %r as an integer" % (v,))

    def mem_get(self, base):
        if type(base) is tuple and base[0] == "g":
            v = self.st.mem.get(base)
            return self.globals[base] if v is None else v
        v = self.st.mem.get(base)
        return U if v is None else v

    def load(self, p, ty=None):
        if type(p) is not P:
            if type(p) is Opq:
                return Opq("*" + p.tag)
            raise Unsupported("load through %r" % (p,))
        if p.base is None:
            if ty is not None and self.size(ty) == 0:
                return self.zval(ty)
            raise Unsupported("load through dangling pointer")
        path = p.path if ty is None else self.adapt(p, ty)
        return self.getpath(self.mem_get(p.base), path)

    def store(self, p, v, ty=None):
        if type(p) is not P or p.base is None:
            if ty is not None and self.size(ty) == 0:
                return
            raise Unsupported("store through %r" % (p,))
        path = p.path if ty is None else self.adapt(p, ty)
        self.st.setmem(p.base, self.setpath(self.mem_get(p.base), path, v))

    def new_heap(self, v, ty=None):
        self.st.uid += 1
        b = ("h", self.st.uid)
        self.st.setmem(b, v)
        return P(b, (), None, ty)

    def adapt(self, p, want):
        """path at which a value of type want is seen through p"""
        have = p.ty
        if have is None or have == want:
            return p.path
        nh, nw = self.norm(have), self.norm(want)
        if nh == nw:
            return p.path
        # descend into the first field
        cur, path = self.core(have), p.path
        for _ in range(8):
            t = self.tys[cur]
            if t["k"] == "array":
                path = path + (("i", 0),)
                cur = self.core(t["elem"])
            elif t["k"] == "slice":
                cur = self.core(t["elem"])
            elif (t["k"] in ("tuple", "closure") or (t["k"] == "adt" and t["kind"] == "struct")) and not self.is_leaf(t):
                fs = self.fields_of(cur)
                o = t.get("off") or []
                z = [i for i, f in enumerate(fs) if i < len(o) and o[i] == 0 and self.size(f) != 0]
                if not z:
                    break
                path = path + (z[0],)
                cur = self.core(fs[z[0]])
            else:
                break
            if self.norm(cur) == nw:
                return path
        tw = self.tys[self.core(want)]
        th = self.tys[self.core(have)]
        if self.is_leaf(tw) and self.prog.is_pubkey(tw):
            if nh == ("a", 32, ("uint", 8)):
                return p.path + (("bv", 32),)
            if nh == ("uint", 8) and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
                return p.path[:-1] + (("w", p.path[-1][1], 32), ("bv", 32))
        if self.prog.is_pubkey(th) and nw in (("a", 32, ("uint", 8)),):
            return p.path + (("b", 32),)
        if self.prog.is_pubkey(th) and nw == ("uint", 8):
            return p.path + (("b", 32), ("i", 0))
        if tw["k"] == "array" and nw[2] == nh and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
            return p.path[:-1] + (("w", p.path[-1][1], tw["len"]),)
        if tw["k"] in ("slice", "str", "dyn"):
            return p.path
        if th["k"] == "dyn":
            return p.path
        # a union or an enum payload seen through the wrapper
        if nh[0] in ("uint", "int") and nw[0] in ("uint", "int") and nh[1] == nw[1]:
            return p.path
        if "MaybeUninit" in (self.tys[have].get("str") or "") or "MaybeUninit" in (self.tys[want].get("str") or ""):
            return p.path
        raise Unsupported("pointer to %s used as %s" % (self.tys[have]["str"], self.tys[want]["str"]))

    # ------------------------------------------------------------------ places
    def resolve(self, fr, pl):
        """place -> (base, path, ty, meta): meta is the pointer metadata when the place is unsized"""
        loc, proj = pl
        base, path, ty, meta = (fr.uid, loc), (), fr.fn.locals[loc], None
        pend = None
        for e in proj:
            k = e[0]
            if k == "d":
                v = self.getpath(self.mem_get(base), path)
                t = self.tys[self.core(ty)]
                if t["k"] not in ("ref", "ptr"):
                    raise Unsupported("dereference of type " + t.get("str", "?"))
                to = t["to"]
                if type(v) is not P:
                    if type(v) is Opq:
                        base = ("o",)
                        self.st.mem[base] = Opq("*" + v.tag)
                        path, ty, meta = (), to, None
                        continue
                    raise Unsupported("dereference of %r (%s)" % (v, t.get("str")))
                if v.base is None:
                    if self.size(to) == 0:
                        self.st.mem[("zst",)] = self.zval(to)
                        base, path, ty, meta = ("zst",), (), to, None
                        continue
                    if self.tys[to]["k"] in ("slice", "str") and v.meta == 0:
                        self.st.mem[("empty",)] = S(())
                        base, path, ty, meta = ("empty",), (("i", 0),), to, 0
                        continue
                    raise Unsupported("dereference of dangling %r" % (v,))
                base, meta = v.base, v.meta
                path = self.adapt(v, to)
                ty = to
            elif k == "f":
                if pend is not None:
                    path = path + (("vf", pend, e[1]),)
                    ty = e[2]
                    pend = None
                    continue
                t = self.tys[ty]
                if self.prog.is_pubkey(t):
                    path = path + (("b", 32),)
                elif self.erase(ty) is not None:
                    if e[1] != self.erase(ty):
                        path = path + (("z", e[2]),)
                elif t["k"] == "adt" and t["kind"] == "union":
                    if self.size(e[2]) == 0:
                        path = path + (("z", e[2]),)
                elif self.prog.is_opaque_int(t):
                    raise Unsupported("limbs of a wide integer")
                else:
                    path = path + (e[1],)
                ty = e[2]
            elif k == "v":
                pend = e[1]
            elif k == "i" or k == "c" or k == "s":
                t = self.tys[self.core(ty)]
                if t["k"] == "array":
                    start, n = 0, t["len"]
                    pre = path
                else:
                    n = meta
                    if path and isinstance(path[-1], tuple) and path[-1][0] == "i":
                        start = path[-1][1]
                        pre = path[:-1]
                    else:
                        start, pre = 0, path
                if k == "i":
                    idx = self.getpath(self.mem_get((fr.uid, e[1])), ())
                elif k == "c":
                    idx = sub(n, e[1]) if e[3] else e[1]
                else:
                    if t["k"] == "array":
                        to_ = n - e[2] if e[3] else e[2]
                        path = pre + (("w", start + e[1], to_ - e[1]),)
                        continue
                    path = pre + (("i", add(start, e[1])),)
                    meta = sub(sub(n, e[2]), e[1]) if e[3] else sub(e[2], e[1])
                    continue
                path = pre + (("i", add(start, idx)),)
                ty = t["elem"]
                meta = None
            elif k == "o":
                ty = e[1]
            else:
                raise Unsupported("projection %r" % (e,))
        if pend is not None:
            raise Unsupported("bare downcast")
        return base, path, ty, meta

    def read_place(self, fr, pl):
        if not pl[1]:
            return self.mem_get((fr.uid, pl[0]))
        base, path, ty, meta = self.resolve(fr, pl)
        return self.getpath(self.mem_get(base), path)

    def write_place(self, fr, pl, v):
        if not pl[1]:
            self.st.setmem((fr.uid, pl[0]), v)
            return
        base, path, ty, meta = self.resolve(fr, pl)
        self.st.setmem(base, self.setpath(self.mem_get(base), path, v))

    def place_ty(self, fr, pl):
        if not pl[1]:
            return fr.fn.locals[pl[0]]
        return self.resolve(fr, pl)[2]

    # ------------------------------------------------------------------ operands
    def const(self, c):
        if "_v" in c:
            return c["_v"]
        t = self.tys[c["ty"]]
        if "fn" in c:
            v = F(c["fn"]) if c["fn"] is not None else UNIT
        elif "z" in c:
            v = self.zval(c["ty"])
        elif "v" in c:
            v = bool(c["v"]) if t["k"] == "bool" else c["v"]
        elif "a" in c:
            v = self.decode(c["ty"], c["a"]["b"], {o: p for o, p in c["a"]["p"]})
        else:
            raise Unsupported("constant %r" % (c.get("u"),))
        c["_v"] = v
        return v

    def operand(self, fr, o):
        k = o[0]
        if k == "cp" or k == "mv":
            return self.read_place(fr, o[1])
        if k == "k":
            return self.const(o[1])
        if k == "rc":
            return o[1] == "OverflowChecks"
        raise Unsupported("operand %r" % (o,))

    # ------------------------------------------------------------------ decisions
    def _sync(self, st):
        """bring the incremental solver to the state's path condition"""
        pc = st.pc
        i = 0
        while i < len(pc) and i < len(self.sstack) and self.sstack[i][0] is pc[i]:
            i += 1
        while len(self.sstack) > i:
            _, names = self.sstack.pop()
            self.sfacts -= names
            self.solver.pop()
        while i < len(pc):
            self.solver.push()
            self.sstack.append((pc[i], self._assert(pc[i])))
            i += 1

    def _assert(self, c):
        new = set()
        todo = [c]
        self.solver.add(c)
        while todo:
            x = todo.pop()
            for v in self.N.vars_of(x):
                if v in self.sfacts:
                    continue
                self.sfacts.add(v)
                new.add(v)
                for f in self.N.facts.get(v, ()):
                    self.solver.add(f)
                    todo.append(f)
        return new

    def feasible(self, st, c):
        """may pc and c hold together (linear facts only; unknown counts as yes); also a model, if there is one"""
        self._sync(st)
        if st.model is not None and self.N.vars_of(c) <= self.sfacts:
            if z3.is_true(st.model.eval(c, model_completion=True)):
                return True, st.model
        t0 = time.time()
        self.solver.push()
        new = self._assert(c)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.sfacts -= new
        self.nfeas += 1
        self.tfeas += time.time() - t0
        if r == z3.unknown:
            self.unknown_feas += 1
        return r != z3.unsat, m

    def decide(self, c):
        if isinstance(c, bool):
            return c
        st = self.st
        if st.dpos < len(st.dec):
            r = st.dec[st.dpos]
            st.dpos += 1
            return r
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        nc = z3.Not(c)
        t, mt = self.feasible(st, c)
        f, mf = self.feasible(st, nc)
        if t and f:
            e = Fork(c)
            e.mt, e.mf = mt, mf
            raise e
        if not t and not f:
            raise Dead()
        st.dec.append(t)
        st.dpos += 1
        if (mt or mf) is not None:
            st.model = mt or mf
        return t

    def assume(self, st, c):
        if isinstance(c, bool):
            if not c:
                raise Dead()
            return
        self.assumed[c.get_id()] = c
        st.pc.append(c)

    # ------------------------------------------------------------------ arithmetic
    def clip(self, x, lo, hi):
        if isinstance(x, int):
            return x
        l = lo if x.lo is None or x.lo < lo else x.lo
        h = hi if x.hi is None or x.hi > hi else x.hi
        return T(x.e, l, h)

    def in_range(self, x, lo, hi):
        return b_and(cmp("Ge", x, lo), cmp("Le", x, hi))

    def exact(self, op, a, b):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return self.N.mul(a, b)
        raise Unsupported(op)

    def wrapped(self, x, lo, hi, op):
        """the two's complement result of an out-of-range exact value"""
        m = hi - lo + 1
        if isinstance(x, int):
            return (x - lo) % m + lo
        if op in ("Add", "Sub"):
            up = cmp("Gt", x, hi)
            if self.decide(up):
                return self.clip(sub(x, m), lo, hi)
            return self.clip(add(x, m), lo, hi)
        q, r = self.N.divmod(sub(x, lo), m)
        return self.clip(add(r, lo), lo, hi)

    def arith_wrap(self, op, a, b, lo, hi):
        x = self.exact(op, a, b)
        if self.decide(self.in_range(x, lo, hi)):
            return self.clip(x, lo, hi), False
        return self.wrapped(x, lo, hi, op), True

    def to_bits(self, x, n):
        """the n low bits of x, as 0/1 integers"""
        if isinstance(x, int):
            return [(x >> i) & 1 for i in range(n)]
        k = ("bits", n) + self.N.key(x)
        r = self.N.cse.get(k)
        if r is None:
            r = [self.N.fresh("bit", 0, 1) for _ in range(n)]
            tot = z3.Sum([b.e * (1 << i) for i, b in enumerate(r)])
            link = ex(x) == tot
            for b in r:
                self.N.facts[str(b.e)].append(link)
            for i, b in enumerate(r):
                self.N.origin[str(b.e)] = ("fn", (lambda v, i=i: (v >> i) & 1), (x,))
            self.N.cse[k] = r
        return r

    def bitop(self, op, a, b, bits):
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            if op == "BitAnd":
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    if a.hi is not None and a.hi <= b:
                        return a
                    return self.N.divmod(a, b + 1)[1]
                # contiguous run of ones
                s = (b & -b).bit_length() - 1
                w = b >> s
                if w & (w + 1) == 0:
                    q = self.N.divmod(a, 1 << s)[0]
                    if tm.rng(q)[1] is None or tm.rng(q)[1] > w:
                        q = self.N.divmod(q, w + 1)[1]
                    return self.N.mul(q, 1 << s)
            elif op == "BitOr" and b == 0 or op == "BitXor" and b == 0:
                return a
        n = 1
        for x in (a, b):
            h = tm.rng(x)[1]
            n = max(n, bits if h is None else h.bit_length())
        if n > 16:
            raise Unsupported("symbolic bit operation on %d bits" % n)
        xa, xb = self.to_bits(a, n), self.to_bits(b, n)
        out = 0
        for i in range(n):
            p, q = xa[i], xb[i]
            if op == "BitAnd":
                r = ite(b_and(cmp("Eq", p, 1), cmp("Eq", q, 1)), 1, 0)
            elif op == "BitOr":
                r = ite(b_or(cmp("Eq", p, 1), cmp("Eq", q, 1)), 1, 0)
            else:
                r = ite(cmp("Eq", p, q), 0, 1)
            out = add(out, self.N.mul(r, 1 << i))
        return out

    def shift_amount(self, b, bits):
        if isinstance(b, int):
            return b % bits
        lo, hi = tm.rng(b)
        for k in range(max(lo or 0, 0), (hi if hi is not None else bits) + 1):
            if self.decide(cmp("Eq", b, k)):
                return k % bits
        raise Dead()

    def binop(self, op, a, b, ty, ty2=None):
        if op == "Offset":
            return self.ptr_add(a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b)
        if op == "Cmp":
            if tm.is_boolv(a):
                a, b = self.as_int(a), self.as_int(b)
            if self.decide(cmp("Lt", a, b)):
                return E(0)
            if self.decide(cmp("Eq", a, b)):
                return E(1)
            return E(2)
        if tm.is_boolv(a):
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            if op == "BitXor":
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                return z3.Xor(bx(a), bx(b))
            raise Unsupported("%s on bool" % op)
        if not (tm.is_scalar(a) and tm.is_scalar(b)):
            raise Unsupported("%s on %r, %r" % (op, a, b))
        rg = self.range_of(ty)
        lo, hi = rg
        bits = self.tys[self.core(ty)].get("bits", 32)
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Add", "Sub", "Mul"):
            if op.endswith("Unchecked"):
                return self.clip(self.exact(base, a, b), lo, hi)
            r, o = self.arith_wrap(base, a, b, lo, hi)
            if op.endswith("WithOverflow"):
                return S((r, o))
            return r
        if base in ("Div", "Rem"):
            if self.decide(cmp("Eq", b, 0)):
                raise Panic("div0")
            if lo < 0 and not (tm.rng(a)[0] is not None and tm.rng(a)[0] >= 0 and tm.rng(b)[0] is not None and tm.rng(b)[0] >= 0):
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    q = q if (a < 0) == (b < 0) else -q
                    return q if base == "Div" else a - q * b
                na = self.decide(cmp("Lt", a, 0))
                nb = self.decide(cmp("Lt", b, 0))
                ua, ub = (sub(0, a) if na else a), (sub(0, b) if nb else b)
                q, r = self.N.divmod(T(ex(ua), 0, tm.rng(ua)[1]), T(ex(ub), 1, tm.rng(ub)[1]))
                return (sub(0, q) if na != nb else q) if base == "Div" else (sub(0, r) if na else r)
            bb = b
            if not isinstance(b, int) and (b.lo is None or b.lo < 1):
                bb = T(b.e, 1, b.hi)
            q, r = self.N.divmod(a, bb)
            return q if base == "Div" else r
        if base == "Shl":
            k = self.shift_amount(b, bits)
            x = self.N.mul(a, 1 << k)
            if self.decide(self.in_range(x, lo, hi)):
                return self.clip(x, lo, hi)
            return self.wrapped(x, lo, hi, "Mul")
        if base == "Shr":
            k = self.shift_amount(b, bits)
            if lo < 0 and not (tm.rng(a)[0] is not None and tm.rng(a)[0] >= 0):
                if isinstance(a, int):
                    return a >> k
                raise Unsupported("signed shift")
            return self.N.divmod(a, 1 << k)[0]
        if base in ("BitAnd", "BitOr", "BitXor"):
            if isinstance(a, int) and isinstance(b, int):
                return self.wrapc({"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[base], lo, hi)
            if lo < 0:
                raise Unsupported("signed bit operation")
            return self.clip_t(self.bitop(base, a, b, bits), lo, hi)
        raise Unsupported("binary operator " + op)

    def wrapc(self, x, lo, hi):
        return (x - lo) % (hi - lo + 1) + lo

    def clip_t(self, x, lo, hi):
        return x if isinstance(x, int) else self.clip(x, lo, hi)

    def as_int(self, x):
        if isinstance(x, bool):
            return int(x)
        if tm.is_boolv(x):
            return ite(x, 1, 0)
        return x

    def compare(self, op, a, b):
        if tm.is_scalar(a) and tm.is_scalar(b):
            return cmp(op, a, b)
        if tm.is_boolv(a) and tm.is_boolv(b):
            if op in ("Eq", "Ne"):
                e = tm.b_iff(a, b)
                return e if op == "Eq" else b_not(e)
            return cmp(op, self.as_int(a), self.as_int(b))
        if type(a) is P and type(b) is P:
            return self.ptr_cmp(op, a, b)
        if type(a) is F and type(b) is F:
            return (a.id == b.id) == (op == "Eq")
        if (type(a) is P and tm.is_scalar(b)) or (type(b) is P and tm.is_scalar(a)):
            p, i = (a, b) if type(a) is P else (b, a)
            if p.base is None and isinstance(i, int):
                return (p.path[0] == i) == (op == "Eq")
            if op in ("Eq", "Ne"):
                return op == "Ne"
        if type(a) is E and type(b) is E and op in ("Eq", "Ne") and not a.pl and not b.pl:
            return cmp(op, a.v, b.v)
        if tm.is_scalar(a) and tm.is_boolv(b) or tm.is_scalar(b) and tm.is_boolv(a):
            return cmp(op, self.as_int(a), self.as_int(b))
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))

    def ptr_cmp(self, op, a, b):
        if a.base == b.base:
            pa, pb = a.path, b.path
            if pa == pb and a.base is not None:
                return op in ("Eq", "Le", "Ge")
            # trailing zero index: pointer to array vs pointer to its first element
            def split(p):
                if p and isinstance(p[-1], tuple) and p[-1][0] == "i":
                    return p[:-1], p[-1][1]
                return p, 0
            if a.base is None:
                return cmp(op, pa[0], pb[0])
            (xa, ia), (xb, ib) = split(pa), split(pb)
            if xa == xb:
                return cmp(op, ia, ib)
        if op == "Eq":
            return False
        if op == "Ne":
            return True
        raise Unsupported("pointer order")

    def ptr_add(self, p, n):
        if isinstance(n, int) and n == 0:
            return p
        if type(p) is not P:
            raise Unsupported("pointer arithmetic on %r" % (p,))
        if p.base is None:
            return p
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
            return P(p.base, p.path[:-1] + (("i", add(p.path[-1][1], n)),), p.meta, p.ty)
        if p.ty is not None and self.tys[self.core(p.ty)]["k"] == "array":
            return P(p.base, p.path + (("i", n),), p.meta, self.tys[self.core(p.ty)]["elem"])
        # one past a single object
        return P(p.base, p.path + (("i", n),), p.meta, p.ty)

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, rv, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "bin":
            return self.binop(rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), rv[4], rv[5])
        if k == "chk":
            a, b = self.operand(fr, rv[2]), self.operand(fr, rv[3])
            op = rv[1]
            lo, hi = self.range_of(rv[4])
            if op in ("Shl", "Shr"):
                bits = self.tys[self.core(rv[4])]["bits"]
                o = b_not(self.in_range(b, 0, bits - 1))
                if self.decide(o):
                    return S((self.binop(op, a, b, rv[4]), True))
                return S((self.binop(op, a, b, rv[4]), False))
            r, o = self.arith_wrap(op, a, b, lo, hi)
            return S((r, o))
        if k == "ref" or k == "addr":
            base, path, ty, meta = self.resolve(fr, rv[1])
            t = self.tys[ty]
            if t["k"] == "slice":
                ty = t["elem"]
            return P(base, path, meta, ty)
        if k == "discr":
            v = self.read_place(fr, rv[1])
            pty = self.place_ty(fr, rv[1])
            return self.discr(v, pty, rv[2])
        if k == "cast":
            return self.cast(fr, rv)
        if k == "agg":
            return self.aggregate(fr, rv)
        if k == "un":
            a = self.operand(fr, rv[2])
            if rv[1] == "Not":
                if tm.is_boolv(a):
                    return b_not(a)
                lo, hi = self.range_of(rv[3])
                return self.clip_t(sub(hi + lo, a), lo, hi)
            if rv[1] == "Neg":
                lo, hi = self.range_of(rv[3])
                x = sub(0, a)
                if self.decide(self.in_range(x, lo, hi)):
                    return self.clip_t(x, lo, hi)
                return lo
            if rv[1] == "PtrMetadata":
                return UNIT if a.meta is None else a.meta
            raise Unsupported("unary " + rv[1])
        if k == "len":
            base, path, ty, meta = self.resolve(fr, rv[1])
            t = self.tys[self.core(ty)]
            return t["len"] if t["k"] == "array" else meta
        if k == "rep":
            return S((self.operand(fr, rv[1]),) * rv[2])
        raise Unsupported("rvalue " + k)

    def discr(self, v, ety, dty):
        ety = self.core(ety)
        t = self.tys[ety]
        if t["k"] != "adt" or t["kind"] != "enum":
            return 0
        if v is U:
            raise Unsupported("discriminant of uninitialised " + t["str"])
        if type(v) is Opq:
            raise Unsupported("discriminant of opaque %s" % v.tag)
        if type(v) is not E:
            raise Unsupported("discriminant of %r: %s" % (v, t["str"]))
        ds = [x["d"] for x in t["vars"]]
        rg = self.range_of(dty) if dty is not None and dty >= 0 else None

        def conv(d):
            if rg and d > rg[1]:
                d -= (rg[1] - rg[0] + 1)
            elif rg and rg[0] < 0:
                # narrow negative discriminants are printed in their own width
                sz = (t.get("tag") or {}).get("size")
                if sz and d >= (1 << (8 * sz - 1)):
                    d -= 1 << (8 * sz)
            return d
        if isinstance(v.v, int):
            return conv(ds[v.v])
        if ds == list(range(len(ds))):
            return v.v
        r = conv(ds[-1])
        for i in range(len(ds) - 2, -1, -1):
            r = ite(cmp("Eq", v.v, i), conv(ds[i]), r)
        return r

    def aggregate(self, fr, rv):
        kind, ty, ops = rv[1], rv[2], rv[3]
        vals = [self.operand(fr, o) for o in ops]
        return self.build(kind, ty, vals)

    def build(self, kind, ty, vals):
        k = kind[0]
        if k == "adt":
            t = self.tys[ty]
            if t["kind"] == "enum":
                v = kind[1]
                return E(v, {v: tuple(vals)} if vals else {})
            if t["kind"] == "union":
                return vals[0]
        if k == "arr":
            return S(tuple(vals))
        if k == "ptr":
            p, meta = vals
            if type(p) is not P:
                raise Unsupported("pointer from %r" % (p,))
            if meta is UNIT or type(meta) is S:
                meta = None
            return P(p.base, p.path, meta, p.ty)
        t = self.tys[ty]
        if self.prog.is_pubkey(t):
            return self.bytes_to_int(vals[0])
        if self.prog.is_opaque_int(t):
            # limbs
            return self.limbs_to_int(vals[0])
        e = self.erase(ty)
        if e is not None:
            return vals[e]
        return S(tuple(vals))

    def limbs_to_int(self, v):
        r = 0
        for i, x in enumerate(v.f):
            r = add(r, self.N.mul(x, 1 << (64 * i)))
        return r

    def cast(self, fr, rv):
        kind, o, sty, dty, extra = rv[1], rv[2], rv[3], rv[4], rv[5]
        v = self.operand(fr, o)
        if kind == "IntToInt":
            return self.int_cast(v, dty)
        if kind in ("PtrToPtr", "FnPtrToPtr", "Subtype"):
            if type(v) is P:
                dt = self.tys[self.core(dty)]
                if v.meta is not None and self.size(dty) == 8:
                    return P(v.base, v.path, None, v.ty)
            return v
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(v, sty, dty)
            if extra is not None:
                return F(extra)
            if "ArrayToPointer" in kind and type(v) is P:
                return P(v.base, v.path + (("i", 0),), None, self.tys[self.core(v.ty)].get("elem", v.ty))
            return v
        if kind in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(v, sty, dty)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance", "PointerWithExposedProvenance", "PointerFromExposedAddress"):
            return v
        raise Unsupported("cast " + kind)

    def int_cast(self, v, dty):
        dt = self.tys[self.core(dty)]
        if type(v) is E:
            raise Unsupported("enum cast")
        if tm.is_boolv(v):
            v = self.as_int(v)
        if type(v) is P or type(v) is Opq:
            return v
        if v is U:
            raise Unsupported("cast of uninitialised value")
        if dt["k"] == "bool":
            return cmp("Ne", v, 0)
        lo, hi = bits_range(dt)
        if isinstance(v, int):
            return self.wrapc(v, lo, hi)
        if self.decide(self.in_range(v, lo, hi)):
            return self.clip(v, lo, hi)
        vlo = tm.rng(v)[0]
        if vlo is None or vlo < 0:
            if self.decide(cmp("Lt", v, 0)):
                # negative to unsigned or narrower signed
                if lo == 0:
                    x = add(v, hi + 1)
                    if self.decide(cmp("Ge", x, 0)):
                        return self.clip(x, lo, hi)
                raise Unsupported("narrowing negative cast")
            v = T(v.e, 0, v.hi)
        m = hi - lo + 1
        r = self.N.divmod(v, m)[1]
        if lo < 0:
            if self.decide(cmp("Gt", r, hi)):
                return self.clip(sub(r, m), lo, hi)
        return self.clip_t(r, lo, hi)

    def unsize(self, v, sty, dty):
        if type(v) is not P:
            if type(v) is Opq:
                return v
            raise Unsupported("unsize of %r" % (v,))
        s = self.tys[self.core(sty)]
        d = self.tys[self.core(dty)]
        if s["k"] not in ("ref", "ptr") or d["k"] not in ("ref", "ptr"):
            raise Unsupported("unsize %s -> %s" % (s["str"], d["str"]))
        st, dt = s["to"], d["to"]
        path = v.path
        for _ in range(6):
            ts, td = self.tys[st], self.tys[dt]
            if td["k"] == "slice" and ts["k"] == "array":
                return P(v.base, self.adapt(v, st) + (("i", 0),) if not (v.ty is not None and self.tys[self.core(v.ty)]["k"] != "array" and self.norm(v.ty) == self.norm(ts["elem"])) else v.path, ts["len"], ts["elem"])
            if td["k"] == "dyn":
                if ts["k"] == "dyn":
                    return v
                return P(v.base, v.path, ("vt", st, dt), v.ty)
            if ts["k"] == "adt" and td["k"] == "adt":
                fs, fd = self.fields_of(st), self.fields_of(dt)
                st, dt = fs[-1], fd[-1]
                if len(fs) > 1:
                    # struct with an unsized tail behind the pointer: keep the pointer, remember the metadata
                    ts2, td2 = self.tys[st], self.tys[dt]
                continue
            break
        raise Unsupported("unsize %s -> %s" % (s["str"], d["str"]))

    def transmute(self, v, sty, dty):
        cs, cd = self.core(sty), self.core(dty)
        if cs == cd or self.norm(cs) == self.norm(cd):
            return v
        s, d = self.tys[cs], self.tys[cd]
        if v is U or type(v) is Opq:
            return v
        if type(v) is P or type(v) is F:
            return v
        if s["k"] in ("uint", "int") and d["k"] in ("uint", "int", "char", "bool"):
            return self.int_cast(v, dty)
        if s["k"] in ("bool", "char") and d["k"] in ("uint", "int"):
            return self.int_cast(v, dty)
        if d["k"] in ("uint", "int") and s["k"] == "array":
            x = self.bytes_to_int(v) if self.size(s["elem"]) == 1 else None
            if x is not None:
                return x if d["k"] == "uint" else self.int_cast(x, dty)
        if s["k"] in ("uint", "int") and d["k"] == "array" and self.size(d["elem"]) == 1:
            if s["k"] == "int":
                raise Unsupported("signed to bytes")
            return PB(v, d["len"])
        if self.prog.is_pubkey(s) and d["k"] == "array":
            return PB(v, 32)
        if self.prog.is_pubkey(d) and s["k"] == "array":
            return self.bytes_to_int(v)
        if d["k"] in ("ptr", "ref") and tm.is_scalar(v):
            return P(None, (v,), None, d.get("to"))
        if s["k"] == "adt" and s["kind"] == "enum" and d["k"] in ("ptr", "ref"):
            return P(None, (self.discr(v, cs, -1),), None, d.get("to"))
        if s["k"] == "adt" and s["kind"] == "enum" and d["k"] in ("uint", "int", "bool") and type(v) is E and not v.pl:
            x = self.discr(v, cs, -1)
            return cmp("Ne", x, 0) if d["k"] == "bool" else x
        if d["k"] == "adt" and d["kind"] == "enum" and tm.is_scalar(v):
            ds = [x["d"] for x in d["vars"]]
            if ds == list(range(len(ds))):
                return E(v)
            for i, x in enumerate(ds):
                if self.decide(cmp("Eq", v, x)):
                    return E(i)
            raise Dead()
        if s["k"] == "adt" and s["kind"] == "union" or d["k"] == "adt" and d["kind"] == "union":
            return v
        if s["k"] == "array" and d["k"] == "array" and s["len"] == d["len"]:
            return v
        raise Unsupported("transmute %s -> %s" % (s["str"], d["str"]))

    # ------------------------------------------------------------------ calls
    def untuple(self, v, tys):
        n = len(tys)
        if n == 0:
            return []
        nz = [i for i in range(n) if self.size(tys[i]) != 0]
        if len(nz) == 1:
            # the one-value tuple is represented by its only sized field, if no padding is added
            out = []
            for i in range(n):
                out.append(v if i == nz[0] else self.zval(tys[i]))
            return out
        if type(v) is S and len(v.f) == n:
            return list(v.f)
        return [self.get1(v, i) for i in range(n)]

    def hook_for(self, fn):
        h = self._hookc.get(fn, self)
        if h is not self:
            return h
        r = None
        nm = strip_generics(fn.name)
        for rx, h in self.hooks:
            if rx.search(nm):
                r = h
                break
        self._hookc[fn] = r
        return r

    def call(self, st, fr, fn, args, dest, target, post=None, depth=0):
        """dest: (base, path, ty) in which the result goes"""
        if fn.kind == "virtual":
            p = args[0]
            if type(p) is not P or not (isinstance(p.meta, tuple) and p.meta[0] == "vt"):
                raise Unsupported("virtual call on %r: %s" % (p, fn.name))
            m = None
            for (ty, dyn), ms in self.prog.vts.items():
                if ty == p.meta[1] and (dyn == p.meta[2] or self.tys[dyn].get("str") == self.tys[p.meta[2]].get("str")):
                    if fn.vidx < len(ms) and ms[fn.vidx] is not None:
                        m = ms[fn.vidx]
                        break
            if m is None:
                raise Unsupported("no vtable entry for %s" % fn.name)
            callee = self.prog.fn(m)
            if callee.kind == "virtual":
                raise Unsupported("virtual loop")
            selfp = P(p.base, p.path, None, p.ty if p.ty is not None and self.tys[p.ty]["k"] != "dyn" else p.meta[1])
            return self.call(st, fr, callee, [selfp] + args[1:], dest, target, post, depth + 1)
        h = self.hook_for(fn)
        r = NOHOOK
        if h is not None:
            r = h(self, st, fn, args, dest[2])
        if r is NOHOOK and fn.kind in ("intrinsic", "llvm") and fn.blocks is None:
            i = INTR.get(fn.intr or fn.name.split("::")[-1])
            if i is None:
                raise Unsupported("intrinsic %s" % fn.name)
            r = i(self, st, fn, args, dest[2])
        if type(r) is TailCall:
            callee = r.fn if not isinstance(r.fn, (int, str)) else (self.prog.fn(r.fn) if isinstance(r.fn, int) else self.prog.find(r.fn))
            pst = r.post
            if post is not None and pst is not None:
                p0 = post
                both = lambda e, s, v: p0(e, s, pst(e, s, v))
            else:
                both = pst or post
            return self.call(st, fr, callee, r.args, dest, target, both, depth + 1)
        if r is not NOHOOK:
            if post is not None:
                r = post(self, st, r)
            self.finish(st, fr, dest, target, r)
            return
        if fn.blocks is None:
            v = self.ctor(fn, args, dest[2])
            if v is NOHOOK:
                raise Unsupported("no body for %s" % fn.name)
            if post is not None:
                v = post(self, st, v)
            self.finish(st, fr, dest, target, v)
            return
        if fn.closure and len(args) == 2 and fn.argc >= 1:
            args = [args[0]] + self.untuple(args[1], [fn.locals[i] for i in range(2, fn.argc + 1)])
        if len(args) != fn.argc:
            raise Unsupported("argument count of %s: %d != %d" % (fn.name, len(args), fn.argc))
        self.encoded[fn.name] = self.encoded.get(fn.name, 0) + 1
        st.uid += 1
        nf = Frame(fn, st.uid, dest, target, post)
        for i, a in enumerate(args):
            st.mem[(nf.uid, i + 1)] = a
        if fr is not None:
            fr.si = -1            # waiting for the callee
        st.frames.append(nf)
        if len(st.frames) > 200:
            raise Unsupported("call depth")

    def ctor(self, fn, args, dty):
        t = self.tys[dty]
        if t["k"] == "adt" and fn.kind == "item":
            last = fn.df.split("::")[-1]
            for i, v in enumerate(t["vars"]):
                if v["n"] == last and len(v["f"]) == len(args):
                    return self.build(["adt", i], dty, args)
        return NOHOOK

    def finish(self, st, fr, dest, target, v):
        if target is None:
            raise Unsupported("return from a diverging call")
        st.setmem(dest[0], self.setpath(self.mem_get(dest[0]), dest[1], v))
        fr.bb = target
        fr.si = 0

    # ------------------------------------------------------------------ stepping
    def step(self, st):
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.bb]
        stmts = blk[0]
        if fr.si < len(stmts):
            s = stmts[fr.si]
            k = s[0]
            if k == "=":
                pl = s[1]
                rv = s[2]
                v = self.rvalue(fr, rv, None)
                self.write_place(fr, pl, v)
            elif k == "sd":
                base, path, ty, meta = self.resolve(fr, s[1])
                cur = self.getpath(self.mem_get(base), path)
                e = E(s[2], cur.pl if type(cur) is E else {})
                st.setmem(base, self.setpath(self.mem_get(base), path, e))
            elif k == "cpy":
                src, dst, n = (self.operand(fr, x) for x in s[1:4])
                self.copy_n(src, dst, n)
            else:
                raise Unsupported("statement " + k)
            fr.si += 1
            return None
        t = blk[1]
        k = t[0]
        if k == "goto":
            fr.bb = t[1]
            fr.si = 0
        elif k == "sw":
            v = self.operand(fr, t[1])
            tgt = self.switch(v, t[2], t[3], t[4])
            fr.bb = tgt
            fr.si = 0
        elif k == "call":
            f = t[1]
            if f[0] == "k":
                fid = f[1].get("fn")
                fv = F(fid) if fid is not None else self.const(f[1])
            else:
                pty = self.place_ty(fr, f[1])
                if self.tys[pty]["k"] == "fndef":
                    fv = F(self.tys[pty]["fn"])
                else:
                    fv = self.read_place(fr, f[1])
            if type(fv) is not F:
                raise Unsupported("call of %r" % (fv,))
            fn = self.prog.fn(fv.id)
            args = [self.operand(fr, a) for a in t[2]]
            base, path, ty, meta = self.resolve(fr, t[3])
            self.call(st, fr, fn, args, (base, path, ty), t[4])
        elif k == "ret":
            v = self.mem_get((fr.uid, 0))
            if v is U:
                v = self.zval(fr.fn.locals[0]) if self.size(fr.fn.locals[0]) == 0 else U
            if fr.post is not None:
                v = fr.post(self, st, v)
            if len(st.frames) == 1:
                return End("ret", v, st)
            st.frames.pop()
            caller = st.frames[-1]
            self.finish(st, caller, fr.dest, fr.target, v)
            for i in range(len(fr.fn.locals)):
                st.mem.pop((fr.uid, i), None)
        elif k == "assert":
            c = self.operand(fr, t[1])
            ok = self.decide(c if t[2] else b_not(c))
            if not ok:
                raise Panic(t[3], "%s:%s" % (fr.fn.name, t[5]))
            fr.bb = t[4]
            fr.si = 0
        elif k == "drop":
            self.drop(st, fr, t)
            fr.bb = t[2]
            fr.si = 0
        elif k == "unr":
            raise Dead()
        elif k in ("resume", "abort"):
            raise Panic("resume")
        else:
            raise Unsupported("terminator " + k)
        return None

    def drop(self, st, fr, t):
        pass

    def copy_n(self, src, dst, n):
        if not isinstance(n, int):
            raise Unsupported("copy of symbolic length")
        for i in range(n):
            self.store(self.ptr_add(dst, i), self.load(self.ptr_add(src, i)))

    def switch(self, v, ty, br, other):
        if v is U:
            raise Unsupported("switch on uninitialised value")
        if tm.is_boolv(v):
            for val, bb in br:
                if val == 0:
                    if self.decide(v):
                        nxt = [b for x, b in br if x == 1]
                        return nxt[0] if nxt else other
                    return bb
                if val == 1:
                    if self.decide(v):
                        return bb
            return other
        if type(v) is P and v.base is not None:
            return other
        if type(v) is P:
            v = v.path[0]
        if not tm.is_scalar(v):
            raise Unsupported("switch on %r" % (v,))
        t = self.tys[self.core(ty)]
        rg = bits_range(t)
        for val, bb in br:
            if rg and rg[0] < 0 and val > rg[1]:
                val = (val & ((1 << t["bits"]) - 1))
                if val > rg[1]:
                    val -= 1 << t["bits"]
            if self.decide(cmp("Eq", v, val)):
                return bb
        return other

    def run(self, fn, args, st=None, deadline=None):
        """generator of End, one per path"""
        if isinstance(fn, str):
            fn = self.prog.find(fn)
        st = st or St()
        self.st = st
        st.journal.clear()
        self.call_root(st, fn, args)
        work = [st]
        while work:
            s = work.pop()
            self.st = s
            while True:
                if deadline and time.time() > deadline:
                    raise Limit("time")
                s.journal.clear()
                s.dpos = 0
                fr = s.frames[-1]
                pos = (fr, fr.bb, fr.si, len(s.frames), s.uid, len(s.events), len(s.notes))
                try:
                    r = self.step(s)
                    s.dec.clear() if s.dec else None
                except Fork as f:
                    s.rollback()
                    while len(s.frames) > pos[3]:
                        s.frames.pop()
                    fr.bb, fr.si = pos[1], pos[2]
                    s.uid = pos[4]
                    del s.events[pos[5]:]
                    del s.notes[pos[6]:]
                    s2 = s.clone()
                    s.dec.append(True)
                    s.pc.append(f.cond)
                    s.model = f.mt
                    s2.dec.append(False)
                    s2.pc.append(z3.Not(f.cond))
                    s2.model = f.mf
                    work.append(s2)
                    if len(work) > self.max_paths:
                        raise Limit("paths")
                    continue
                except Dead:
                    break
                except Panic as p:
                    self.npaths += 1
                    yield End("panic", None, s, (p.kind, p.msg, self.where(s)))
                    break
                except Unsupported as u:
                    u.args = ("%s\n    at %s" % (u.args[0], self.where(s)),)
                    if not self.soft:
                        raise
                    self.npaths += 1
                    yield End("unsup", None, s, u.args[0])
                    break
                s.steps += 1
                self.nsteps += 1
                if s.steps > self.max_steps:
                    raise Limit("steps")
                if r is not None:
                    self.npaths += 1
                    if self.npaths > self.max_paths:
                        raise Limit("paths")
                    yield r
                    break

    def call_root(self, st, fn, args):
        if len(args) != fn.argc:
            raise Unsupported("argument count of %s" % fn.name)
        self.encoded[fn.name] = self.encoded.get(fn.name, 0) + 1
        st.uid += 1
        nf = Frame(fn, st.uid, None, None)
        for i, a in enumerate(args):
            st.mem[(nf.uid, i + 1)] = a
        st.frames.append(nf)

    def where(self, s):
        out = []
        for fr in s.frames[-6:]:
            out.append("%s bb%d/%d" % (fr.fn.name[-90:], fr.bb, fr.si))
        return " > ".join(out)

    # ------------------------------------------------------------------ views
    def view(self, v, ty):
        return View(self, v, ty)


class View:
    """typed access to a value by field name"""

    def __init__(self, eng, v, ty):
        self._e = eng
        self._v = v
        self._t = ty

    def _wrap(self, v, ty):
        e = self._e
        if tm.is_scalar(v) or tm.is_boolv(v):
            return v
        return View(e, v, ty)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        e = self._e
        t = self._t
        v = self._v
        for _ in range(6):
            tt = e.tys[t]
            if tt["k"] != "adt" or tt["kind"] != "struct":
                raise AttributeError("%s of %s" % (n, tt.get("str")))
            for i, f in enumerate(tt["vars"][0]["f"]):
                if f[0] == n:
                    er = e.erase(t)
                    if er is not None:
                        return self._wrap(v if er == i else e.zval(f[1]), f[1])
                    return self._wrap(e.get1(v, i), f[1])
            er = e.erase(t)
            if er is None:
                break
            t = e.fields_of(t)[er]
        raise AttributeError("%s of %s" % (n, e.tys[self._t].get("str")))

    def __getitem__(self, i):
        tt = self._e.tys[self._e.core(self._t)]
        if tt["k"] in ("tuple", "closure"):
            return self._wrap(self._e.get1(self._v, i), tt["fields"][i])
        return self._wrap(self._e.get1(self._v, ("i", i)), tt["elem"])

    def __len__(self):
        return self._e.tys[self._e.core(self._t)]["len"]

    @property
    def raw(self):
        return self._v


INTR = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d
