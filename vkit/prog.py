"""The dumped program: monomorphic MIR bodies, types, constant allocations and vtables (see driver/mirdump.rs)."""
import json
import re

OPAQUE_INT = {"ruint::Uint": None}


class Fn:
    __slots__ = ("id", "name", "df", "krate", "kind", "args", "ty", "argc", "locals", "spread", "blocks",
                 "file", "line", "intr", "vidx", "stop", "names", "closure", "hook", "hooked")

    def __init__(self, d):
        self.id = d["id"]
        self.name = d["name"]
        self.df = d["def"]
        self.krate = d["krate"]
        self.kind = d["kind"]
        self.args = d["args"]
        self.ty = d["ty"]
        self.argc = d.get("argc")
        self.locals = d.get("locals")
        self.spread = d.get("spread")
        self.blocks = d.get("blocks")
        self.file = d.get("file")
        self.line = d.get("line")
        self.intr = d.get("intr")
        self.vidx = d.get("vidx")
        self.stop = d.get("stop")
        self.names = d.get("names")
        self.closure = bool(re.search(r"\{closure#\d+\}$", self.df)) and self.kind == "item"
        self.hook = None
        self.hooked = False

    def __repr__(self):
        return "<fn %s>" % self.name


class Prog:
    def __init__(self, path):
        self.lines = {}
        self.tys = []
        self.als = {}
        self.vts = {}
        self._fns = {}
        self.by_name = {}
        self.by_def = {}
        done = False
        with open(path) as f:
            for l in f:
                if l.startswith('{"t":"fn"'):
                    m = re.match(r'\{"t":"fn","id":(\d+),"name":("(?:[^"\\]|\\.)*"),"def":("(?:[^"\\]|\\.)*")', l)
                    i = int(m[1])
                    self.lines[i] = l
                    self.by_name.setdefault(json.loads(m[2]), i)
                    self.by_def.setdefault(json.loads(m[3]), []).append(i)
                else:
                    d = json.loads(l)
                    if d["t"] == "ty":
                        assert d["id"] == len(self.tys)
                        self.tys.append(d)
                    elif d["t"] == "al":
                        self.als[d["id"]] = d
                    elif d["t"] == "vt":
                        self.vts[(d["ty"], d["dyn"])] = d["m"]
                    elif d["t"] == "end":
                        done = True
        if not done:
            raise RuntimeError("incomplete MIR dump: " + path)
        self.ty_by_name = {}
        for t in self.tys:
            if t["k"] == "adt":
                self.ty_by_name.setdefault(t["name"], []).append(t["id"])
        self.prim = {}
        for t in self.tys:
            if t["k"] in ("uint", "int"):
                self.prim.setdefault(("u" if t["k"] == "uint" else "i") + str(t["bits"]), t["id"])
            elif t["k"] == "bool":
                self.prim["bool"] = t["id"]

    def fn(self, i):
        f = self._fns.get(i)
        if f is None:
            f = self._fns[i] = Fn(json.loads(self.lines[i]))
        return f

    def find(self, name):
        """The function with this exact name, or the only one whose definition path ends with it."""
        if name in self.by_name:
            return self.fn(self.by_name[name])
        c = [i for n, v in self.by_def.items() if n == name or n.endswith("::" + name) for i in v]
        if len(c) == 1:
            return self.fn(c[0])
        if not c:
            raise KeyError("no function " + name)
        raise KeyError("ambiguous function %s: %s" % (name, [self.fn(i).name for i in c][:5]))

    def has(self, name):
        try:
            self.find(name)
            return True
        except KeyError:
            return False

    def adt(self, suffix):
        """Type id of the non-generic ADT whose path ends with suffix."""
        c = [i for n, v in self.ty_by_name.items() if n == suffix or n.endswith("::" + suffix) for i in v]
        if len(c) != 1:
            raise KeyError("type %s: %s" % (suffix, [self.tys[i]["str"] for i in c][:6]))
        return c[0]

    def ty(self, i):
        return self.tys[i]

    def is_opaque_int(self, t):
        return t["k"] == "adt" and t["name"] == "ruint::Uint"

    def is_pubkey(self, t):
        return t["k"] == "adt" and t["name"].endswith("Pubkey") and t.get("size") == 32 and "Unaligned" not in t["name"]
