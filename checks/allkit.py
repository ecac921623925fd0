"""Goals decided on every instruction of the program."""
import os
import re

from vkit.check import lv_eq

from . import swapkit as sk
from .C28 import HOOK as ZAP

from .common import *

POOL_FEES = ["%s_%s_fee" % (w, s) for w in ("protocol", "partner", "creator") for s in ("base", "quote")]
MIG_FEES = ["protocol_migration_base_fee_amount", "protocol_migration_quote_fee_amount"]
TIER = os.environ.get("VERIF_TIER", "quick")
SKIP = {"migration_damm_v2"}


def kind(x, name):
    b = ("acct", x.run.idx[name], "obj0")
    if b not in x.st.mem:
        return None
    return x.e.tys[x.st.mty[b]]["name"].split("::")[-1]


def records(x, k):
    """the names of the accounts that hold a record of the kind"""
    return [n for n in x.run.idx if kind(x, n) == k and x.st.mem.get(("acct", x.run.idx[n], "inited")) is not True]


def same(x, name, fields):
    a, b = x.pre(name), x.post(name)
    if a._v is b._v:
        return [("%s: nothing changes" % name, True)]
    la, lb = list(leaves(x.e, a._v, a._t)), dict(leaves(x.e, b._v, b._t))
    out = []
    for f in fields:
        c = [lv_eq(x.e, u, lb[p]) for p, u in la if p == f or p.startswith((f + ".", f + "["))]
        if not c:
            raise KeyError(f)
        out.append(("%s: %s does not change" % (name, f), b_and(*c)))
    return out


def pool_of(x):
    r = records(x, "VirtualPool")
    return r[0] if r else None


def task(n, g, **kw):
    kw.setdefault("witnesses", 1)
    if n == "zap_protocol_fee":
        kw["hooks"] = [ZAP]
    return (n, lambda c: each(c, n, lambda x: g(n, x), **kw))


def all_tasks(goals, only=None, **kw):
    return [task(n, goals, **kw) for n in INSTR if n not in SKIP and (only is None or n in only)]


def swaps(goals, names=None):
    return [(n, f) for n, f in sk.swap_tasks(goals) if names is None or n in names or TIER == "thorough"]


def pick(goals, rx):
    return [(l, g) for l, g in goals if re.search(rx, l)]


ASSUME = sk.SWAP_ASSUME
