"""Exact state merging: a function is explored on its own and its paths are joined into one with conditional values."""
import re

import z3

from . import terms as tm
from .sx import E, NOHOOK, Opq, S, Unsupported, Dead
from .terms import b_and, b_not, b_or, bx, ite


def is_result(e, t):
    d = e.tys[t]
    return d["k"] == "adt" and d["name"].endswith("result::Result")


def merged(rx, max_ends=400):
    """a hook that joins the paths of the functions whose names match"""
    rx = re.compile(rx)

    def h(e, st, fn, a, t):
        if fn.blocks is None:
            return NOHOOK
        base = len(st.pc)
        s = st.clone()
        s.frames = []
        s.dec = []
        s.dpos = 0
        soft, npaths = e.soft, e.npaths
        e.soft = False
        n_ev, n_notes = len(st.events), len(st.notes)
        ends = []
        try:
            for x in e.run(fn, a, s, getattr(e, "deadline", None)):
                ends.append(x)
                if len(ends) > max_ends:
                    return NOHOOK
            return join(e, st, fn, t, ends, base, n_ev, n_notes)
        except Unsupported as u:
            e.unmerged = getattr(e, "unmerged", {})
            e.unmerged[fn.name] = str(u)[:200]
            return NOHOOK
        finally:
            e.soft, e.npaths = soft, npaths
            e.st = st
    return rx, h


def join(e, st, fn, t, ends, base, n_ev, n_notes):
    rets = [x for x in ends if x.kind == "ret"]
    pans = [x for x in ends if x.kind == "panic"]
    if not rets:
        return NOHOOK if pans else dead()
    for x in rets:
        if len(x.st.events) != n_ev:
            raise Unsupported("events in a merged function")
    cond = lambda x: b_and(*[c for c in x.st.pc[base:] if c.get_id() not in e.assumed])
    res = is_result(e, t)
    oks = [x for x in rets if not (res and type(x.value) is E and x.value.v == 1)]
    errs = [x for x in rets if res and type(x.value) is E and x.value.v == 1]
    # value
    if oks:
        v = oks[-1].value
        for x in oks[:-1]:
            e.st = x.st
            v = e.merge(cond(x), x.value, v)
        if errs:
            okc = b_or(*[cond(x) for x in oks])
            v = E(ite(okc, 0, 1), dict(v.pl))
            v.pl[1] = (errs[0].value.pl[1][0] if len(errs) == 1 else Opq("error"),)
    else:
        v = E(1, {1: (errs[0].value.pl[1][0] if len(errs) == 1 else Opq("error"),)})
    # memory
    mem, mty = {}, {}
    for x in rets:
        for b, y in x.st.mem.items():
            if b in mem or st.mem.get(b) is y:
                continue
            if type(b) is tuple and len(b) == 2 and isinstance(b[0], int):
                if b[0] > st.uid:
                    continue
            if type(b) is tuple and b and b[0] == "h" and b[1] > st.uid and len(rets) > 1:
                continue
            if type(b) is tuple and b and b[0] == "g":
                continue
            r = rets[-1].st.mem.get(b, st.mem.get(b, y))
            for z in rets[:-1]:
                r = e.merge(cond(z), z.st.mem.get(b, st.mem.get(b, y)), r)
            mem[b] = r
            if b in x.st.mty:
                mty[b] = x.st.mty[b]
    for x in rets:
        for b, y in x.st.mty.items():
            if b not in st.mty:
                mty[b] = y
    for b, r in mem.items():
        st.setmem(b, r)
    st.mty.update(mty)
    st.uid = max([st.uid] + [x.st.uid for x in ends])
    seen = set()
    for x in ends:
        given = []
        for c in x.st.pc[base:]:
            if c.get_id() in e.assumed:
                k = (c.get_id(), tuple(g.get_id() for g in given))
                if k not in seen:
                    seen.add(k)
                    e.assume(st, bx(b_or(*[b_not(g) for g in given], c)))
            else:
                given.append(c)
    if pans:
        e.assume(st, b_not(b_or(*[cond(x) for x in pans])))
    for x in rets:
        for n in x.st.notes[n_notes:]:
            c = cond(x)
            st.notes.append(n.under(c) if hasattr(n, "under") else n)
    return v


def dead():
    raise Dead()
