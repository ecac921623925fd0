"""Models of the environment and of library code that is not worth (or not possible) to execute: intrinsics,
256-bit integers, public keys, formatting, allocation, and the Solana runtime."""
import re

import z3

from . import terms as tm
from .sx import (INTR, NOHOOK, BA, E, F, Opq, P, PB, Panic, S, TailCall, U, UNIT, Unsupported, Dead, bits_range, intr)
from .terms import T, add, b_and, b_not, b_or, cmp, ex, ite, sub

HOOKS = []


def hook(*rx):
    def d(f):
        for r in rx:
            HOOKS.append((re.compile(r), f))
        return f
    return d


# ---------------------------------------------------------------------------------------------- intrinsics
@intr("cold_path", "assert_inhabited", "assume", "assert_zero_valid", "assert_mem_uninitialized_valid")
def _(e, st, fn, a, t):
    return UNIT


@intr("saturating_add")
def _(e, st, fn, a, t):
    lo, hi = e.range_of(t)
    x = add(a[0], a[1])
    if e.decide(e.in_range(x, lo, hi)):
        return e.clip_t(x, lo, hi)
    return hi if lo == 0 or e.decide(cmp("Gt", x, hi)) else lo


@intr("saturating_sub")
def _(e, st, fn, a, t):
    lo, hi = e.range_of(t)
    x = sub(a[0], a[1])
    if e.decide(e.in_range(x, lo, hi)):
        return e.clip_t(x, lo, hi)
    return lo if lo == 0 or e.decide(cmp("Lt", x, lo)) else hi


@intr("integer_min")
def _(e, st, fn, a, t):
    return ite(cmp("Le", a[0], a[1]), a[0], a[1])


@intr("integer_max")
def _(e, st, fn, a, t):
    return ite(cmp("Ge", a[0], a[1]), a[0], a[1])


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _(e, st, fn, a, t):
    p, q = a

    def split(p):
        if p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == "i":
            return p.base, p.path[:-1], p.path[-1][1]
        return p.base, p.path, 0
    (b1, p1, i1), (b2, p2, i2) = split(p), split(q)
    if b1 is None and b2 is None:
        return 0
    if b1 == b2 and p1 == p2:
        return sub(i1, i2)
    raise Unsupported("offset between pointers")


@intr("arith_offset", "offset")
def _(e, st, fn, a, t):
    return e.ptr_add(a[0], a[1])


@intr("size_of_val")
def _(e, st, fn, a, t):
    tid = fn.args[0]
    if e.size(tid) >= 0:
        return e.size(tid)
    tt = e.tys[tid]
    if tt["k"] == "slice":
        return e.N.mul(a[0].meta, e.size(tt["elem"]))
    raise Unsupported("size_of_val")


@intr("raw_eq")
def _(e, st, fn, a, t):
    return eq_vals(e, e.load(a[0], fn.args[0]), e.load(a[1], fn.args[0]))


@intr("copy")
def _(e, st, fn, a, t):
    vals = [e.load(e.ptr_add(a[0], i)) for i in range(a[2])]
    for i, v in enumerate(vals):
        e.store(e.ptr_add(a[1], i), v)
    return UNIT


@intr("volatile_load")
def _(e, st, fn, a, t):
    return e.load(a[0])


@intr("volatile_store")
def _(e, st, fn, a, t):
    e.store(a[0], a[1])
    return UNIT


@intr("write_bytes")
def _(e, st, fn, a, t):
    if not isinstance(a[2], int):
        raise Unsupported("write_bytes of symbolic length")
    for i in range(a[2]):
        e.store(e.ptr_add(a[0], i), a[1])
    return UNIT


@intr("compare_bytes")
def _(e, st, fn, a, t):
    if not isinstance(a[2], int):
        raise Unsupported("compare_bytes of symbolic length")
    eq = True
    for i in range(a[2]):
        eq = b_and(eq, cmp("Eq", e.load(e.ptr_add(a[0], i)), e.load(e.ptr_add(a[1], i))))
    return 0 if e.decide(eq) else 1


@intr("is_val_statically_known")
def _(e, st, fn, a, t):
    return False


@intr("abort_immediate", "abort")
def _(e, st, fn, a, t):
    raise Panic("abort")


@intr("ctlz", "ctlz_nonzero")
def _(e, st, fn, a, t):
    bits = e.tys[fn.args[0]]["bits"]
    if isinstance(a[0], int):
        return bits - a[0].bit_length()
    for k in range(bits + 1):
        if e.decide(cmp("Lt", a[0], 1 << k)):
            return bits - k
    raise Dead()


@intr("cttz", "cttz_nonzero")
def _(e, st, fn, a, t):
    if isinstance(a[0], int):
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else e.tys[fn.args[0]]["bits"]
    raise Unsupported("cttz")


@intr("ctpop")
def _(e, st, fn, a, t):
    if isinstance(a[0], int):
        return bin(a[0]).count("1")
    bits = e.tys[fn.args[0]]["bits"]
    h = tm.rng(a[0])[1]
    n = min(bits, h.bit_length())
    if n > 16:
        raise Unsupported("ctpop")
    r = 0
    for b in e.to_bits(a[0], n):
        r = add(r, b)
    return r


@intr("bswap")
def _(e, st, fn, a, t):
    if isinstance(a[0], int):
        n = e.tys[fn.args[0]]["bits"] // 8
        return int.from_bytes(a[0].to_bytes(n, "little"), "big")
    raise Unsupported("bswap")


@intr("exact_div")
def _(e, st, fn, a, t):
    return e.N.divmod(a[0], a[1])[0]


def eq_vals(e, x, y):
    """structural equality of two values"""
    if tm.is_scalar(x) and tm.is_scalar(y):
        return cmp("Eq", x, y)
    if tm.is_boolv(x) and tm.is_boolv(y):
        return tm.b_iff(x, y)
    if type(x) is PB and type(y) is PB and x.n == y.n:
        return cmp("Eq", x.v, y.v)
    if type(x) in (PB, BA) and type(y) in (PB, BA):
        return cmp("Eq", e.bytes_to_int(x), e.bytes_to_int(y))
    if type(x) in (S, PB, BA) and type(y) in (S, PB, BA):
        a, b = e.elems(x), e.elems(y)
        if len(a) != len(b):
            return False
        return b_and(*[eq_vals(e, p, q) for p, q in zip(a, b)])
    if type(x) is E and type(y) is E:
        if isinstance(x.v, int) and isinstance(y.v, int):
            if x.v != y.v:
                return False
            a, b = x.pl.get(x.v, ()), y.pl.get(y.v, ())
            return b_and(*[eq_vals(e, p, q) for p, q in zip(a, b)])
        r = [cmp("Eq", x.v, y.v)]
        for k in set(x.pl) | set(y.pl):
            if k in x.pl and k in y.pl:
                r.append(b_or(cmp("Ne", x.v, k), b_and(*[eq_vals(e, p, q) for p, q in zip(x.pl[k], y.pl[k])])))
        return b_and(*r)
    raise Unsupported("equality of %r and %r" % (x, y))


# ---------------------------------------------------------------------------------------------- panics
@hook(r"^core::panicking::panic_fmt$", r"^core::panicking::panic($|_)", r"^core::panicking::", r"^std::rt::begin_panic",
      r"^(core|std)::(option|result)::(unwrap|expect|unwrap_none)_failed$",
      r"^std::rt::panic", r"^alloc::raw_vec::handle_error", r"^alloc::alloc::handle_alloc_error",
      r"^core::slice::index::slice_.*_fail", r"^core::cell::panic_already", r"^std::process::abort", r"^core::str::slice_error_fail",
      r"^core::slice::copy_from_slice_impl::len_mismatch_fail", r"^core::slice::<impl \[T\]>::copy_from_slice::len_mismatch_fail",
      r"^core::slice::index::into_slice_range.*fail")
def h_panic(e, st, fn, a, t):
    raise Panic("panic", fn.name)


# ---------------------------------------------------------------------------------------------- wide integers
UI = r"ruint::"


def ubits(e, fn):
    for a in fn.args:
        if isinstance(a, dict) and "c" in a:
            return a["c"]
    return 256


def opt(v):
    return E(1, {1: (v,)})


NONE = E(0)


def _ud(e, x):
    """a wide integer (or key), or a reference to one"""
    while type(x) is P:
        x = e.load(x)
    return x


def uwrap(e, x, bits):
    hi = (1 << bits) - 1
    if e.decide(e.in_range(x, 0, hi)):
        return e.clip_t(x, 0, hi), False
    if tm.rng(x)[0] is not None and tm.rng(x)[0] >= 0:
        return e.N.divmod(x, 1 << bits)[1], True
    return e.clip_t(add(x, 1 << bits), 0, hi), True


UOPS = {"add": "Add", "sub": "Sub", "mul": "Mul"}


@hook(r"^ruint::.*(Uint<BITS, LIMBS>|Uint<256, 4>|Uint<512, 8>).*>::(checked|overflowing|wrapping|saturating)_(add|sub|mul)$",
      r"^ruint::Uint::<\d+, \d+>::(checked|overflowing|wrapping|saturating)_(add|sub|mul)$",
      r"^ruint::(add|mul)::<impl ruint::Uint<\d+, \d+>>::(checked|overflowing|wrapping|saturating)_(add|sub|mul)$")
def h_uarith(e, st, fn, a, t):
    m = re.search(r"(checked|overflowing|wrapping|saturating)_(add|sub|mul)$", fn.name)
    bits = ubits(e, fn)
    x = e.exact(UOPS[m[2]], _ud(e, a[0]), _ud(e, a[1]))
    v, o = uwrap(e, x, bits)
    if m[1] == "checked":
        return NONE if o else opt(v)
    if m[1] == "overflowing":
        return S((v, o))
    if m[1] == "saturating":
        return v if not o else ((1 << bits) - 1 if m[2] != "sub" else 0)
    return v


@hook(r"^<&?ruint::Uint<\d+, \d+> as (core|std)::ops::(Add|Sub|Mul)(Assign)?(<.*>)?>::\w+$",
      r"^ruint::.*<impl (core|std)::ops::(Add|Sub|Mul)(Assign)?.* for &?(ruint::)?Uint.*>::(add|sub|mul)(_assign)?$")
def h_uops(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    bits = ubits(e, fn)
    x, y = _ud(e, a[0]), _ud(e, a[1])
    v, o = uwrap(e, e.exact(UOPS[n.replace("_assign", "")], x, y), bits)
    if n.endswith("_assign"):
        e.store(a[0], v)
        return UNIT
    return v


@hook(r"ruint::.*(div|rem)_?(ceil|rem)?$", r"^ruint::.*checked_(div|rem)$", r"^ruint::.*(wrapping)_(div|rem)$")
def h_udiv(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    if n not in ("div", "rem", "div_rem", "div_ceil", "checked_div", "checked_rem", "wrapping_div", "wrapping_rem"):
        return NOHOOK
    if "algorithms" in fn.name:
        return NOHOOK
    x, y = _ud(e, a[0]), _ud(e, a[1])
    if e.decide(cmp("Eq", y, 0)):
        if n.startswith("checked"):
            return NONE
        raise Panic("div0", fn.name)
    q, r = e.N.divmod(x, y if isinstance(y, int) else T(y.e, max(1, y.lo or 0), y.hi))
    if n == "div_rem":
        return S((q, r))
    if n == "div_ceil":
        return add(q, ite(cmp("Eq", r, 0), 0, 1))
    v = q if "div" in n else r
    return opt(v) if n.startswith("checked") else v


@hook(r"ruint::.*::(checked_|overflowing_|wrapping_)?(shl|shr)(_assign)?$", r"^<ruint::Uint.* as (core|std)::ops::Sh[lr].*>::sh[lr]$")
def h_ushift(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    bits = ubits(e, fn)
    x, k = _ud(e, a[0]), _ud(e, a[1])
    if not isinstance(k, int):
        lo, hi = tm.rng(k)
        done = None
        for j in range(max(lo or 0, 0), min(hi if hi is not None else 300, 300) + 1):
            if e.decide(cmp("Eq", k, j)):
                done = j
                break
        if done is None:
            raise Unsupported("shift amount")
        k = done
    if "shl" in n:
        v, o = uwrap(e, e.N.mul(x, 1 << k), bits) if k < 4 * bits else (0, True)
    else:
        q, r = e.N.divmod(x, 1 << k)
        v, o = q, None
        if n.startswith(("overflowing", "checked")):
            o = e.decide(cmp("Ne", r, 0))
    if n.startswith("checked"):
        return NONE if o else opt(v)
    if n.startswith("overflowing"):
        return S((v, o))
    if n.endswith("_assign"):
        e.store(a[0], v)
        return UNIT
    return v


@hook(r"^<ruint::Uint<.*> as (core|std)::cmp::(PartialOrd|PartialEq|Ord).*>::(lt|le|gt|ge|eq|ne|cmp|partial_cmp|min|max)$",
      r"^ruint::cmp::.*::(lt|le|gt|ge|eq|ne|cmp|partial_cmp|is_zero)$")
def h_ucmp(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    x = _ud(e, a[0])
    if n == "is_zero":
        return cmp("Eq", x, 0)
    y = _ud(e, a[1])
    if n in ("lt", "le", "gt", "ge", "eq", "ne"):
        return cmp(n.capitalize(), x, y)
    if n in ("min", "max"):
        return ite(cmp("Le" if n == "min" else "Ge", x, y), x, y)
    o = e.binop("Cmp", x, y, None)
    return opt(o) if n == "partial_cmp" else o


@hook(r"^ruint::.*::from_limbs$")
def h_ulimbs(e, st, fn, a, t):
    return e.limbs_to_int(a[0]) if type(a[0]) is S else a[0]


@hook(r"^ruint::.*::from_le_slice|^ruint::.*::from_le_bytes")
def h_ule(e, st, fn, a, t):
    return e.bytes_to_int(_ud(e, a[0]))


@hook(r"^ruint::.*::(as_limbs|into_limbs|as_le_bytes|to_le_bytes|bit|bit_len|byte)$")
def h_ulimb_get(e, st, fn, a, t):
    n = fn.name.split("::")[-1]
    x = _ud(e, a[0])
    if n == "into_limbs" or n == "as_limbs":
        out = []
        for i in range(ubits(e, fn) // 64):
            q = e.N.divmod(x, 1 << (64 * i))[0]
            out.append(e.N.divmod(q, 1 << 64)[1])
        s = S(tuple(out))
        return s if n == "into_limbs" else e.new_heap(s)
    raise Unsupported(fn.name)


@hook(r"^ruint::from::<impl (core|std)::convert::TryFrom<.*Uint<.*>> for .*>::try_from$",
      r"^<\w+ as (core|std)::convert::TryFrom<&?ruint::Uint.*>>::try_from$")
def h_utryinto(e, st, fn, a, t):
    # Result<int, FromUintError<int>>
    ok = e.tys[t]["vars"][0]["f"][0][1]
    x = _ud(e, a[0])
    lo, hi = e.range_of(ok)
    if e.decide(e.in_range(x, lo, hi)):
        return E(0, {0: (e.clip_t(x, lo, hi),)})
    return E(1, {1: (Opq("FromUintError"),)})


@hook(r"^<ruint::Uint<.*> as ruint::(from::)?UintTryFrom<.*>>::uint_try_from$", r"ruint::.*::uint_try_from$")
def h_utryfrom(e, st, fn, a, t):
    x = _ud(e, a[0])
    bits = ubits(e, fn)
    if tm.is_boolv(x):
        x = e.as_int(x)
    if e.decide(e.in_range(x, 0, (1 << bits) - 1)):
        return E(0, {0: (x,)})
    raise Unsupported("wide integer from an out-of-range value")


@hook(r"^ruint::.*Uint<\d+, \d+>>?::(from|saturating_from|wrapping_from|to|saturating_to|wrapping_to)$",
      r"^ruint::Uint::<\d+, \d+>::(from|saturating_from|wrapping_from|to|saturating_to|wrapping_to)$")
def h_ufrom(e, st, fn, a, t):
    n = re.sub(r"::<.*", "", re.sub(r".*>::(?=\w)", "", fn.name)).split("::")[-1]
    x = _ud(e, a[0])
    if n in ("from", "saturating_from", "wrapping_from"):
        bits = ubits(e, fn)
        if e.decide(e.in_range(x, 0, (1 << bits) - 1)):
            return x
        if n == "saturating_from":
            return (1 << bits) - 1
        raise Panic("panic", fn.name)
    r = e.range_of(t)
    if r is None:
        raise Unsupported("%s into %s" % (fn.name, e.tys[t]["str"]))
    lo, hi = r
    if e.decide(e.in_range(x, lo, hi)):
        return e.clip_t(x, lo, hi)
    if n == "to":
        raise Panic("panic", fn.name)
    return hi if n == "saturating_to" else e.int_cast(x, t)


@hook(r"^ruint::root::.*::root$|^ruint::.*::root$")
def h_uroot(e, st, fn, a, t):
    if a[1] != 2:
        raise Unsupported("root")
    return e.N.isqrt(_ud(e, a[0]))


@hook(r"^ruint::.*::leading_zeros$")
def h_uclz(e, st, fn, a, t):
    x = _ud(e, a[0])
    bits = ubits(e, fn)
    if isinstance(x, int):
        return bits - x.bit_length()
    lo, hi = 0, bits            # the bit length
    xl, xh = tm.rng(x)
    if xh is not None:
        hi = min(hi, xh.bit_length())
    if xl is not None:
        lo = max(lo, xl.bit_length())
    while lo < hi:
        m = (lo + hi) // 2
        if e.decide(cmp("Lt", x, 1 << m)):
            hi = m
        else:
            lo = m + 1
    return bits - lo


# ---------------------------------------------------------------------------------------------- keys
@hook(r"Pubkey as (core|std)::cmp::PartialEq>::(eq|ne)$", r"PartialEq for .*Pubkey>::(eq|ne)$")
def h_keyeq(e, st, fn, a, t):
    x, y = _ud(e, a[0]), _ud(e, a[1])
    return cmp("Eq" if fn.name.endswith("::eq") else "Ne", x, y)


# ---------------------------------------------------------------------------------------------- min, max
@hook(r"^(core|std)::cmp::(min|max)(::<.*>)?$", r"as (core|std)::cmp::Ord>::(min|max)$", r"^(core|std)::cmp::impls::.*Ord for [ui]\w+>::(min|max)$",
      r"(core|std)::cmp::Ord::(min|max)$")
def h_minmax(e, st, fn, a, t):
    if tm.is_scalar(a[0]) and tm.is_scalar(a[1]):
        mn = re.search(r"::(min|max)(::<.*>)?$", fn.name)[1] == "min"
        return ite(cmp("Le" if mn else "Ge", a[0], a[1]), a[0], a[1])
    return NOHOOK


# ---------------------------------------------------------------------------------------------- strings, logs
@hook(r"^(std|core|alloc)::fmt::", r"::fmt$", r"fmt::(Display|Debug)>::fmt", r"::to_string$", r"^<.* as (std|alloc)::string::ToString>::to_string$",
      r"^alloc::string::", r"^alloc::fmt::format", r"^<(std|alloc)::string::String as .*>::", r"^<str as .*ToOwned>::to_owned$",
      r"(spec_to_string|to_owned)$", r"^alloc::str::<impl .*String", r"^alloc::borrow::.*str.*to_owned")
def h_fmt(e, st, fn, a, t):
    if e.tys[t]["k"] == "adt" and e.tys[t]["name"].endswith("result::Result"):
        return E(0, {0: (UNIT,)})
    return Opq("string")


@hook(r"panic::Location::?<.*>::(caller|file|line|column)$")
def h_loc(e, st, fn, a, t):
    return Opq("location")


@hook(r"solana_program::log::", r"solana_msg::", r"^solana_.*::sol_log", r"sol_log_", r"^anchor_lang::prelude::msg")
def h_log(e, st, fn, a, t):
    return UNIT if e.size(t) == 0 else Opq("log")


# ---------------------------------------------------------------------------------------------- allocation
@hook(r"^(std|alloc)::boxed::Box::<.*>::new$", r"^alloc::boxed::box_new")
def h_box(e, st, fn, a, t):
    ty = next(x for x in fn.args if isinstance(x, int))
    if not a:
        return NOHOOK
    p = e.new_heap(a[0], ty)
    return p


@hook(r"^(std|alloc)::boxed::.*write_box_via_move|^alloc::boxed::Box::<.*>::write$")
def h_boxwrite(e, st, fn, a, t):
    return NOHOOK


@hook(r"^core::mem::drop|^(std|core)::mem::forget|^core::ptr::drop_in_place|^(core|std)::hint::")
def h_drop(e, st, fn, a, t):
    if "black_box" in fn.name:
        return a[0]
    if "unreachable" in fn.name:
        raise Dead()
    return UNIT


@hook(r"^core::ub_checks::|precondition_check$")
def h_ub(e, st, fn, a, t):
    return UNIT if e.size(t) == 0 else False


@hook(r"^(core|std)::mem::(swap)(::<.*>)?$")
def h_swap(e, st, fn, a, t):
    x, y = e.load(a[0]), e.load(a[1])
    e.store(a[0], y)
    e.store(a[1], x)
    return UNIT


# ---------------------------------------------------------------------------------------------- byte conversions
@hook(r"^core::num::<impl (u|i)\d+>::(from|to)_(le|ne|be)_bytes$")
def h_bytes(e, st, fn, a, t):
    m = re.search(r"<impl (u|i)(\d+)>::(from|to)_(le|ne|be)_bytes$", fn.name)
    if m[4] == "be":
        return NOHOOK
    n = int(m[2]) // 8
    if m[3] == "to":
        if m[1] == "i":
            return NOHOOK
        return PB(a[0], n)
    v = e.bytes_to_int(a[0])
    return v if m[1] == "u" else e.int_cast(v, t)


@hook(r"alloc::Global::alloc_impl_runtime$", r"alloc::Global::(alloc_impl|allocate)$")
def h_alloc(e, st, fn, a, t):
    # Result<NonNull<[u8]>, AllocError>; the block is untyped until written
    p = e.new_heap(U)
    return E(0, {0: (P(p.base, (("i", 0),), 0, None),)})


@hook(r"alloc::Global::(grow_impl_runtime|shrink_impl_runtime|grow_impl)$")
def h_grow(e, st, fn, a, t):
    p = next(x for x in a if type(x) is P and x.base is not None and x.base[0] == "h")
    return E(0, {0: (P(p.base, p.path, 0, None),)})


@hook(r"alloc::Global::(dealloc|deallocate)", r"__rust_(no_alloc_shim|dealloc)")
def h_dealloc(e, st, fn, a, t):
    return UNIT


@hook(r"^anyhow::(__private|macros)?(::)?format_err$", r"^anyhow::Error::(msg|new)(::|$)", r"^anyhow::error::<impl (std::convert::From<.*> for )?anyhow::Error>::", r"^<anyhow::Error as (core|std)::convert::From<.*>>::from$")
def h_anyhow(e, st, fn, a, t):
    return Opq("error", "anyhow")


@hook(r"^anyhow::context::<impl anyhow::Context<.*> for (core|std)::result::Result<.*>>::(with_)?context$",
      r"^<(core|std)::result::Result<.*> as anyhow::Context<.*>>::(with_)?context")
def h_anyhow_ctx(e, st, fn, a, t):
    r = a[0]
    return E(r.v, {**{k: v for k, v in r.pl.items() if k == 0}, 1: (Opq("error", "anyhow"),)})
