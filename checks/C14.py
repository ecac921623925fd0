"""The migration stages of a pool."""
from . import C20, C23
from .allkit import *

META = {"assumptions": ASSUME, "bounds": ["the instruction that migrates to the second-generation AMM is decided in C21"]}
STAGE = ["migration_progress", "is_migrated", "finish_curve_timestamp"]


def goals(n, x):
    if n == "create_locker":
        p = x.pre("virtual_pool")
        return [("only once the curve is completed", eq(p.migration_progress, 1))] + same(x, "virtual_pool", STAGE[1:]) + \
            [("one stage on", eq(x.post("virtual_pool").migration_progress, 2))]
    if n == "migrate_meteora_damm":
        p, c, a = x.pre("virtual_pool"), x.pre("config"), x.post("virtual_pool")
        return [("only at the locked stage", eq(p.migration_progress, 2)),
                ("only a completed pool", b_and(eq(p.config, x.key("config")), ge(p.quote_reserve, c.migration_quote_threshold))),
                ("only with the matching option", eq(c.migration_option, 0)),
                ("marked migrated", b_and(eq(a.is_migrated, 1), eq(a.migration_progress, 3)))] + same(x, "virtual_pool", STAGE[2:])
    g = []
    for r in records(x, "VirtualPool"):
        g += same(x, r, STAGE)
    return g


def swap(x, q):
    done = q.complete()
    has, _ = q.vesting()
    p, a = q.p, x.post("pool")
    return [("a completing swap moves to the stage of the vesting", b_implies(done, eq(a.migration_progress, ite(has, 1, 2)))),
            ("a completing swap records the time", b_implies(done, eq(a.finish_curve_timestamp, q.now))),
            ("any other swap keeps the stage", b_implies(b_not(done), b_and(eq(a.migration_progress, p.migration_progress),
                                                                         eq(a.finish_curve_timestamp, p.finish_curve_timestamp)))),
            ("the pool is not marked migrated", eq(a.is_migrated, p.is_migrated)),
            ("no swap once the curve is complete", lt(p.quote_reserve, q.c.migration_quote_threshold))]


def tasks():
    return all_tasks(goals) + swaps(swap, ("swap2 mode 0 collect 0", "swap2 mode 1 collect 1", "swap2 mode 2 collect 0", "swap collect 0"))
