"""C12: histories of reading and changing documents."""
from accdocs import *


def check(ctx):
    b = build_harness('access')
    r = ctx.rng
    check_histories(ctx, b, 'TraceAccess', 'tree', all_paths(r), 'all short paths')
    check_histories(ctx, b, 'TraceAccess', 'tree', [tree_history(r) for _ in range(ctx.pick(5000, 80000))], 'tree histories')

    def c():
        h = CHistory(r)
        return {'ops': [h.op() for _ in range(r.randint(4, 40))]}
    fin = {'nul': 'nul-in-c-string'}
    check_histories(ctx, b, 'TraceCapi', 'capi', [c() for _ in range(ctx.pick(2500, 40000))], 'C API histories', fin)
    check_histories(ctx, b, 'TraceCapi', 'capi', [walk(d) for d in SHAPES], 'C API walks', fin)
