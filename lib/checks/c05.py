"""C05: single values."""
import gen
from common import *
from docs import *


def values(r, n):
    out = []
    for _ in range(n):
        g = gen.Gen(r, maxdepth=r.choice([1, 2, 3]))
        s = g.value(0)
        x = r.random()
        if x < .25: s = r.choice(['\n', '// c\n', ' ', '\n\n ', '\t', '// a\n// b\n']) + s
        if x > .75: s = s + r.choice(['\n', ' ', ' // c', ' x', '\n\n', ' @', '}', ')'])
        if r.random() < .2: s = gen.mutate(r, s)
        out.append(s)
    return out


def check(ctx):
    h = build_harness()
    check_docs(ctx, 'TraceExpr', h, ['expr'], small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings')
    check_docs(ctx, 'TraceExpr', h, ['expr'], list(dict.fromkeys(values(ctx.rng, ctx.pick(7000, 90000)))), 'random values')
    check_docs(ctx, 'TraceExpr', h, ['expr'], standard(ctx, 2000, 20000), 'random documents')
