"""C08: the layout of a formatted document."""
from common import *
from docs import *
from fmtdocs import *

KINDS = ('again', 'layout', 'respaced')


def check(ctx):
    h = build_harness()
    o = options(ctx.rng)
    for docs, label in [(corpus(), 'repository documents'), (small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings'),
                        (standard(ctx, 9000, 120000), 'random documents')]:
        check_docs(ctx, 'TraceFmt', h, ['tokens', 'fmt', 'fmt2'], docs, label, opts=o, kinds=KINDS, prepare=twins(h, ctx))
