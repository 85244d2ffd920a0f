"""C06: the lossless syntax tree."""
from common import *
from docs import *


def check(ctx):
    h = build_harness()
    check_docs(ctx, 'TraceCst', h, ['cst'], corpus(), 'repository documents')
    check_docs(ctx, 'TraceCst', h, ['cst'], small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings')
    check_docs(ctx, 'TraceCst', h, ['cst'], standard(ctx, 9000, 120000), 'random documents')
