"""C04: the document tree."""
from common import *
from docs import *


def check(ctx):
    h = build_harness()
    check_docs(ctx, 'TraceTree', h, ['tree'], corpus(), 'repository documents')
    check_docs(ctx, 'TraceTree', h, ['tree'], small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings')
    check_docs(ctx, 'TraceTree', h, ['tree'], standard(ctx, 9000, 120000), 'random documents')
