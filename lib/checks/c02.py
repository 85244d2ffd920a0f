"""C02: the event stream is the one the language gives the text."""
from common import *
from docs import *


def check(ctx):
    h = build_harness()
    check_docs(ctx, 'TraceParse', h, ['events'], corpus(), 'repository documents')
    check_docs(ctx, 'TraceParse', h, ['events'], small_docs(ctx, ctx.pick(3, 4)), 'all short fragment strings')
    outs = check_docs(ctx, 'TraceParse', h, ['events'], standard(ctx, 9000, 120000), 'random documents')
    for o in outs:
        for e in o['events']:
            ctx.count('events_' + (e[0] + '_' + e[1] if e[0] == 'Error' else e[0]))
    ctx.assumptions.append('stack depth: nesting beyond the generated depth (30) is not looked at')
