"""C09: written values read back."""
from common import *
from docs import *
from fmtdocs import *

BOXED = ['a @t"x"', 'a (@t"x" @u)', 'a {b @t<<E\nx\nE\n}']


def check(ctx):
    h = build_harness()
    o = options(ctx.rng)
    fin = {'boxed': 'tagged-scalar-boxed'}
    for docs, label in [(BOXED, 'tagged scalars'), (corpus(), 'repository documents'), (small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings'),
                        (standard(ctx, 14000, 150000), 'random documents')]:
        check_docs(ctx, 'TraceVal', h, ['vfmt'], docs, label, opts=o, findings=fin)
