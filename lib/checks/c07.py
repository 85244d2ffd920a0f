"""C07: formatting keeps what the document says."""
from common import *
from docs import *
from fmtdocs import *

KINDS = ('unchanged', 'lexemes', 'meaning')
# the listed finding, on documents known to show it
DROPPED = ['type @seq ()', 'type @optional @string', 'a 1 2', 'k"x" 1\n', 'a.b (1) (2)\nc 1']


def check(ctx):
    h = build_harness()
    o = options(ctx.rng)
    fin = {'dropped': 'extra-values-dropped'}
    for docs, label in [(DROPPED, 'entries with too many values'), (corpus(), 'repository documents'),
                        (small_docs(ctx, ctx.pick(2, 3)), 'all short fragment strings'),
                        (standard(ctx, 9000, 120000), 'random documents')]:
        check_docs(ctx, 'TraceFmt', h, ['fmt', 'fmt2'], docs, label, opts=o, kinds=KINDS, findings=fin)
