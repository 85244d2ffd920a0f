"""C17: what is written for a value is read back as it."""
import fmtdocs
from typedocs import *


def run_writes(ctx, h, reqs, label, findings=()):
    it = iter(reqs)
    o = fmtdocs.options(ctx.rng)

    def opts(r):
        q = next(it)
        return dict(o(r), **{k: q[k] for k in ('tn', 'how', 'ty', 'defs')})
    check_docs(ctx, 'TraceWrote', h, ['read'], [q['doc'] for q in reqs], label, opts=opts, findings=findings)


def check(ctx):
    h = build_harness('read')
    run_writes(ctx, h, raw_heredoc_probes(), 'raw heredocs within a line', findings={'unreadable': 'raw-heredoc-inline'})
    run_writes(ctx, h, text_requests('write') + text_requests('swrite'), 'texts everywhere')
    for how, label in (('write', 'documents'), ('wexpr', 'expressions'), ('swrite', 'documents, serde')):
        run_writes(ctx, h, write_requests(ctx.rng, how, ctx.pick(6000, 40000)), 'random values, ' + label)
