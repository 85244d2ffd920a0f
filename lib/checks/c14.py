"""C14: typed reading gives what the document says."""
import typedocs
from typedocs import *


def run_reads(ctx, h, reqs, label, findings=()):
    it = iter(reqs)

    def opts(r):
        q = next(it)
        return {k: q[k] for k in ('tn', 'how', 'ty', 'defs')}
    check_docs(ctx, 'TraceTyped', h, ['read'], [q['doc'] for q in reqs], label, opts=opts, findings=findings)


def check(ctx):
    h = build_harness('read')
    run_reads(ctx, h, unit_probes(), 'a written unit into an option', findings={'refused': 'explicit-unit-not-none'})
    run_reads(ctx, h, serde_dotted_probes(), 'dotted keys, serde', findings={k: 'serde-dotted-keys' for k in ('refused', 'accepted', 'value')})
    run_reads(ctx, h, serde_attr_probes(), 'attributes, serde', findings={'refused': 'serde-attributes'})
    run_reads(ctx, h, grid(), 'every value for every type')
    run_reads(ctx, h, random_requests(ctx.rng, ctx.pick(30000, 120000)), 'random types and documents')
    run_reads(ctx, h, serde_requests(ctx.rng, ctx.pick(10000, 40000)), 'random types and documents, serde')
