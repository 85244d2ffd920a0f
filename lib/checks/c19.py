"""C19: schemas generated from types."""
import shapedocs
from shapedocs import *


def run(ctx, h, reqs, label):
    it = iter(reqs)

    def opts(r):
        q = next(it)
        return {k: q[k] for k in ('tn', 'how', 'ty', 'defs', 'nm', 'desc')}
    check_docs(ctx, 'TraceShape', h, ['read'], [q['doc'] for q in reqs], label, opts=opts)


def check(ctx):
    h = build_harness('read')
    run(ctx, h, [request(tn, '') for tn in SHAPES for _ in range(ctx.pick(6, 40))], 'the schema of every type')
    run(ctx, h, shapedocs.grid(), 'every value for every type')
    run(ctx, h, shapedocs.random_requests(ctx.rng, ctx.pick(9000, 60000)), 'random documents')
