"""C10: the schema verdict."""
import gschema
from common import *


def run_pairs(ctx, h, pairs, label, findings=()):
    docs = [clean(d) for _, d in pairs]
    schemas = iter([clean(s) for s, _ in pairs])
    check_docs(ctx, 'TraceSchema', h, ['validate'], docs, label, opts=lambda r: {'ss': [ord(c) for c in next(schemas)]}, findings=findings)


def check(ctx):
    h = build_harness('typed')
    grid = gschema.grid()
    if not ctx.thorough:
        grid = ctx.rng.sample(grid, len(grid))
    run_pairs(ctx, h, grid, 'every simple type against every simple value')
    run_pairs(ctx, h, gschema.pairs(ctx.rng, ctx.pick(6000, 80000)), 'random schemas and documents')
    probe = lambda t, d: [('meta {id x, version 1}\nschema {\n@ @object{a %s}\n}' % t, d)]
    run_pairs(ctx, h, probe('@string{pattern "abc"}', 'a abd'), 'a pattern', {'errors': 'pattern-unchecked'})
    run_pairs(ctx, h, probe('1', 'a 1'), 'a scalar as a schema', {'reads': 'scalar-literal-schema'})
    run_pairs(ctx, h, probe('@string{pattern "abc"}', 'a abc') + probe('@string{maxLen 2, pattern "abc"}', 'a {}'), 'patterns that match or do not apply')
