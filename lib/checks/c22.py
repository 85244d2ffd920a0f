"""C22: what an editor is told at a place."""
from editdocs import *
from lspdocs import scratch


def places(ctx, h, qs, label):
    d = scratch(ctx)
    recs = [{'id': i, 'cs': [ord(c) for c in t], 'ss': [-1] if s is None else [ord(c) for c in s], 'pos': p, 'dir': d} for i, (t, s, p, k) in enumerate(qs)]
    outs = run_harness_par(h, ['place'], recs, ctx.tmp)
    ctx.traces += len(recs)
    ctx.count(label, len(recs))
    for o in outs:
        if o['place']:
            ctx.count('completions', len(o['place'][0])); ctx.count('hovers', len(o['place'][1])); ctx.count('definitions', bool(o['place'][2]))
        o['dir'] = ''
    for m in tlc_records('TracePlace', outs, ctx):
        x = recs[m['id']]
        ctx.violation('%s of %r at %s: expected %s got %s' % (m['kind'], show(x['cs'])[:300], x['pos'], str(m['exp'])[:300], str(m['got'])[:300]),
                      {'module': 'TracePlace', 'text': show(x['cs']), 'schema': show(x['ss']) if x['ss'] != [-1] else None, 'position': x['pos'], 'what': m['kind'], 'expected': m['exp'], 'observed': m['got']})
    for x in recs[:2]: ctx.samples.append({'text': show(x['cs']), 'position': x['pos']})


def check(ctx):
    h = build_harness('lsp')
    places(ctx, h, every(ctx.rng), 'every type')
    places(ctx, h, spots(ctx.rng), 'every place')
    places(ctx, h, requests(ctx.rng, ctx.pick(9000, 60000)), 'texts, schemas and cursors')
