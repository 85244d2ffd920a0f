"""C16: what an editor is told about a text."""
import os
from viewdocs import *
import docs as D
from lspdocs import scratch


def view(ctx, h, ps, label):
    d = scratch(ctx)
    seen, uniq = set(), []
    for t, s in ps:
        t = clean(t)
        if (t, s) not in seen: seen.add((t, s)); uniq.append((t, s))
    recs = [{'id': i, 'cs': [ord(c) for c in t], 'ss': [-1] if s is None else [ord(c) for c in clean(s)], 'dir': d} for i, (t, s) in enumerate(uniq)]
    outs = run_harness_par(h, ['view'], recs, ctx.tmp)
    ctx.traces += len(recs)
    ctx.count(label, len(recs))
    for o in outs:
        if o['view']:
            ctx.count('diagnostics', len(o['view'][0])); ctx.count('symbols', len(o['view'][1])); ctx.count('tokens', len(o['view'][2]))
            ctx.count('texts with a schema complaint', any(x[1] == 'styx-schema' for x in o['view'][0]))
        o['dir'] = ''
    shown = 0
    for m in tlc_records('TraceEditor', outs, ctx):
        x = recs[m['id']]
        ctx.violation('%s of %r: expected %s got %s' % (m['kind'], show(x['cs'])[:300], str(m['exp'])[:300], str(m['got'])[:300]),
                      {'module': 'TraceEditor', 'text': show(x['cs']), 'schema': show(x['ss']) if x['ss'] != [-1] else None, 'what': m['kind'], 'expected': m['exp'], 'observed': m['got']})
    for x in recs[:2]: ctx.samples.append({'text': show(x['cs'])})


def check(ctx):
    h = build_harness('lsp')
    view(ctx, h, [(t, None) for t in corpus()], 'repository documents')
    view(ctx, h, [(t, None) for t in D.small_docs(ctx, 2)][:ctx.pick(2500, 10000)], 'all short fragment strings')
    view(ctx, h, pairs(ctx.rng, ctx.pick(5000, 60000)), 'random texts and schemas')
    view(ctx, h, dotted(ctx.rng, ctx.pick(1200, 15000)), 'fields whose names have dots')
