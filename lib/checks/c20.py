"""C20: edits offered to an editor."""
from editdocs import *
from lspdocs import scratch


def edits(ctx, h, qs, label):
    d = scratch(ctx)
    recs = [{'id': i, 'cs': [ord(c) for c in t], 'ss': [-1] if s is None else [ord(c) for c in s], 'pos': p, 'tab': k, 'dir': d, 'name': 'd.styx'} for i, (t, s, p, k) in enumerate(qs)]
    outs = run_harness_par(h, ['edits'], recs, ctx.tmp)
    ctx.traces += len(recs)
    ctx.count(label, len(recs))
    for o in outs:
        if o['edits']:
            for a in o['edits'][1]: ctx.count(a[0].split()[0] + ' edits offered')
            ctx.count('lines indented', len(o['edits'][0])); ctx.count('texts formatted', len(o['edits'][2]))
            for a in o['edits'][1]: a[0] = ''
        o['dir'] = ''
    for m in tlc_records('TraceEdits', outs, ctx):
        x = recs[m['id']]
        ctx.violation('%s of %r at %s: expected %s got %s' % (m['kind'], show(x['cs'])[:300], x['pos'], str(m['exp'])[:300], str(m['got'])[:300]),
                      {'module': 'TraceEdits', 'text': show(x['cs']), 'schema': show(x['ss']) if x['ss'] != [-1] else None, 'position': x['pos'], 'tab': x['tab'], 'what': m['kind'], 'expected': m['exp'], 'observed': m['got']})
    for x in recs[:2]: ctx.samples.append({'text': show(x['cs']), 'position': x['pos']})


def check(ctx):
    h = build_harness('lsp')
    edits(ctx, h, every(ctx.rng), 'every type missing')
    edits(ctx, h, spots(ctx.rng), 'every place')
    edits(ctx, h, requests(ctx.rng, ctx.pick(9000, 60000)), 'texts, schemas and cursors')
