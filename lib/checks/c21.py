"""C21: the browser bindings."""
import docs, wasmdocs
from common import *


def bindings(ctx, h, texts, jsons, label):
    n = max(len(texts), len(jsons))
    recs = [{'id': i, 'cs': [ord(c) for c in texts[i % len(texts)]], 'js': [ord(c) for c in jsons[i % len(jsons)][0]], 'j': jsons[i % len(jsons)][1]} for i in range(n)]
    outs = run_harness_par(h, ['wasm'], recs, ctx.tmp)
    ctx.traces += n
    ctx.count(label, n)
    for m in tlc_records('TraceWasm', outs, ctx):
        if m['kind'] == 'boxed' and ctx.finding('tagged-scalar-boxed'): continue
        x = recs[m['id']]
        js = m['kind'] in ('from', 'written', 'back')
        ctx.violation('%s of %r: expected %s got %s' % (m['kind'], show(x['js'] if js else x['cs'])[:300], str(m['exp'])[:300], str(m['got'])[:300]),
                      {'module': 'TraceWasm', 'text': show(x['cs']), 'json': show(x['js']), 'what': m['kind'], 'expected': m['exp'], 'observed': m['got']})
    for x in recs[:2]: ctx.samples.append({'text': show(x['cs']), 'json': show(x['js'])})


def check(ctx):
    h = build_harness('wasm')
    r = ctx.rng
    j = wasmdocs.jsons(r, ctx.pick(6000, 60000))
    bindings(ctx, h, [clean(t) for t in wasmdocs.scalars(r)], j[:1500], 'scalars in every place')
    bindings(ctx, h, docs.small_docs(ctx, 2), j[1500:3000], 'all short fragment strings')
    bindings(ctx, h, docs.standard(ctx, ctx.pick(5000, 50000), ctx.pick(5000, 50000)), j[3000:], 'random documents and JSON')
