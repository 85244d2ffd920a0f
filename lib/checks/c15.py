"""C15: the language server speaks about the current text."""
import collections
from lspdocs import *


def check(ctx):
    tlc_model('MCLsp', ctx, cfg='MCLspDeep' if ctx.thorough else 'MCLsp')
    b = build_harness('lsp')
    d = scratch(ctx)
    r = ctx.rng
    recs = [session(r, i, d) for i in range(ctx.pick(1500, 25000))]
    outs = run_harness_par(b, ['session'], recs, ctx.tmp)
    ctx.traces += len(recs)
    kinds = collections.Counter(m[0] for x in recs for m in x['msgs'])
    for k, n in sorted(kinds.items()): ctx.count('messages_' + k, n)
    slim = []
    for o in outs:
        o = dict(o, texts=[], sched=[])
        if o['session']:
            ctx.count('publications', sum(l[0] == 'pub' for l in o['session'][1]))
            o['session'] = o['session'][:3]
        slim.append(o)
    seen = set()
    for m in tlc_records('TraceLsp', slim, ctx):
        if m['id'] in seen: continue
        seen.add(m['id'])
        x, o = recs[m['id']], outs[m['id']]
        ids = o['session'][3] if o['session'] else []
        name = lambda k: ids[k] if isinstance(k, int) and 0 <= k < len(ids) else k
        ctx.violation('%s: expected %s got %s' % (m['kind'], m['exp'], str([name(k) for k in m['got'][-1:]] if isinstance(m['got'], list) else m['got'])[:300]),
                      {'module': 'TraceLsp', 'record': x, 'texts': [show(t) for t in x['texts']], 'expected': m['exp'], 'observed': m['got'], 'session': o['session']})
    for x in recs[:3]: ctx.samples.append({'msgs': x['msgs'], 'texts': [show(t) for t in x['texts']]})
