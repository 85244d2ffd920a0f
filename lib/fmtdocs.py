"""Formatter runs: documents with writer options and respaced twins."""
from common import *


def options(rng):
    def opts(rec):
        o = {'style': rng.choice(['', '', 'multiline', 'inline']), 'indent': rng.choice(['', '', 'tab', '4'])}
        if rng.random() < .5:
            o['width'] = rng.choice([1, 5, 10, 20, 40, 80, 200])
        return o
    return opts


def respace(cs, tokens, rng):
    """The same lexemes and lines with other blanks."""
    out, prev = [], 'Newline'
    for k, s, e, t in tokens:
        if k == 'Whitespace':
            if prev == 'Newline':
                t = rng.choice([[], [32], [9], [32] * 7])
            else:
                t = rng.choice([[32], [32, 32], [9], [32] * 9, [9, 32]])
        elif prev == 'Newline' and k not in ('Newline', 'HeredocEnd', 'HeredocContent') and rng.random() < .3:
            out += [[32], [9], [32] * 5][rng.randrange(3)]
        out += t
        prev = k
    return out


def twins(h, ctx):
    """Adds to every record a respaced twin of its document and how that is formatted."""
    def prepare(outs):
        todo = []
        for o in outs:
            if o['panics'] or not o['tokens']:
                continue
            if [c for t in o['tokens'] for c in t[3]] != o['cs']:
                continue          # C01's business
            cs2 = respace(o['cs'], o['tokens'], ctx.rng)
            todo.append(dict({k: o[k] for k in ('style', 'indent', 'width') if k in o}, id=o['id'], cs=cs2))
        alt = {r['id']: r for r in run_harness(h, ['fmt', 'tokens'], todo, ctx.tmp)}
        for o in outs:
            r = alt.get(o['id'])
            if r and solid(o['tokens']) == solid(r['tokens']):
                o['cs2'], o['alt'] = r['cs'], r['fmt']
                if r['panics']: o['panics'] = r['panics']
                ctx.count('respaced_twins')
            o.pop('tokens')
    return prepare


def solid(ts):
    return [(t[0], t[3]) for t in ts if t[0] != 'Whitespace']
