"""Sessions with the language server: schemas, texts, messages, schedules."""
import os
import gen
from common import *

EXT = '/nonexistent/styx-ext'
SCHEMAS = {
    's.styx': 'meta {id s, version 1}\nschema {@ @object{name @string, port @optional(@int{min 1}), tags @optional(@seq(@string)), at @optional(@object{x @int, y @optional(@bool)})}}\n',
    'e.styx': 'meta {id e, version 1, lsp {launch (%s --stdio)}}\nschema {@ @object{name @string, other @optional(@any)}}\n' % EXT,
    'bad.styx': 'meta {id b\nschema {@ @object{name @string}}\n',
}
VALS = ['x', '1', '0', '"two words"', '(a b)', '{x 1}', '{x 1, y maybe}', '@t', '@', '@t(1 {a 2})', 'é', '"𝄞 x"', 'r#"raw"#', '<<E\n  x\n  E', '()', '{}']
KEYS = ['name', 'port', 'tags', 'at', 'naem', 'x', 'é', '"𝄞"', 'at.x', 'a.b', 'other', '@t', '@', 'name']


def text(r):
    """a document a client might have open: right, wrong, or being typed"""
    x = r.random()
    if x < .15: return gen.mixed(r, 1)[0]
    out = []
    y = r.random()
    if y < .55: out.append('@schema ' + r.choice(['s.styx', 's.styx', 's.styx', 'e.styx', 'e.styx', 'e.styx', 'bad.styx', 'none.styx', '@', '{id s, cli no}']))
    for _ in range(r.randint(0, 4)):
        if r.random() < .15: out.append(r.choice(['// c', '/// doc é', '']))
        out.append(r.choice(KEYS) + ' ' + r.choice(VALS) + r.choice(['', '', '', ' // c', ' 2']))
    s = r.choice(['\n', '\n', '\n', '\r\n', '\n\n']).join(out) + r.choice(['\n', '\n', ''])
    if r.random() < .25: s = gen.mutate(r, s, 1)
    return s


METHODS = ['symbols', 'tokens', 'format', 'links', 'hints', 'hover', 'complete', 'newline', 'actions']


def session(r, i, d):
    uris = ['file://%s/%s.styx' % (d, n) for n in ('a', 'b')[:r.randint(1, 2)]]
    base = [clean(text(r)) for _ in range(r.randint(2, 4))]
    texts = base + [clean(gen.mutate(r, base[0], 1))]
    nt = len(texts)
    asks = [[m, r.randint(0, 4), r.randint(0, 9)] for m in r.sample(METHODS, r.randint(2, 4))]
    opened, msgs, v = {}, [], 0
    for _ in range(r.randint(4, 12)):
        u = r.randrange(len(uris))
        x = r.random()
        v += 1
        if x < .08:
            msgs.append(['allow', u, EXT if r.random() < .8 else '/other'])
        elif x < .4:
            msgs.append(['ask', u, r.randrange(len(asks))])
        elif u not in opened:
            if r.random() < .7: v = 1      # a client counts versions anew
            msgs.append(['open', u, v, r.randrange(nt)]); opened[u] = 1
        elif x < .88:
            msgs.append(['change', u, v, [r.randrange(nt) for _ in range(r.choice([1, 1, 1, 2, 3]))]])
        else:
            msgs.append(['close', u]); del opened[u]
    sched = [r.randrange(60) for _ in range(r.randint(20, 400))]
    if r.random() < .3: sched = [3] * 5 + sched     # many at once
    return {'id': i, 'dir': d, 'uris': uris, 'nu': len(uris), 'nt': nt, 'texts': [[ord(c) for c in t] for t in texts],
            'asks': asks, 'msgs': msgs, 'command': EXT, 'sched': sched}


def scratch(ctx):
    d = os.path.join(ctx.tmp, 'lsp')
    os.makedirs(d, exist_ok=True)
    for n, s in SCHEMAS.items():
        with open(os.path.join(d, n), 'w') as f: f.write(s)
    return d
