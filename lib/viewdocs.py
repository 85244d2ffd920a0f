"""Texts a client shows: right, wrong, being typed; with a schema or without."""
import gen, gschema
from common import *

DECLS = ['@schema s.styx'] * 6 + ['@schema "s.styx"', '@schema  s.styx // the schema', '@schema @', '@schema', '@schema x.styx',
                                  '@schema {id s, cli /nonexistent/cli}', '@schema {id s}', '@schema(a b)', '@schema\n@schema s.styx', '@schema "𝄞"']
WIDE = ['𝄞', '😀', 'é', '☃', '\u2028', 'a\u0301']


def widen(r, s):
    """wide characters in comments, strings and keys"""
    i = r.randint(0, len(s))
    w = r.choice(WIDE)
    return s[:i] + r.choice([' // %s\n', '"%s"', '%s', '/// %s\n', '"%s\n%s"' % (w, '%s'), '\n%s x\n', 'r#"%s"#']) % w + s[i:]


def declared(r, s):
    d = r.choice(DECLS)
    x = r.random()
    if x < .75: s = d + '\n' + s
    elif x < .9: s = s + ('' if s.endswith('\n') else '\n') + d
    else:
        ls = s.split('\n'); ls.insert(r.randint(0, len(ls)), d); s = '\n'.join(ls)
    return s


def endings(r, s):
    x = r.random()
    if x < .1: return s.replace('\n', '\r\n')
    if x < .14:
        i = s.find('\n'); return s[:i] + '\r\n' + s[i + 1:] if i >= 0 else s
    return s


def pairs(r, n):
    """(text, schema file or None)"""
    out = []
    ps = gschema.pairs(r, n)
    free = gen.mixed(r, n)
    for i in range(n):
        sc, d = ps[i % len(ps)]
        x = r.random()
        if x < .45:
            d = free[i % len(free)]
            if x < .1: d = declared(r, d)
        else:
            if r.random() < .9: d = declared(r, d)
        if r.random() < .4: d = widen(r, d)
        if r.random() < .2: d = gen.mutate(r, d, 1)
        y = r.random()
        if y < .04: sc = None
        elif y < .08: sc = r.choice(['schema {', 'a b c\n', '"'])
        if len(d) < 900: out.append((endings(r, d), sc))
    return out


def dotted(r, n):
    """fields whose names have dots, beside objects of the names before the dots"""
    out = []
    for _ in range(n):
        ks = r.sample(['a', 'b', 'c'], 2)
        path = lambda: '.'.join(r.choice(ks) for _ in range(r.randint(1, 3)))
        fs = {path(): r.choice(['@int', '@any', '@optional(@int)', '@object{a @any}', '@object{a @any, b @optional(@any)}', '@deprecated("d" @any)']) for _ in range(r.randint(1, 4))}
        q = lambda k: '"%s"' % k if '.' in k or r.random() < .2 else k
        sc = 'meta {id x, version 1}\nschema {\n@ @object{%s}\n}' % ', '.join('%s %s' % (q(k), t) for k, t in fs.items())
        def val(d): return r.choice(['1', 'x', '@', '(1 2)', '@t']) if d > 2 or r.random() < .4 else '{%s}' % ', '.join('%s %s' % (k, val(d + 1)) for k in r.sample(['a', 'b', 'c'], r.randint(0, 2)))
        ent = {(q(path()) if r.random() < .3 else r.choice('abc')): None for _ in range(r.randint(0, 3))}
        out.append(('@schema s.styx\n' + ''.join('%s %s\n' % (k, val(0)) for k in ent), sc))
    return out
