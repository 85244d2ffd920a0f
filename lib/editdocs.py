"""Texts to edit, their schemas and a cursor."""
import gen, gschema
from common import *
from viewdocs import declared, widen, endings

TYPES = ['@string', '@int', '@float', '@bool', '@unit', '@any', '@seq(@int)', '@map(@int)', '@map(@string @T)', '@object{p @int}', '@optional(@int)', '@optional(@object{p @int, q @optional(@bool)})',
         '@default(1 @int)', '@default("a b" @string)', '@default({p 1} @object{p @int})', '@default((1 2) @seq(@int))', '@default(@x @enum{x @unit})', '@optional(@default(2 @int))', '@default(@ @any)',
         '@deprecated("d" @int)', '@deprecated("d" @optional(@int))', '@enum{x @unit, y @int}', '@enum{y @int}', '@enum{y @object{p @int}, z @seq(@int)}', '@union(@int @string)', '@one-of(@string (a b))', '@one-of(@string ("a b"))',
         '@tuple(@int @string)', '@tuple(@T @bool)', '@literal"on"', '@literal"o n"', '@T', '@optional(@T)', '@O', '@optional(@O)', '@map(@O)', '@A', '@E', '@seq(@O)', '@int{min 5}', '@string{minLen 2}', '@none']
NAMES = ['a', 'b', 'c', 'ab', 'abc', 'name', 'nam', 'two words', 'a.b', 'é', '𝄞', '@x', 'a=b', 'k-1', 'Name', 'aB', '"q"', 'x\\ny', 'name2', 'a\\\\b', '//c', '1']
DEFS = ['T @enum{on @unit, off @object{p @int}}', 'O @object{p @int, q @optional(@string), r @default(x @string)}', 'A @A', 'E @optional(@O)', 'B @object{name @int, ab @optional(@O)}', 'L @object{kids @map(@L), v @int, l @optional(@L)}', 'D @deprecated("x" @O)']


def q(r, k):
    plain = k.isalnum() or k == 'k-1'
    if plain and r.random() < .9: return k
    return '"%s"' % (k.replace('"', '\\"') if '"' in k else k)


def doc(r): return r.choice([''] * 8 + ['/// about\n', '/// a *b*\n/// é\n'])


def fields(r, n, deep=True):
    ks = r.sample(NAMES, n)
    out = []
    for k in ks:
        t = r.choice(TYPES + ['@L', '@B', '@D'])
        if deep and r.random() < .35: t = r.choice(['%s', '@optional(%s)', '@map(%s)', '@deprecated("d" %s)', '@enum{x %s, y @unit}', '@object{@string %s}', '@object{@ %s}', '@object{nam @int, @ %s}', '@seq(%s)', '@optional(@seq(%s))', '@tuple(%s @int)', '@union(%s @int)', '@object{a @flatten(%s)}', '@map(@seq(%s))']) % ('@object{%s}' % ', '.join('%s%s %s' % (doc(r), q(r, a), b) for a, b in fields(r, r.randint(0, 4), False)))
        out.append((k, t))
    if r.random() < .1: out.append(('flat', '@flatten(@%s)' % r.choice(['O', 'B', 'E'])))
    return out


def schema(r):
    fs = fields(r, r.choice([1, 2, 3, 4, 5, 6]))
    root = '@object{%s}' % ', '.join('%s%s %s' % (doc(r), q(r, k), t) for k, t in fs)
    return fs, 'meta {id x, version 1}\nschema {\n@ %s\n%s\n}' % (root, '\n'.join(DEFS))


def value(r, d=0):
    x = r.random()
    if x < .35 or d > 3: return r.choice(['1', 'x', '"a b"', '@', '@x', '()', '(1 2)', 'true', '@x{p 1}', 'p>1', 'p>1 q>{name 2}', '<<E\n x\n E', 'r#"a"#', '@y(1)', '"a\\nb"', '"é"'])
    n = r.choice([0, 1, 1, 2, 3])
    ks = r.sample(NAMES + ['p', 'q', 'r', 'v', 'l', 'kids', 'nme', 'nam2', 'abd'], n)
    es = [entry(r, k, d + 1) for k in ks]
    tag = r.choice([''] * 6 + ['@x', '@y', '@off'])
    y = r.random()
    if y < .4: body = r.choice(['{%s}', '{ %s }', '{%s,}' if es else '{%s}']) % (', '.join(es) if not any('\n' in e for e in es) else '\n'.join([''] + es + ['']))
    elif y < .8:
        ind = '  ' * (d + 1)
        com = lambda: r.choice([''] * 5 + [' // c', '  '])
        sep = r.choice(['', '', '', ','])
        body = '{' + com() + '\n' + ''.join(ind + e + ((sep if i + 1 < len(es) or r.random() < .3 else '') + com() if not e.endswith('E') else '') + '\n' for i, e in enumerate(es)) + r.choice(['', '', ind + '// last\n']) + ind[2:] + '}'
    else: body = '{\n\t' + '\n\t'.join(es) + '}'
    if r.random() < .1:
        its = [tag + body] + [r.choice(['1', '{p 1}', '{}', '@', '@x', '()', '({p 1})', 'x']) for _ in range(r.choice([0, 1, 1, 2]))]
        r.shuffle(its)
        return '(%s)' % ' '.join(its)
    return tag + body


def entry(r, k, d):
    doc = r.choice([''] * 12 + ['/// doc\n'])
    if r.random() < .05: return near(r, k) if near(r, k).isalnum() else q(r, k)
    if r.random() < .06: return r.choice(['@', '@t', '@string']) + ' ' + value(r, d)
    kk = q(r, k)
    if r.random() < .08 and kk.isalnum(): return '%s%s.%s %s' % (doc, kk, r.choice(['p', 'ab', 'nme', 'name']), r.choice(['1', '{p 1}', '{}']))
    return '%s%s %s' % (doc, kk, value(r, d))


def near(r, k):
    """a name like this one"""
    if r.random() < .5: return k
    i = r.randint(0, len(k))
    x = r.choice(['', 'x', 'e', 'm'])
    s = k[:i] + x + k[i + r.randint(0, 1):]
    return s if s and s.isalnum() else k


def document(r, fs):
    ks = [near(r, k) for k, _ in fs if r.random() < .6]
    ks += r.sample(NAMES, r.choice([0, 0, 1]))
    r.shuffle(ks)
    s = ''
    for k in dict.fromkeys(ks): s += entry(r, k, 0) + r.choice(['', '', '', ' // c', '  ']) + '\n'
    if s and r.random() < .2: s = s[:-1]
    if r.random() < .15: s += r.choice(['// last', '\n\n', '// last\n', '  '])
    return s


def starts(t):
    """(line, column in UTF-16) of offsets"""
    out, line, col, i = [], 0, 0, 0
    while i <= len(t):
        out.append((line, col))
        if i == len(t): break
        c = t[i]
        if c == '\n' or (c == '\r' and t[i + 1:i + 2] != '\n'): line, col = line + 1, 0
        elif c == '\r': pass
        else: col += 2 if ord(c) > 65535 else 1
        i += 1
    return out


def cursor(r, t):
    ps = starts(t)
    ok = [i for i in range(len(t) + 1) if not (i > 0 and t[i - 1:i + 1] == '\r\n')]
    if r.random() < .5:
        b = [i for i in ok if i > 0 and t[i - 1] in '\n{' or t[i:i + 1] in ('}', '\n')]
        return list(ps[r.choice(b or ok)])
    return list(ps[r.choice(ok)])


def requests(r, n):
    """(text, schema or None, cursor, blanks per level)"""
    out = []
    free = gen.mixed(r, n)
    while len(out) < n:
        x = r.random()
        if x < .75:
            fs, sc = schema(r)
            d = document(r, fs)
            d = '@schema s.styx' + r.choice(['\n', '\n\n', ' // s\n']) + d if r.random() < .93 else declared(r, d)
            if r.random() < .06: d = gen.mutate(r, d, 1)
            if r.random() < .1: d = endings(r, d)
        else:
            sc, d = None, free[len(out) % len(free)]
            if r.random() < .3: d = widen(r, d)
            if r.random() < .1: d = endings(r, d)
        d = clean(d)
        if len(d) < 700: out.append((d, sc, cursor(r, d), r.choice([2, 2, 4, 3, 1, 0])))
    return out


def every(r):
    """each type as a missing field, in objects written in every way"""
    out = []
    tail = '\n'.join(DEFS) + '\n}'
    for t in TYPES + ['@L', '@B', '@D', '@flatten(@O)']:
        root = 'meta {id x, version 1}\nschema {\n@ @object{a %s, "b c" @optional(%s), k @optional(@any)}\n' % (t, t) + tail
        for d in ['', 'k 1\n', 'k <<E\n1\nE\n', 'k 1 // c', 'k (\n1\n)\n// c\n']:
            out.append(('@schema s.styx\n' + d, root, [1, 0], 2))
        sub = 'meta {id x, version 1}\nschema {\n@ @object{o @object{a %s, "b c" @optional(%s), k @optional(@any)}}\n' % (t, t) + tail
        for d, p in [('o {}', 3), ('o { }', 4), ('o {k 1}', 3), ('o {k 1,}', 4), ('o {\n}', 3), ('o {\n  k 1\n}', 3), ('o {\n  k 1,\n}\n', 3), ('o {\n  k 1 // c\n}', 3), ('o {\n  k 1, // c\n}\n', 3), ('o {\n  // c\n}', 3),
                     ('o {k <<E\n1\nE\n}', 3), ('o {k <<E\n1\nE\n,}', 3), ('o { // c\n}', 3), ('o {k @}', 3), ('o {"k" @x}', 3), ('o {k {x 1}}', 3), ('o {k x>1}', 3), ('o {k.a 1}', 3), ('o @x{}', 6)]:
            out.append(('@schema s.styx\n' + d, sub, [1, p], 4))
    return out


def spots(r):
    """every place of a text"""
    sc = 'meta {id x, version 1}\nschema {\n@ @object{/// doc\nt @tuple(@unit @object{a @int} @object{a @bool, b @string} @seq(@object{a @float})), q @seq(@union(@object{a @int, c @unit} @T @bool @string)), m @map(@O), e @E, u @union(@int @bool @unit @string @O), k @unit, f @flatten(@B), "a.b" @int, d @deprecated("x" @optional(@default(1 @int)))}\n' + '\n'.join(DEFS) + '\n}'
    ds = ['t (@ {a 1} {a true, b x} ({a 1} @ {a 2}))\nk @\nu 1\n', 't (@ {\n  a 1\n}\n {a true}\n)\nq (@ {a 1} () {c} @off{p 1})\n', 'k\n', 'm {x {p 1}, y {q z, }}\ne {r x}\n', 'm{\n\tx {p 1\n\tq\n\t}\n}\nname 1\nab {\n}\n', '"a.b" 1\nd @\nm.x.p 1\n', 'e p>1 r>{a 1}\nt @\n', '/// doc\nq (1 {a <<E\nx\nE\n}) // c\nna\n']
    return [('@schema s.styx\n' + d, sc, list(p), 2) for d in ds for i, p in enumerate(starts('@schema s.styx\n' + d)) if i > 13]
