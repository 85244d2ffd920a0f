"""JSON values and texts for the browser bindings."""
import json, re
import gen
from common import *

STRS = ['', 'a', 'x y', '1', '-1', '007', '1.5', '1e5', '.5', '5.', '+3', 'true', 'false', 'null', 'nan', 'NaN', 'inf', '-infinity', '1e400', '-0', '0x10', '1_000', '9007199254740993', '-9007199254740992', '9223372036854775808', '123456789012345678901234567890', '@', '@a', '@a@', 'a@b', 'a.b', '.', 'a>b', '>',
        '//', '// c', 'a//b', '/// d', '#', 'r#"x"#', '"', '""', '\\', '\\n', 'a\\', "'", '<<E', '<<', 'a\nb', 'a\n', '\n', '\r\n', '\t', ' lead', 'trail ', '{', '}', '{}', '(', ')', '()', ',', ';', '=', 'a=b', ':', 'é', '𝄞', '\u2028', '\u0000', '\u0007', '\u007f', '\ufeff', '\u00a0', 'line one\nline "two"\n  three', 'E\nE\n', '$tag', '$value', 'key', 'x' * 130]
NUMS = ['0', '1', '-1', '42', '1.5', '-0.25', '1e5', '1E-7', '0.1', '1e308', '123456789', '9007199254740991', '9007199254740992', '-9007199254740993', '9223372036854775807', '18446744073709551615', '1e22', '1e20', '-1e19', '12e30', '1.5e300', '-0', '0.30000000000000004', '5e-324']


def value(r, d=0):
    """(JSON text, tuple)"""
    x = r.random()
    if x < .34 or d > 4: return string(r.choice(STRS) if r.random() < .75 else ''.join(r.choice('ab@./\\"\n{}()>,= \t#0é') for _ in range(r.randint(0, 7))))
    if x < .46:
        n = r.choice(NUMS)
        return n, ['num', [ord(c) for c in n]]
    if x < .52: return ('true', ['bool', 1]) if r.random() < .5 else ('false', ['bool', 0])
    if x < .58: return 'null', ['null']
    if x < .72:
        vs = [value(r, d + 1) for _ in range(r.choice([0, 1, 2, 3]))]
        return '[%s]' % ','.join(v[0] for v in vs), ['arr', [v[1] for v in vs]]
    if x < .84: return tagged(r, d)
    return obj(r, d)


def string(s):
    t = json.dumps(s, ensure_ascii=False)
    return t, ['str', [ord(c) for c in s]]


def pairs(r, kvs):
    return '{%s}' % ','.join('%s:%s' % (json.dumps(k), v[0]) for k, v in kvs), ['obj', [[[ord(c) for c in k], v[1]] for k, v in kvs]]


def tagged(r, d):
    name = string(r.choice(['t', 'tag', 'a-b', '_x', 'T1', 'r', 'err'] * 3 + ['', '1', 'a b', 'a.b', 'a@', '@a', 'é', 'a"b', 'r#', 'x/y', 'true']))
    if r.random() < .06: name = value(r, d + 1)
    kvs = [('$tag', name)]
    if r.random() < .75: kvs.append(('$value', value(r, d + 1)))
    if r.random() < .08: kvs.append((r.choice(['x', '$payload', '$tag2']), value(r, d + 1)))
    if r.random() < .1: r.shuffle(kvs)
    if r.random() < .04: kvs = kvs[1:]
    return pairs(r, kvs)


def obj(r, d=0):
    ks = list(dict.fromkeys(r.choice(STRS + ['a', 'b', 'name', 'k-1']) for _ in range(r.choice([0, 1, 2, 3, 5]))))
    return pairs(r, [(k, value(r, d + 1)) for k in ks])


def jsons(r, n):
    """(JSON text, tuple or bad)"""
    out = [pairs(r, [('k', string(s))]) for s in STRS] + [pairs(r, [(s, string('v')), ('b', string('w'))]) for s in STRS] + [pairs(r, [('k', (x, ['num', [ord(c) for c in x]]))]) for x in NUMS]
    out += [pairs(r, [('k', pairs(r, [('$tag', string('t')), ('$value', string(s))]))]) for s in STRS] + [pairs(r, [('k', pairs(r, [('$tag', string(s))]))]) for s in STRS]
    out += [pairs(r, [('k', ('[%s,%s]' % (a[0], b[0]), ['arr', [a[1], b[1]]]))]) for s in STRS for a in [string(s)] for b in [string('z')]]
    while len(out) < n:
        t, j = obj(r) if r.random() < .93 else value(r)
        if r.random() < .03:
            i = r.randint(0, len(t)); t = t[:i] + r.choice(['', '}', ',', '"']) + t[i + r.randint(0, 1):]
            try: json.loads(t); continue
            except ValueError: j = ['bad']
        if len(t) < 500: out.append((t, j))
    return out[:n]


def scalars(r):
    """documents of each scalar in each place"""
    out = []
    for s in STRS:
        q = '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\r', '\\r')
        for v in [q] + ([s] if re.fullmatch(r'[^\s{}()",>@=/\\]+', s) else []):
            out += ['a ' + v, 'a (%s %s)' % (v, v), 'a @t' + q, '%s 1' % v, 'a k>%s' % v]
    return out + ['a.b 1\na.c 2', 'a.b.c 1\na.b.d 2\na.e {f 1}', 'a {b.c 1, b.d 2}', 'a.b {x 1}\na.c (1 2)\nd 1', '@ 1', '@t 1', '@t@ 1', '@schema x\na 1', 'a @', 'a\nb', 'a @t{b 1}', 'a @t(1 @u)', 'a @t@', '{a 1}', '{a 1, b {c (1 2.5 x)}}', '', '// c', 'z 1\na 2\n10 3\n2 4']
