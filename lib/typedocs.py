"""The types of harness/read, for the specification, and documents near them."""
import gen
from common import *

cps = lambda s: [ord(c) for c in s]


def T(t, lo='', hi='', s=(), f=(), d=(), x=False):
    return {'t': t, 'lo': cps(lo), 'hi': cps(hi), 's': list(s), 'f': [list(q) for q in f], 'd': list(d), 'x': x}


UNIT = T('none')
STR, BOOL, CHAR, RAW = T('str'), T('bool'), T('char'), T('raw')
F64, F32 = T('float'), T('float', x=True)
INT = {}
for b in (8, 16, 32, 64, 128):
    INT['i%d' % b] = T('int', str(-2**(b - 1)), str(2**(b - 1) - 1))
    INT['u%d' % b] = T('int', '0', str(2**b - 1))
opt = lambda a: T('opt', s=[a])
seq = lambda a: T('seq', s=[a])
sett = lambda a: T('set', s=[a])
tup = lambda *a: T('tup', s=a)
mp = lambda a: T('map', s=[a])
doc = lambda a: T('doc', s=[a])
keyed = lambda a: T('map', s=[a], x=True)
ref = lambda n: T('ref', n)


def rec(*fs, deny=False, flat=None):
    """fields (name, type) or (name, type, default)"""
    out = []
    for f in fs:
        if len(f) == 3: out.append([cps(f[0]), 'def', f[1], f[2]])
        elif f[1]['t'] == 'opt': out.append([cps(f[0]), 'opt', f[1], []])
        else: out.append([cps(f[0]), 'req', f[1], []])
    return T('rec', f=out, x=deny, s=[flat] if flat else [])


def enum(*vs):
    return T('enum', f=[[cps(n), k, t, []] for n, k, t in vs])


EMPTYL, EMPTYM = ['l', []], ['m', []]
num = lambda n: ['n', cps(str(n))]
Inner = rec(('a', STR), ('b', opt(INT['i32'])))
Mode = enum(('fast', 'unit', UNIT), ('slow', 'unit', UNIT), ('level', 'new', INT['u8']))
Conf = rec(('name', STR), ('port', INT['u16']), ('on', BOOL, ['b', [0]]), ('tags', seq(STR), EMPTYL), ('inner', opt(Inner)), ('env', mp(STR), EMPTYM), ('mode', opt(Mode)))
En = enum(('Unit', 'unit', UNIT), ('Text', 'new', STR), ('Num', 'new', INT['i64']), ('Pair', 'tup', tup(STR, INT['u8'])), ('Rec', 'rec', rec(('a', STR), ('b', opt(INT['i32'])))),
          ('List', 'new', seq(INT['u8'])), ('Sub', 'new', Inner), ('Map', 'new', mp(BOOL)), ('Nest', 'new', Mode), ('Opt', 'new', opt(Mode)))
Deny = rec(('v', INT['u8']), ('w', opt(STR)), deny=True)
Def = rec(('v', INT['u8'], num(0)), ('w', INT['u8'], num(7)), ('l', seq(INT['i8']), EMPTYL), ('m', mp(INT['u8']), EMPTYM), ('o', opt(seq(STR))))
NodeD = rec(('name', STR), ('kids', seq(ref('Node')), EMPTYL), ('named', mp(ref('Node')), EMPTYM))
Node = ref('Node')
Kebab = rec(('max-conns', INT['u32']), ('X y', opt(STR)), ('is-on', opt(BOOL)))
Flat = rec(('id', STR), flat=Inner)
Extra = rec(('id', STR), flat=mp(STR))
AnyD = T('untagged', '0', '255', s=[seq(ref('Any')), mp(ref('Any'))])
Any = ref('Any')
Docs = rec(('a', doc(STR)), ('b', opt(doc(INT['u8']))), ('c', doc(seq(STR))))
Late = rec(('a', INT['i64']), ('b', STR), ('c', opt(STR)), ('d', doc(INT['i64'])), ('e', seq(doc(STR)), EMPTYL), ('f', opt(Inner)), ('g', opt(doc(STR))), ('h', opt(ref('Late'))), ('i', mp(ref('Late')), EMPTYM))
DEFS = [[cps('Late'), Late], [cps('Node'), NodeD], [cps('Any'), AnyD]]
NAMED = {'Late': Late, 'Node': NodeD, 'Any': AnyD}

BOTH = {'str': STR, 'f64': F64, 'bool': BOOL, 'char': CHAR, 'mstr': mp(STR), 'mf64': mp(F64), 'mbool': mp(BOOL), 'mchar': mp(CHAR), 'mostr': mp(opt(STR)), 'moi32': mp(opt(INT['i32'])),
        'mlstr': mp(seq(STR)), 'mli64': mp(seq(INT['i64'])), 'mlostr': mp(seq(opt(STR))), 'mllu8': mp(seq(seq(INT['u8']))), 'mpair': mp(tup(STR, INT['i64'])), 'mtriple': mp(tup(INT['u8'], seq(STR), BOOL)),
        'mmstr': mp(mp(STR)), 'mmlu8': mp(mp(seq(INT['u8']))), 'mmmstr': mp(mp(mp(STR))), 'men': mp(En), 'mmode': mp(Mode), 'mlen': mp(seq(En)), 'minner': mp(Inner), 'mlinner': mp(seq(Inner)),
        'moinner': mp(opt(Inner)), 'mbox': mp(Inner), 'marr': mp(tup(INT['u8'], INT['u8'])), 'mset': mp(sett(STR)), 'mku8': mp(T('map', '0', '255', s=[STR])),
        'Inner': Inner, 'Conf': Conf, 'Deny': Deny, 'Def': Def, 'Node': Node, 'Kebab': Kebab, 'mConf': mp(Conf), 'mNode': mp(Node), 'mDeny': mp(Deny), 'mDef': mp(Def)}
for n in list(INT):
    if '128' not in n: BOTH[n] = INT[n]; BOTH['m' + n] = mp(INT[n])
FACET = {'i128': INT['i128'], 'u128': INT['u128'], 'mi128': mp(INT['i128']), 'mu128': mp(INT['u128']), 'mf32': mp(F32), 'Flat': Flat, 'Extra': Extra, 'mFlat': mp(Flat), 'mExtra': mp(Extra),
         'many': mp(Any), 'mraw': mp(RAW), 'Docs': Docs, 'mdoc': mp(doc(STR)), 'kstr': keyed(STR), 'kinner': keyed(Inner), 'mkstr': mp(keyed(STR)), 'klen': keyed(seq(En)), 'kkmode': keyed(keyed(Mode)), 'mLate': mp(Late), 'mlLate': mp(seq(Late)), 'mmf64': mp(mp(F64))}
ALL = {**BOTH, **FACET}

WORDS = ['x', 'hello', '"a b"', '""', 'é', '"q\\"q"', 'true', '"\\n"', 'r#"x"#', 'r"a b"', '"@t"', '"1"', '1', 'null', '𝄞', 'a/b', '-', '"\\u{e9}"', 'fast', 'Unit']
FLOATS = ['0', '0.0', '-0.0', '1', '1.5', '-1.5', '2.50', '0.5', '.5', '5.', '01.5', '1e3', '1E-2', '1e', '1e+', '-273.15', 'NaN', 'nan', 'inf', '-inf', 'Infinity', '+1.5', '1.0e2', '99.999', '100', '00', '-', '.', '1_0', '0x1', '"2.5"', '123456', '3.14159', '1e20', '6.02e23']
CHARS = ['x', 'é', '𝄞', '"x"', '" "', '"\\n"', '"ab"', 'ab', '""', '1', '"\\u{1f600}"', 'r"q"']
KEYS = ['a', 'b', 'k', 'é', '"q q"', '"a.b"', 'r"z"', 'name', '1', 'true', 'k-1', '"\\n"', 'X', '_']


class G:
    def __init__(self, r, w=.04, plain=False):
        self.r, self.w, self.plain = r, w, plain

    def wrong(self):
        if self.plain: return self.r.choice(['1', 'x', '()', '{}', '(1 x)', '{a 1}', '"a b"', 'true', '@Unit', '-2', '0.5', '@level"5"', '256', '@Rec{a x}', '@Nope', '((1))', '@Pair(a 1)', '@Text"q"'])
        return self.r.choice(['1', 'x', '@', '()', '{}', '@t', '(1 x)', '{a 1}', '@Text"q"', '"a b"', 'true', '@x"1"', '@Unit', 'a>1', '@Unit@', '-2', '0.5', '{@ 1}', '@some(1)', '@level"5"', '<<E\nx\nE\n', '256', '@Rec{a x}', '@Nope', '((1))', '{@t 1}', '@Pair(a 1)', '@a/@Unit'])

    def str(self):
        r = self.r
        if r.random() < .12: return gen.Gen(r).heredoc() + '\n'
        return r.choice(WORDS)

    def int(self, t):
        r = self.r
        lo, hi = int(''.join(map(chr, t['lo']))), int(''.join(map(chr, t['hi'])))
        x = r.random()
        if x < .5: s = str(r.choice([0, 1, 5, 7, hi, lo, hi - 1, lo + 1 if lo else 2]))
        elif x < .65 and self.w: s = str(r.choice([hi + 1, lo - 1, hi * 2 + 1, 10 * hi]))
        elif x < .8: s = str(r.randint(lo, hi))
        elif x < .9: s = r.choice(['+1', '007', '-0', '0005', '"3"', 'r"4"', '+0', '"007"'])
        elif self.w: s = r.choice(['1.0', '1e3', '--1', '-', '+', '1_0', '0x1', '""', '" 1"', '"1 "', 'x', '１', '+-1', '-007', '1-', '"-"'])
        else: s = '3'
        return s

    def val(self, t, d=0):
        r = self.r
        if r.random() < self.w: return self.wrong()
        k = t['t']
        if k == 'ref': return self.val(NAMED[''.join(map(chr, t['lo']))], d)
        if k in ('str', 'raw'): return self.str() if k == 'str' else self.anyv(d)
        if k == 'int': return self.int(t)
        if k == 'float': return r.choice(['0', '1.5', '-2.25', '100']) if self.plain else r.choice(FLOATS)
        if k == 'bool': return r.choice(['true', 'false']) if self.plain or r.random() < .7 else r.choice(['"true"', 'True', 'yes', '1', 'r"false"'])
        if k == 'char': return r.choice(['x', 'é', '"x"']) if self.plain else r.choice(CHARS)
        if k in ('opt', 'doc'): return '@' if k == 'opt' and r.random() < .06 else self.val(t['s'][0], d)
        if k in ('seq', 'set'):
            return self.list([self.val(t['s'][0], d + 1) for _ in range(r.choice([0, 1, 2, 2, 3, 5]) if d < 4 else 0)])
        if k == 'tup':
            items = [self.val(s, d + 1) for s in t['s']]
            if r.random() < self.w: items = items[1:]
            if r.random() < self.w: items.append('x')
            return self.list(items)
        if k in ('map', 'rec'):
            if k == 'rec' and not self.plain and r.random() < .12: a = self.attrs(t, d)
            else: a = None
            return a or self.braces(self.entries(t, d + 1))
        if k == 'enum':
            n, kind, p, _ = r.choice(t['f'])
            n = ''.join(map(chr, n))
            if kind == 'unit': return r.choice(['@' + n, '@' + n, n]) if not self.plain else '@' + n
            v = self.val(p, d + 1)
            if v[:1] == '@' and r.random() < .8: return '@' + n + ('/' if v[1:] else '') + v
            if v[:1] in '({"@' or v[:2] in ('r"', 'r#'): return '@' + n + v
            if v[:2] == '<<': return '@' + n + v
            return '@%s"%s"' % (n, v) if '>' not in v else '@%s{}' % n
        if k == 'untagged':
            x = r.random()
            if x < .4: return self.int(INT['u8'])
            if x < .6: return self.str()
            if d > 3: return '1'
            if x < .8: return self.list([self.val(t, d + 1) for _ in range(r.randint(0, 3))])
            return self.braces(self.entries(mp(t), d + 1))
        raise KeyError(k)

    def anyv(self, d):
        r = self.r
        if self.plain: return r.choice(['x', '"a b"', '1', '(1 2)', '(a "b c" (d))', '{a 1, b {c 2}}', '@t', '@t{a 1}', '@t(x)', '@t"p"', 'r#"q"#', '()', '{}', '{\n a 1 // c\n}', 'é', '{é "é"}', '<<E\nx\nE\n', '@'])
        return r.choice(['x', '"a b"', '1', '(1 2)', '(a "b c" (d))', '{a 1, b {c 2}}', '@t', '@t{a 1}', '@t(x)', '@t"p"', '@t@', 'r#"q"#', '()', '{}', '{\n a 1 // c\n}', '{a>1}', '@', '(1 // c\n2)', 'a>1 b>2', '@u/@v"x"', 'é', '{é "é"}', '<<E\nx\nE\n'])

    def list(self, items):
        r = self.r
        multi = any('<<' in x for x in items) or r.random() < .15
        out = '('
        for i, x in enumerate(items):
            out += '\n' if multi else (' ' if i else r.choice(['', '', ' ']))
            if multi and r.random() < .15: out += '// c\n'
            out += x
        if multi and items and not items[-1].endswith('\n'): out += r.choice(['\n', ''])
        return out + ')'

    def attrs(self, t, d):
        es = [(k, v) for k, v in self.pairs(t, d + 1) if v and k[:1] not in '@"' and not k.startswith('r"') and '.' not in k and '<<' not in v and '>' not in v.split('{')[0].split('(')[0].split('"')[0]]
        return ' '.join('%s>%s' % e for e in es) if es else None

    def pairs(self, t, d):
        """(key, value) pairs for an object of the type"""
        r = self.r
        if t['t'] == 'ref': t = NAMED[''.join(map(chr, t['lo']))]
        out = []
        if t['t'] == 'map':
            n = r.choice([0, 1, 1, 2, 3]) if d < 5 else 0
            ks = [str(r.choice([0, 1, 7, 255, 256 if self.w else 9, 34])) for _ in range(n)] if t['lo'] else r.sample(['a', 'b', 'k', 'name', 'x1', 'é', '"q q"', 'r"z"', '1', 'true', 'k-1', '"\\n"'] if self.plain else KEYS, n)
            for k in dict.fromkeys(ks): out.append((k, self.val(t['s'][0], d)))
        else:
            fs = [(f, t) for f in t['f']]
            for s in t['s']: out += self.pairs(s, d)
            for (n, kind, ft, _), _ in fs:
                x = r.random()
                if x < (self.w if kind == 'req' else .4): continue
                n = ''.join(map(chr, n))
                if any(c in n for c in ' .@'): n = '"%s"' % n
                elif not self.plain and r.random() < .08: n = '"%s"' % n
                out.append((n, self.val(ft, d)))
            if r.random() < self.w * 3: out.append((r.choice(['zz', 'nme', 'Port', '"u u"', 'X'] + ([] if self.plain else ['@t', '@', 'a.zz'])), self.wrong() if r.random() < .5 else self.anyv(d)))
        if r.random() < .1: out = [(k, '' if r.random() < .5 else v) for k, v in out]
        seen, res = set(), []
        for k, v in out:
            c = k[1:-1] if k[:1] == '"' else k
            if c in seen and r.random() > self.w: continue
            seen.add(c); res.append((k, v))
        r.shuffle(res)
        return res

    def entries(self, t, d):
        """Texts of entries; objects may be spread over dotted siblings"""
        r = self.r
        tt = NAMED[''.join(map(chr, t['lo']))] if t['t'] == 'ref' else t
        out = []
        for k, v in self.pairs(t, d):
            sub = None
            if not self.plain and k[:1] not in '@' and not k.startswith('r"') and r.random() < .35:
                sub = self.sub(tt, k)
            if sub and d < 5:
                ents = [e for e in self.entries(sub, d + 1)]
                ents = [e for e in ents if e[:1] not in '@/{(' and not e.startswith('r"') and '>' not in e.split(' ')[0]]
                if ents:
                    for e in ents: out.append(k + '.' + e)
                    continue
            out.append((k + ' ' + v) if v else k)
        return out

    def sub(self, t, k):
        """The object type under a key, if it is one"""
        k = k.strip('"')
        s = None
        if t['t'] == 'map': s = t['s'][0]
        elif t['t'] == 'rec':
            for n, kind, ft, _ in t['f']:
                if ''.join(map(chr, n)) == k: s = ft
        while s and s['t'] in ('opt', 'doc', 'ref'): s = NAMED[''.join(map(chr, s['lo']))] if s['t'] == 'ref' else s['s'][0]
        return s if s and s['t'] in ('map', 'rec') else None

    def braces(self, es):
        r = self.r
        if any('\n' in e for e in es) or r.random() < .2:
            return '{' + self.lines(es) + r.choice(['', ' ']) + '}'
        return r.choice(['{%s}', '{%s}', '{ %s }'] if es else ['{%s}']) % ', '.join(es)

    def lines(self, es):
        r = self.r
        out = '\n'
        for e in es:
            x = r.random()
            if x < .06: out += '// note\n'
            elif x < .16: out += '/// doc ' + r.choice(['a', 'é', '{']) + '\n' + r.choice(['', '', '', '', '', '///more\n', '///\n', '///\n/// b\n', '/// \n///  c\n'])
            elif x < .2: out += '\n'
            out += e
            if not e.endswith('\n') and '<<' not in e[-8:] and r.random() < .06: out += ' // end'
            if not e.endswith('\n'): out += '\n'
        return out

    def document(self, t):
        r = self.r
        tt = t
        if t['t'] not in ('map', 'rec', 'ref'): return r.choice(['x', '', '1', '{}'])
        es = self.entries(t, 0)
        if r.random() < .12: es.insert(r.randint(0, len(es)), r.choice([x for x in ['@schema x', '@schema "a b.styx"', '@schema @', '@schema', '@schema {id a, cli b}', '@schema {a {b c}, d (1 2 {e f})}', '@schema (a (b) {c d})', '@schema @t{a 1}', '@schema @t(1 2)', '@schema @t', '@schema a>1 b>(x)', '@schema {\n// c\na 1\n/// d\nb 2\n}', '@schema @a@', '@schema <<E\nq\nE\n'] if not (self.plain and '>' in x)]))
        if r.random() < .12: return self.braces(es)
        return self.lines(es)[1:]


def request(tn, how, d):
    return {'tn': tn, 'how': how, 'ty': ALL[tn], 'defs': DEFS, 'doc': d}


def random_requests(r, n):
    names = list(ALL)
    out = []
    for _ in range(n):
        tn = r.choice(names)
        t = ALL[tn]
        g = G(r, r.choice([0, 0, .03, .12]))
        if r.random() < .2: out.append(request(tn, 'expr', (g.val(t) if t['t'] not in ('rec', 'map', 'ref') or r.random() < .3 else g.braces(g.entries(t, 1)))))
        elif tn == 'mstr' and r.random() < .5: out.append(request(tn, 'borrow', g.document(t)))
        else:
            if t['t'] not in ('rec', 'map', 'ref'): tn = 'm' + tn; t = ALL[tn]
            d = g.document(t)
            if r.random() < .06: d = gen.mutate(r, d)
            out.append(request(tn, 'facet', d))
    return out


def serde_requests(r, n):
    names = list(BOTH)
    out = []
    for _ in range(n):
        tn = r.choice(names)
        if ALL[tn]['t'] not in ('rec', 'map', 'ref'): tn = 'm' + tn
        out.append(request(tn, 'serde', G(r, r.choice([0, 0, .03, .1]), plain=True).document(ALL[tn])))
    return out


GRID = list(dict.fromkeys(WORDS + FLOATS + CHARS + ['()', '(1)', '(x 1)', '("" "")', '((1) ())', '{}', '{a 1}', '{a x, b 1}', '{a {b c}}', '{a.b c}', '{name q}', '{v 1}', '{v 1, w x, z 2}', '{1 x}', '{256 x}',
    '@fast', '@level(1)', '@level"5"', '@level"256"', '@Text"x"', '@Text(x)', '@Num"-5"', '@Pair(x 1)', '@Pair(x)', '@Pair(x 1 2)', '@Rec{a x}', '@Rec{b 1}', '@List(1 2)', '@List()', '@Sub{a x}', '@Map{k true}', '@Map{k 1}',
    '@Nest@fast', '@Nest/@fast', '@Opt/@level"3"', '@Opt', '@Unit', '@Unit()', '@Nope', '@unit', '(@fast @slow)', '(@Unit @Text"q")', '-1', '127', '128', '-128', '-129', '255', '256', '32767', '32768', '-32769', '65535', '65536',
    '2147483647', '2147483648', '-2147483649', '4294967295', '4294967296', '9223372036854775807', '9223372036854775808', '-9223372036854775808', '-9223372036854775809', '18446744073709551615', '18446744073709551616',
    '170141183460469231731687303715884105727', '170141183460469231731687303715884105728', '-170141183460469231731687303715884105728', '340282366920938463463374607431768211455', '340282366920938463463374607431768211456',
    '+1', '+-1', '007', '"-3"', 'a>1', 'a>x b>1', 'a>(1 2)', '<<E\nx\nE\n', '<<E\n1\nE\n', '(1 2 3)', '(// c\n1)', '(true false)', '{// c\na x\n}', '{/// d\na x\n}', '{"a" x}', '{a x, a y}']))


def grid():
    out = [request(tn, 'facet', 'k ' + v) for tn, t in ALL.items() if t['t'] == 'map' for v in GRID]
    return out + [request(tn, 'expr', v) for tn, t in ALL.items() if not tn.startswith('m') for v in GRID]


def serde_dotted_probes():
    return [request(tn, 'serde', d) for tn, d in [('mmstr', 'a.b x'), ('mstr', 'a.b x'), ('Conf', 'name x\nport 1\ninner.a y'), ('mmstr', 'a.b x\na.c y'), ('Inner', 'a x\nzz.b y\nzz.c z')]]


def serde_attr_probes():
    return [request(tn, 'serde', d) for tn, d in [('mmstr', 'k a>x b>y'), ('mInner', 'k a>x'), ('mlinner', 'k (a>x)'), ('men', 'k @Text"x"\nj @Rec{a x}'), ('Inner', 'a x\nzz a>1 b>2'), ('men', 'k @Sub{a x}'), ('Conf', 'name x\nport 1\ninner a>y b>1')] if tn in ALL]


def unit_probes():
    """What a written unit is refused as (the listed finding)"""
    return [request(tn, 'unit', d) for tn, d in [('mostr', 'k @'), ('moi32', 'k @'), ('moinner', 'k @\nj {a x}'), ('Inner', 'a x\nb @'), ('Conf', 'name x\nport 1\nmode @'), ('mlostr', 'k (a @ b)'), ('men', 'k @Rec{a x, b @}'), ('Def', 'o @')]]


def write_requests(r, how, n):
    pool = [t for t in (BOTH if how == 'swrite' else ALL)] + ([] if how == 'swrite' else ['mLate', 'mlLate', 'Docs', 'klen', 'mkstr'] * 2)
    out = []
    while len(out) < n:
        tn = r.choice(pool)
        t = ALL[tn]
        g = G(r, r.choice([0, 0, .01]), plain=how == 'swrite')
        if how == 'wexpr': d = g.val(t) if t['t'] not in ('rec', 'map', 'ref') else g.braces(g.entries(t, 1))
        else:
            if t['t'] not in ('rec', 'map', 'ref'): tn = 'm' + tn; t = ALL[tn]
            d = g.document(t)
        if 'raw' in tn and '<<' in d: continue      # see raw_heredoc_probes
        out.append(request(tn, how, d))
    return out


TEXTS = ['', ' ', 'x', 'a b', 'true', '1', '-1.5', '@', '@t', '{', '}', '(', ')', ',', 'a,b', 'a>b', '>', '//', '/', 'a//b', '///', '<<', '<<E', 'a<<E', 'r"', 'r#"', 'r"x"', 'r', '"', 'a"b', '\\', 'a\\b', '\\n', '\n', 'a\n', '\na', 'a\nb', 'a\nb\nc', 'a\nb\nc\n', '\n\n', ' a\n b\n', '  a\n\n b',
    'a\tb', '\t', '\r', 'a\r\nb', '\u0000', '\u001b', '\u007f', '\u00a0', '\u00e9', '\u2028', '\ufeff', '\U0001d11e', '=', 'a=b', '#', 'a#b', '"#', '"##', '""""', '"a"b"c"d"', '"a"#b"c"d"', '"""""#', '\\\\\\\\', 'EOF', 'EOF\nEOF\nx', 'a\n EOF\nb\nc', 'E\n\nE\n\n', 'null', 'a.b', '.', '..', 'a.', '.a', '-', '--', '_', ':', ';', "'", '`', '$', '%', '&', '*', '!', '?', '~', '|', '^', '[', ']', '<', 'a<b', 'é.b', 'a\u200bb', '@a/@b', 'a@b', 'x' * 90, 'x y ' * 25, 'a\n' * 9]


def quoted(t):
    out = ''
    for c in t:
        o = ord(c)
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c) or (c if o >= 32 else '\\u{%x}' % o)
    return '"%s"' % out


def text_requests(how):
    """Every text of a list as a value, a key, in a list, as a payload and in an object, for the writers"""
    out = []
    add = lambda tn, d: out.append(request(tn, how, d))
    for t in TEXTS:
        q = quoted(t)
        add('mstr', 'k ' + q); add('mstr', q + ' x'); add('mlstr', 'k (x %s %s)' % (q, q)); add('mmstr', 'a {k %s, %s l}' % (q, q)); add('mostr', 'k ' + q)
        add('men', 'k @Text%s\nl @Rec{a %s, b 1}\nm @Pair(%s 3)' % (q, q, q)); add('Conf', 'name %s\nport 1\ntags (%s %s)\ninner {a %s}' % (q, q, q, q)); add('mmmstr', '%s {%s {%s %s}}' % (q, q, q, q))
        if len(t) == 1: add('mchar', 'k ' + q)
    return out


def raw_heredoc_probes():
    return [request('mraw', 'write', d) for d in ('k <<E\nx\nE\n', 'a 1\nk <<E\nx\nE\nz 2')] + [request('mraw', 'wexpr', '{k <<E\nx\nE\n}'), request('mraw', 'wexpr', '{k @t<<E\nx\nE\n}')]
