"""The types of harness/read/src/shapes.rs, for the specification, and documents near them."""
from typedocs import *
import typedocs

s_ = lambda x: ['s', cps(x)]
o_ = lambda *x: ['o', list(x)]
l_ = lambda *x: ['l', list(x)]
r_ = lambda *x: ['r', list(x)]
e_ = lambda n, *x: ['e', [cps(n), list(x)]]
b_ = lambda x: ['b', [int(x)]]
arr = lambda n, a: T('tup', s=[a] * n, x=True)
anyof = lambda *a: T('anyof', s=a)
U8, I8, I32, I64 = (INT[k] for k in ('u8', 'i8', 'i32', 'i64'))


def docs(t, /, **d):
    return {**t, 'd': [[cps(k), [cps(x) for x in v]] for k, v in d.items()]}


def merged(*rs):
    out = rec()
    for r in rs: out['f'] += r['f']; out['s'] += r['s']
    return out


SInner = rec(('a', STR, s_('')), ('b', opt(I32)))
Skips = rec(('a', STR), ('b', U8, num(0)), ('c', U8, num(0)), ('d', U8), ('e', seq(U8), l_()))
Level = enum(('very_low', 'unit', UNIT), ('high', 'unit', UNIT), ('other', 'new', U8), ('range', 'rec', rec(('lo', I8), ('hi', I8, num(3)))))
Defaults = docs(rec(('s', STR, s_('a b')), ('empty', STR, s_('')), ('o', opt(U8), o_(num(3))), ('none', opt(STR), o_()), ('inner', SInner, r_(s_('x{'), o_(num(-1)))),
                    ('level', Level, e_('very_low')), ('range', Level, e_('range', num(-2), num(9))), ('other', Level, e_('other', num(5))), ('list', seq(STR), l_(s_('p'), s_('q r'), s_('@t'))),
                    ('map', mp(seq(U8)), ['m', [[cps('k'), l_(num(1))], [cps('k l'), l_()]]]), ('f', F64, ['f', ['fin', 0, cps('15'), 1]]), ('i', I64, num(-7)), ('c', CHAR, ['c', [233]]),
                    ('t', BOOL, b_(1)), ('big', INT['u64'], num(2**64 - 1)), ('pair', tup(U8, STR), ['t', [num(1), s_('z')]]), ('lines', STR, s_('a\nb\nc')), ('quote', STR, s_('q"\\'))),
                s=['a text'], o=['two', 'lines'], t=[])
for f in Defaults['f']:
    f[1] = 'def'
pair = lambda t: rec(('x', t), ('y', opt(t)))
Generics = rec(('a', pair(STR)), ('b', pair(U8)), ('c', opt(pair(seq(BOOL)))))
Tuples = rec(('a', tup(STR, U8)), ('b', tup(U8, STR)), ('c', opt(tup(BOOL, BOOL, BOOL))))
Item1 = rec(('a', U8))
Names = rec(('x', Item1), ('y', rec(('b', STR), ('c', opt(Item1)))))
New = tup(STR)
Wraps = rec(('a', New), ('b', tup(New)), ('c', tup(U8, STR)), ('d', seq(U8)), ('e', opt(New)), ('f', mp(tup(U8, STR))))
Points = rec(('a', SInner), ('b', SInner), ('c', STR), ('d', STR), ('e', opt(U8)), ('f', seq(BOOL)))
Base = rec(('id', STR), ('n', U8, num(0)))
Middle = merged(Base, rec(('m', BOOL)))
Top = merged(Middle, rec(('t', opt(STR))))
TopMap = rec(('t', opt(STR)), flat=mp(seq(U8)))
UsesFlat = rec(('x', Top), ('y', opt(Middle)), ('z', mp(TopMap)))
KindsD = enum(('Nothing', 'unit', UNIT), ('New', 'new', tup(STR)), ('two-parts', 'tup', tup(U8, STR)), ('Deep', 'new', seq(opt(Level))), ('Obj', 'rec', rec(('a', SInner), ('b', seq(U8), l_()), ('C', opt(BOOL)))),
              ('Map', 'new', mp(ref('Kinds'))), ('Boxed', 'new', ref('Kinds')), ('Opt', 'new', opt(U8)), ('Tup', 'new', tup(U8, BOOL)), ('Unit', 'new', T('free')))
Kinds = ref('Kinds')
HasKinds = rec(('k', Kinds), ('l', opt(Level)))
LooseD = anyof(U8, STR, seq(ref('Loose')), mp(ref('Loose')))
Loose = ref('Loose')
HasLoose = rec(('a', Loose), ('b', opt(anyof(U8, seq(U8)))))
Raws = rec(('a', RAW), ('b', opt(RAW)), ('c', seq(RAW)))
TreeD = rec(('v', I32), ('left', opt(ref('Tree'))), ('kids', seq(ref('Tree')), l_()))
PingD = rec(('pong', opt(ref('Pong'))), ('name', STR))
PongD = rec(('ping', opt(ref('Ping'))), ('on', BOOL))
Odd = rec(('twoWords', U8), ('a.b', opt(STR)), ('@at', opt(STR)), ('k k', opt(U8)), ('1', opt(U8)), ('schema', opt(STR)))
AllDefault = rec(('a', U8, num(0)), ('b', STR, s_('')), ('c', opt(BOOL)))
Holds = rec(('d', AllDefault), ('e', AllDefault, r_(num(4), s_('bb'), o_())))
More = docs(rec(('a', STR), ('b', seq(U8)), ('d', opt(opt(U8))), ('e', arr(2, STR)), ('f', mp(arr(1, BOOL))), ('g', sett(U8)), ('h', mp(SInner))), a=['one', '', '  indented', 'tight'], e=[''], g=['{braces} @tag "q" // c'], b=[])
CaseD = enum(('first-one', 'unit', UNIT), ('second-one', 'rec', rec(('inner_field', U8), ('Re', opt(U8)))), ('III', 'new', seq(ref('Case'))))
Shout = docs(rec(('ONE_WORD', U8), ('low', opt(STR)), ('BY_DEFAULT', U8, num(2)), ('KIND', opt(ref('Case')))), low=['kept'], KIND=[])
result = lambda a, b: anyof(rec(('Ok', a)), rec(('Err', b)))
Res = enum(('A', 'rec', rec(('r', result(U8, STR)))), ('B', 'new', result(SInner, U8)))
Many = rec(('a', seq(STR)), ('b', sett(U8)), ('c', seq(opt(BOOL))), ('d', arr(3, U8)), ('e', seq(seq(tup(U8, SInner)))), ('f', mp(mp(opt(SInner)))), ('g', T('map', '0', '255', s=[BOOL])))
Std = rec(('a', STR), ('c', INT['i128']), ('d', INT['u64']), ('e', F32), ('f', CHAR), ('g', doc(STR)), ('h', opt(doc(U8))), ('i', keyed(doc(SInner))))
XDEFS = [[cps(n), t] for n, t in (('Kinds', KindsD), ('Case', CaseD), ('Loose', LooseD), ('Tree', TreeD), ('Ping', PingD), ('Pong', PongD))]
XNAMED = {'Kinds': KindsD, 'Case': CaseD, 'Loose': LooseD, 'Tree': TreeD, 'Ping': PingD, 'Pong': PongD}
typedocs.NAMED.update(XNAMED)
XALL = DEFS + XDEFS
SHAPES = {'Skips': Skips, 'Defaults': Defaults, 'Generics': Generics, 'Tuples': Tuples, 'Names': Names, 'Wraps': Wraps, 'Points': Points, 'Top': Top, 'Middle': Middle, 'TopMap': TopMap, 'UsesFlat': UsesFlat,
          'HasKinds': HasKinds, 'mKinds': mp(Kinds), 'mLevel': mp(Level), 'HasLoose': HasLoose, 'mLoose': mp(Loose), 'Raws': Raws, 'Tree': ref('Tree'), 'mTree': mp(ref('Tree')), 'Ping': ref('Ping'), 'Odd': Odd,
          'AllDefault': AllDefault, 'Holds': Holds, 'More': More, 'Shout': Shout, 'mCase': mp(ref('Case')), 'mRes': mp(Res), 'Many': Many, 'Std': Std, 'mNew': mp(New), 'mTwo': mp(tup(U8, STR)), 'mpp': mp(pair(pair(U8))), 'mClear': mp(seq(U8)),
          'Inner': SInner, 'Flat': merged(rec(('id', STR)), Inner), 'mFlat': mp(merged(rec(('id', STR)), Inner))}
for n in ('mstr', 'mf64', 'mbool', 'mchar', 'mostr', 'mllu8', 'mtriple', 'men', 'mmode', 'mmmstr', 'mku8', 'Conf', 'Deny', 'Def', 'Node', 'Kebab', 'Extra', 'mExtra', 'Docs', 'mLate'):
    SHAPES[n] = ALL[n]
META = {'Shout': 'What follows  a gap', 'Defaults': 'Words about it and more'}
IDS = {n: n for n in SHAPES if not n.startswith('m')}


class H(G):
    def val(self, t, d=0):
        if t['t'] == 'free': return r'@'
        if t['t'] == 'anyof':
            if self.r.random() < self.w: return self.wrong()
            ts = t['s'] if d < 4 else t['s'][:1]
            return self.val(self.r.choice(ts), d + 1)
        return super().val(t, d)


def request(tn, d):
    t = SHAPES[tn]
    return {'tn': tn, 'how': 'shape', 'doc': d, 'ty': t, 'defs': XALL, 'nm': cps(IDS.get(tn, '')), 'desc': cps(META.get(tn, ''))}


def grid():
    return [request(tn, 'k ' + v) for tn, t in SHAPES.items() if t['t'] == 'map' for v in GRID]


def random_requests(r, n):
    out = []
    names = list(SHAPES)
    while len(out) < n:
        tn = r.choice(names)
        t = SHAPES[tn]
        d = H(r, r.choice([0, 0, .02, .08])).document(t)
        if '@schema' in d: continue
        out.append(request(tn, d))
    return out
