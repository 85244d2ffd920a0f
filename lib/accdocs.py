"""Histories of operations on documents, in Rust and through the C API."""
import gen
from common import *

# documents that are small enough to hit the same places again and again
SHAPES = ['a 1\nb 2', 'a.b 1\na.c 2\nb.a (x y)', 'a.b.c 1\na.b.d {b 2}', 'a {b {c 1}}\nb (1 {a 2} (3 @t))', '@ 1\na @\nb @t', 'a (() (1 (2 3)) {b (4)})',
          '"" 1\n"a.b" 2\n"[0]" 3', 'a>1 b>2', 'a @t{b 1}\nb @t(1 2)\nc @t"x"', '@t 1\na {@ 2, @t 3}', '/// doc\na 1\n/// doc two\nb.a 2', '{a 1, b {a 2}}', '', 'a {}\nb ()', 'b.a (({a 1}) 2)\nb.b.a 3',
          'c.d.e 1\nc.d.f 2\nc.g 3', 'a {b.c 1, b.d 2}\nb ({a.b 1, a.c 2})', 'a r"x"\nb <<E\n x\n E\n', 'a {"" {"" 1}}\n"" 2', 'a "q\\n\\u{0}b"', '$ 1\n@schema {@ @a}', 'a.b @\na.c @t\na.d ()',
          'a ({"" {b 1}, b 2, a 3} {"" {"" {a 1, b 2}}, a 5})\n"" ({"" 1} {"" {b 3}, b 4})', '@t"a" 1\na 2\n@t"b" {a 1}\nb {@u"a" 2, a 3}', 'a {@u"b" {c 1}, b {@t"c" 2, @c 3, c 4}}']
KEYS = ['a', 'a', 'b', 'b', 'c', 'd', 'e', '', 'a.b', 'x', '[0]', 'é', '@', 't', 'key with space', '{', '0']
SEGS = ['a', 'b', 'c', 'd', 'e', '[0]', '[1]', '[2]', '[0]', '[1]', '', '0', 'name', '[+1]', '[01]', '[-1]', '[ 0]', '[x]', '[]', '[9]', '[99999999999999999999999]', '[18446744073709551615]', '[1', ']', '[0]x', 'a[0]', 'b[1]', 'b[0][1]', '[0][1]', '@', '"a"']
TEXTS = ['1', 'x', '', 'two words', 'q"q', '@t', '{', 'line\nline', '// c', 'é☃𝄞', '=', ' ', 'a.b', 'r#"', '<<E', 'tab\t', '\\']
TAGS = ['t', 'u', 'some', 'a-b', '_x', 'bar']


def pts(s): return [ord(c) for c in s]


def path(r):
    x = r.random()
    n = 1 if x < .35 else 2 if x < .75 else 3 if x < .92 else r.randint(0, 5)
    s = ''
    for i in range(n):
        g = r.choice(SEGS[:9]) if r.random() < .7 else r.choice(SEGS)
        s += g if i == 0 or (g.startswith('[') and r.random() < .8) else '.' + g
    if r.random() < .04: s += r.choice(['.', '..', '[', ']', ' '])
    return pts(s)


def val(r, d=2):
    x = r.random()
    if x < .2: return ['unit']
    if x < .5 or d == 0: return ['scalar', pts(r.choice(TEXTS))]
    if x < .62: return ['tag', pts(r.choice(TAGS))]
    if x < .76: return ['seq', [val(r, d - 1) for _ in range(r.randint(0, 3))]]
    if x < .9: return ['obj']
    return ['tagged', pts(r.choice(TAGS)), val(r, d - 1) if r.random() < .8 else ['unit']]


def key(r): return pts(r.choice(KEYS[:6]) if r.random() < .7 else r.choice(KEYS))


def below(r):
    """A path below an entry; often the entry itself."""
    return [] if r.random() < .45 else path(r)


def tree_op(r):
    x = r.random()
    if x < .22: return ['get', path(r)]
    if x < .32: return ['vget', path(r), below(r)]
    if x < .44: return ['set', key(r), below(r), val(r)]
    if x < .62: return ['insert', key(r), val(r)]
    if x < .78: return ['insertin', key(r), below(r), key(r), val(r)]
    if x < .82: return ['insertunit', val(r)]
    if x < .9: return ['push', key(r), below(r), val(r)]
    if x < .94: return ['has', key(r)]
    if x < .97: return ['len']
    return ['unit']


def document(r):
    x = r.random()
    if x < .5: return r.choice(SHAPES)
    if x < .9: return gen.Gen(r, maxdepth=3, weird=0, eol='\n').doc()
    return gen.frag_doc(r, 10)


def tree_history(r):
    return {'cs': pts(clean(document(r))), 'ops': [tree_op(r) for _ in range(r.randint(1, 14))]}


def all_paths(r):
    """Every path over a few steps, in one document."""
    steps = ['a', 'b', 'c', '[0]', '[1]', '']
    out = []
    for s in SHAPES:
        ps = [''] + [a for a in steps] + [a + ('' if b.startswith('[') else '.') + b for a in steps for b in steps] + [
            a + ('' if b.startswith('[') else '.') + b + ('' if c.startswith('[') else '.') + c for a in steps[:5] for b in steps[:5] for c in steps[:5]]
        out.append({'cs': pts(s), 'ops': [['get', pts(p)] for p in ps]})
    return out


def nonul(t): return [c for c in t if c != 0]


class CHistory:
    """Calls that mostly use handles that were given out, of two or three documents."""

    def __init__(self, r):
        self.r = r
        self.docs, self.vals, self.objs, self.seqs = [], [], [], []

    def slot(self, l, p=.93): return self.r.choice(l) if l and self.r.random() < p else self.r.randrange(6)

    def into(self, l):
        s = self.r.randrange(6)
        if s not in l: l.append(s)
        return s

    def op(self):
        r, x = self.r, self.r.random()
        if not self.docs or x < .06:
            d = r.randrange(3)
            if d not in self.docs: self.docs.append(d)
            return ['parse', d, nonul(pts(clean(document(r))))]
        if x < .08:
            d = self.slot(self.docs)
            if d in self.docs: self.docs.remove(d)
            return ['free', d]
        if x < .09: return ['null']
        if x < .16: return ['root', self.slot(self.docs), self.into(self.objs)]
        if x < .28: return ['dget', self.slot(self.docs), nonul(path(r)), self.into(self.vals)]
        if x < .5: return ['read', self.slot(self.vals)]
        if x < .56: return ['asobj', self.slot(self.vals), self.into(self.objs)]
        if x < .64: return ['asseq', self.slot(self.vals), self.into(self.seqs)]
        if x < .71: return ['vget', self.slot(self.vals), nonul(path(r)), self.into(self.vals)]
        if x < .74: return ['olen', self.slot(self.objs)]
        if x < .8: return ['oget', self.slot(self.objs), nonul(key(r)), self.into(self.vals)]
        if x < .85: return ['okey', self.slot(self.objs), r.choice([0, 0, 1, 1, 2, 3, 50]), self.into(self.vals)]
        if x < .91: return ['oval', self.slot(self.objs), r.choice([0, 0, 1, 1, 2, 3, 50]), self.into(self.vals)]
        if x < .94: return ['slen', self.slot(self.seqs)]
        return ['sget', self.slot(self.seqs), r.choice([0, 0, 1, 1, 2, 3, 50]), self.into(self.vals)]


def walk(doc, depth=4):
    """Everything in a document, found by index, and asked about."""
    ops = [['parse', 0, nonul(pts(doc))], ['root', 0, 0], ['olen', 0]]

    def value(d):
        ops.append(['read', d])
        if d >= depth: return
        ops.extend([['asobj', d, d], ['olen', d]])
        for i in range(3):
            ops.extend([['okey', d, i, 40], ['read', 40], ['oval', d, i, d + 1]])
            value(d + 1) if d < 2 else ops.append(['read', d + 1])
        ops.extend([['asseq', d, d], ['slen', d]])
        for i in range(3):
            ops.append(['sget', d, i, d + 1])
            value(d + 1) if d < 2 else ops.append(['read', d + 1])
    for i in range(4):
        ops.extend([['okey', 0, i, 40], ['read', 40], ['oval', 0, i, 1]])
        value(1)
    return {'ops': ops + [['free', 0], ['read', 1], ['olen', 0]]}


def words(op):
    return [op[0]] + [''.join(map(chr, x)) if isinstance(x, list) and all(isinstance(y, int) for y in x) else x for x in op[1:]]


def check_histories(ctx, binary, module, request, recs, label, findings=()):
    recs = [dict(r, id=i) for i, r in enumerate(recs)]
    outs = run_harness(binary, [request], recs, ctx.tmp)
    ctx.traces += len(recs)
    ctx.count('histories_' + label.replace(' ', '_'), len(recs))
    ctx.count('operations', sum(len(r['ops']) for r in recs))
    seen = set()
    for m in tlc_records(module, outs, ctx):
        if (m['id'], m['kind']) in seen: continue
        seen.add((m['id'], m['kind']))
        if m['kind'] in findings and ctx.finding(findings[m['kind']]): continue
        r = recs[m['id']]
        d = ''.join(map(chr, r.get('cs', [])))
        ctx.violation('%s: %s on %r: expected %s got %s' % (label, m['kind'], d[:120], str(show(m['exp']))[:200], str(show(m['got']))[:200]),
                      {'module': module, 'request': request, 'record': r, 'document': d, 'operations': [words(o) for o in r['ops']], 'expected': show(m['exp']), 'observed': show(m['got'])})
    for r in recs[:2]: ctx.samples.append({'from': label, 'operations': [str(words(o)) for o in r['ops'][:8]]})
