"""C03: duplicate keys, reopened paths and nesting into plain values."""
import itertools
from common import *


def seg(form, tag='', text=''):
    return [form, [ord(c) for c in tag], [ord(c) for c in text]]


# key source, its segments
KEYFORMS = [('a', [seg('s', '', 'a')]), ('"a"', [seg('s', '', 'a')]), ('r"a"', [seg('s', '', 'a')]), ('"\\u0061"', [seg('s', '', 'a')]),
            ('b', [seg('s', '', 'b')]), ('@', [seg('u')]), ('"@"', [seg('s', '', '@')]), ('@a', [seg('t', 'a')]), ('"@a"', [seg('s', '', '@a')]),
            ('@a"x"', [seg('ts', 'a', 'x')]), ('@a"y"', [seg('ts', 'a', 'y')]), ('@b"x"', [seg('ts', 'b', 'x')]), ('@a@', [seg('tu', 'a')]),
            ('@ar"x"'[:2] + 'r#"x"#', [seg('ts', 'a', 'x')]), ('a.b', [seg('s', '', 'a'), seg('s', '', 'b')]), ('"a.b"', [seg('s', '', 'a.b')]),
            ('a.c', [seg('s', '', 'a'), seg('s', '', 'c')]), ('a.b.c', [seg('s', '', x) for x in 'abc']), ('é', [seg('s', '', 'é')]), ('""', [seg('s', '', '')])]
# keys that are nearly the same and are not, and some that are in spite of their look
NEAR = [('a', 'a'), ('A', 'A'), ('" a"', ' a'), ('"a "', 'a '), ('"a\\n"', 'a\n'), ('"a\\t"', 'a\t'), ('aa', 'aa'), ('"a\\\\"', 'a\\'), ('r"a\\"', 'a\\'), ('e\u0301', 'e\u0301'), ('é', 'é'), ('É', 'É'),
        ('"\\u{e9}"', 'é'), ('"\\u00e9"', 'é'), ('a-b', 'a-b'), ('a_b', 'a_b'), ('"a b"', 'a b'), ('"a  b"', 'a  b'), ('1', '1'), ('01', '01'), ('"1"', '1'), ('1e0', '1e0'), ('k' * 40, 'k' * 40), ('k' * 39 + 'j', 'k' * 39 + 'j'),
        ('"' + 'k' * 40 + '"', 'k' * 40), ('"\\u{0}"', '\0'), ('""', ''), ('r#"a"#', 'a'), ('"a\\u{20}"', 'a '), ('𝄞', '𝄞'), ('ß', 'ß'), ('ss', 'ss'), ('true', 'true'), ('"true"', 'true'), ('a/b', 'a/b'), ('"{"', '{'), ("r", 'r'), ('a#', 'a#')]
NEAR = [(k, [seg('s', '', v)]) for k, v in NEAR] + [('@A', [seg('t', 'A')]), ('@a', [seg('t', 'a')]), ('@a" x"', [seg('ts', 'a', ' x')]), ('@a"x"', [seg('ts', 'a', 'x')]), ('@a""', [seg('ts', 'a', '')]), ('@a@', [seg('tu', 'a')]),
                                                  ('@a"X"', [seg('ts', 'a', 'X')]), ('@aa', [seg('t', 'aa')]), ('@a_', [seg('t', 'a_')])]


def dotted(names):
    return ('.'.join(names), [seg('s', '', x) for x in names])


def render(hist, where, rng):
    """Document text of a history and the records of its entries."""
    out, ents = '', []
    pre, sep, post = {'root': ('', '\n', ''), 'explicit': ('{', ', ', '}'), 'explicit lines': ('{\n', '\n', '\n}'),
                      'nested': ('k {', '\n', '}'), 'in sequence': ('k (x {', ', ', '})'), 'in tag': ('k @t{', ', ', '}'),
                      'attributes': ('k ', ' ', ''), 'deep': ('k.j {l (@ {m {', '\n', '}})}')}[where]
    out = pre
    for i, ((src, segs), kind) in enumerate(hist):
        if i: out += sep
        ents.append({'path': segs, 'kind': kind, 'span': [len(out), len(out) + len(src)]})
        if where == 'attributes':
            out += src + '>' + ('{x 1}' if kind == 'Object' else rng.choice(['1', '@', '(1)']))
        elif kind == 'Object':
            out += src + rng.choice([' {}', ' {z 1}', ' p>1'])
        else:
            out += src + rng.choice(['', ' 1', ' @', ' (1)', ' "x"', ' @u', ' @u{x 1}', ' {y 1}'[:0] or ' v'])
    return out + post, ents


def check(ctx):
    tlc_model('MCPath', ctx, cfg='MCPath' if not ctx.thorough else 'MCPathDeep')
    h = build_harness()
    kinds = ['Object', 'Terminal']
    paths = [dotted(p) for k in (1, 2, 3) for p in itertools.product('ab', repeat=k)]
    forms = [(f, k) for f in KEYFORMS for k in kinds]
    plain = [(p, k) for p in paths for k in kinds]
    simple = [f for f in KEYFORMS if len(f[1]) == 1 and f[1][0][0] == 's' and f[0].isalpha()] + [dotted('c'), dotted('d')]
    cases = []

    def add(hist, where):
        cases.append((hist, where))
    for h2 in itertools.product(plain, repeat=2):
        for w in ('root', 'explicit', 'nested', 'in tag'): add(h2, w)
    for h2 in itertools.product(forms, repeat=2):
        for w in ('root', 'nested'): add(h2, w)
    h3 = list(itertools.product(plain, repeat=3))
    if ctx.thorough:
        for x in h3:
            for w in ('root', 'explicit lines', 'nested'): add(x, w)
    else:
        for x in ctx.rng.sample(h3, 5000): add(x, ctx.rng.choice(['root', 'root', 'explicit', 'nested', 'deep', 'in sequence']))
    wheres = ['root', 'explicit', 'explicit lines', 'nested', 'in sequence', 'in tag', 'deep']
    for _ in range(ctx.pick(4000, 60000)):
        pool = ctx.rng.choice([plain, forms, forms + plain])
        add([ctx.rng.choice(pool) for _ in range(ctx.rng.randint(3, 8))], ctx.rng.choice(wheres))
    wide = [(dotted([ctx.rng.choice('abcdefgh') for _ in range(ctx.rng.randint(1, 4))]), k) for k in kinds for _ in range(40)]
    for _ in range(ctx.pick(300, 3000)):
        add([ctx.rng.choice(wide) for _ in range(ctx.rng.randint(8, 24))], ctx.rng.choice(wheres))
    for _ in range(ctx.pick(600, 4000)):
        add([(ctx.rng.choice(simple), ctx.rng.choice(kinds)) for _ in range(ctx.rng.randint(1, 7))], 'attributes')
    near = [(f, k) for f in NEAR for k in kinds]
    for x in itertools.product(NEAR, repeat=2):
        add([(x[0], 'Terminal'), (x[1], 'Terminal')], ctx.rng.choice(['root', 'nested', 'explicit lines']))
    for _ in range(ctx.pick(1500, 20000)):
        add([ctx.rng.choice(near) for _ in range(ctx.rng.randint(3, 9))], ctx.rng.choice(['root', 'explicit lines', 'nested', 'in tag']))
    # long paths, each near the ones before it
    for _ in range(ctx.pick(3000, 40000)):
        hist, prev = [], [[]]
        for _ in range(ctx.rng.randint(2, 7)):
            base = ctx.rng.choice(prev[-3:])
            x = ctx.rng.random()
            q = base[:ctx.rng.randint(max(0, len(base) - 3), len(base))] + [ctx.rng.choice('abc') for _ in range(ctx.rng.randint(0 if x < .3 and base else 1, 6 if x < .2 else 2))]
            q = (q or ['a'])[:10]
            if base and ctx.rng.random() < .25:
                q = list(base); q[ctx.rng.randrange(len(q))] = ctx.rng.choice('abc')
            prev.append(q)
            hist.append((dotted(q), ctx.rng.choice(kinds)))
        add(hist, ctx.rng.choice(['root', 'root', 'explicit lines', 'nested', 'in tag', 'deep']))
    recs, docs = [], []
    for i, (hist, where) in enumerate(cases):
        d, ents = render(hist, where, ctx.rng)
        docs.append(d)
        recs.append({'id': i, 'cs': [ord(c) for c in d], 'entries': ents})
        ctx.count('histories_' + where.replace(' ', '_'))
    outs = run_harness(h, ['events'], recs, ctx.tmp)
    ctx.traces += len(outs)
    seen = set()
    for m in tlc_records('TracePath', outs, ctx):
        if m['id'] not in seen:
            seen.add(m['id'])
            d = docs[m['id']]
            ctx.violation('%s (%s): %s on %r' % (cases[m['id']][1], len(cases[m['id']][0]), m['kind'], d[:200]),
                          {'document': d, 'expected_errors': show(m['exp']), 'observed_errors': show(m['got'])})
    for o in outs:
        for e in o['events']:
            if e[0] == 'Error': ctx.count('errors_' + e[1])
    ctx.samples += [{'where': cases[i][1], 'document': docs[i]} for i in (0, len(docs) // 2, len(docs) - 1)]
