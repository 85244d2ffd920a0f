"""C18: the implementations in other languages read what the reference reads."""
import gen
import impls
from common import *
from docs import *
from checks.c01 import CHARS, ESC, HD

PATHS = ['a', 'b', 'a.b', 'a.c', 'a.b.c', 'b.a', '"a"', '"a.b"', '@a', '@', 'r"b"']
VALUES = ['1', '{}', '{x 1}', '{a.b 1, a.c 2}', '{a.b 1, c 2, a.d 3}', '@t{x 1}', '()', '@', '', 'k>v', 'k>v k>w']
ATTRS = ['a', 'b', '>', '>', '1', '"x"', '(x y)', '{c d}', '@t', '@', ' ', ' ', '\n', ',', '}', ')', '/// d\n', '<<E\nE\n']
NESTED = ['k ' + a * n + b * n for n in (1, 12, 25) for a, b in (('(', ')'), ('{a ', '}'), ('@t(', ')'), ('{a.b ', '}'), ('k>(', ')'), ('{a (', ')}'))]


def check(ctx):
    impls.build()
    h = build_harness()
    fin = {'chain ' + n: 'tag-chains' for n in impls.NAMES}
    c = lambda xs, a, b: ''.join(ctx.rng.choice(xs) for _ in range(ctx.rng.randint(a, b)))
    lexical = [q for _ in range(ctx.pick(5000, 30000)) for q in
               ('a <<E' + c(HD, 2, 9), '"' + c(ESC, 1, 7) + '"', 'a "' + c(ESC, 1, 5) + '"', c(CHARS, 3, 9))]
    sep = lambda: ctx.rng.choice(['\n', '\n', ',', ' ', '\n\n'])
    paths = [''.join(ctx.rng.choice(PATHS) + ' ' + ctx.rng.choice(VALUES) + sep() for _ in range(ctx.rng.randint(1, 5)))
             for _ in range(ctx.pick(5000, 30000))]
    paths = [d if ctx.rng.random() < .6 else 'o {' + d + '}' for d in paths]
    attrs = ['k ' + c(ATTRS, 2, 9) for _ in range(ctx.pick(5000, 30000))]
    for docs, label in [(corpus(), 'repository documents'),
                        (gen.exhaustive(CHARS, ctx.pick(2, 3)), 'all short character strings'),
                        (small_docs(ctx, ctx.pick(3, 4)), 'all short fragment strings'),
                        (lexical, 'heredocs, escapes and characters'), (paths, 'dotted paths'), (attrs, 'attributes'),
                        (NESTED, 'nested'),
                        (standard(ctx, 12000, 60000), 'random documents')]:
        check_docs(ctx, 'TraceImpls', h, ['tokens'], list(dict.fromkeys(docs)), label, findings=fin, prepare=impls.attach)
    ctx.assumptions.append('the Swift implementation is not run: there is no Swift here')
    ctx.assumptions.append('the error messages and their spans, and the spans of tags, units and dotted objects, may differ')
