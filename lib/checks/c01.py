"""C01: tokens and lexemes reproduce the text."""
import gen
from common import *
from docs import *

# characters at the borders of the lexical classes
CHARS = ['a', 'r', 'E', '#', '"', '\\', 'n', 'u', '<', '/', '@', '>', '=', ' ', '\n', '\r', '\t', '{', ',', '.', 'é']
HD = ['<<E', '<<EF', ',x', ',x-y_z.0+', ',', '-', '_', '0', '\n', ' ', '\t', 'x', 'E', 'F', '\r\n']
ESC = ['\\', 'u', '{', '}', '0', '4', 'F', 'd8', '1', 'n', '"', 'g', 'é']


def check(ctx):
    h = build_harness()
    req = ['tokens', 'lexemes']
    check_docs(ctx, 'TraceLex', h, req, corpus(), 'repository documents')
    check_docs(ctx, 'TraceLex', h, req, list(dict.fromkeys(gen.exhaustive(CHARS, ctx.pick(3, 4)))), 'all short character strings')
    hd = ['a <<E' + ''.join(ctx.rng.choice(HD) for _ in range(ctx.rng.randint(2, 9))) for _ in range(ctx.pick(2500, 30000))]
    es = ['"' + ''.join(ctx.rng.choice(ESC) for _ in range(ctx.rng.randint(1, 7))) + '"' for _ in range(ctx.pick(2500, 30000))]
    check_docs(ctx, 'TraceLex', h, req, list(dict.fromkeys(hd + es)), 'heredocs and escapes')
    check_docs(ctx, 'TraceLex', h, req, standard(ctx, 4000, 60000), 'random documents')
    ctx.assumptions.append('the tokenizer and lexer are functions of the text; documents beyond the generated sizes are not looked at')
