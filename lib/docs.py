"""Document sets used by several checks."""
import random
import gen
from common import corpus, clean

# documents built exhaustively from these fragments
SMALL = ['a', 'b.c', ' ', '\n', '{', '}', '(', ')', '@', '@t', '"q"', '>', ',', '// c', '/// d\n', '"\\q"', 'r#"x"#', '<<E\nx\nE']


def big_docs(r, n):
    """Documents with sizes out of the ordinary."""
    out = []
    for _ in range(n):
        x = r.randrange(9)
        if x == 0: s = '\n'.join('k%d %d' % (i, i) for i in range(r.randint(15, 70)))
        elif x == 1:
            d = r.randint(4, 30); s = 'a ' + '{b ' * d + 'x' + '}' * d
        elif x == 2:
            d = r.randint(4, 30); s = 'a ' + '(' * d + 'x' + ')' * r.choice([d, d, d - 1])
        elif x == 3: s = 'k' * r.randint(20, 200) + ' "' + 'v\\n' * r.randint(5, 60) + '"'
        elif x == 4: s = 'a ' + '@t/@u' * 1 + '/@v' * r.randint(1, 12) + r.choice(['', '"x"', '{a 1}', '@'])
        elif x == 5:
            h = '#' * r.choice([3, 7, 15, 16, 17, 31, 255, 256, 257, 300]); s = 'a r' + h + '"x"#y' + '"' + h + r.choice(['', '#', ' z'])
        elif x == 6:
            d = 'D' * r.choice([1, 15, 16, 17, 18]); ind = r.choice(['', '  ', '\t', ' ' * 9])
            s = 'a <<' + d + '\n' + ''.join(ind + ' ' * r.randint(0, 3) + 'l%d\n' % i for i in range(r.randint(1, 20))) + ind + d + r.choice(['', '\nb 1', ' x'])
        elif x == 7: s = '.'.join('s%d' % i for i in range(r.randint(2, 25))) + ' v\n' + 'x {' + ', '.join('a%d %d' % (i, i) for i in range(r.randint(9, 40))) + '}'
        else: s = 'x ' + ' '.join('k%d>%s' % (i, r.choice(['1', '@', '(a b)', '"q"', '{c d}'])) for i in range(r.randint(4, 30)))
        out.append(s)
    return out


def standard(ctx, quick, thorough, big=60):
    """Random documents plus the repository's own."""
    n = ctx.pick(quick, thorough)
    short = corpus(2500)
    return gen.mixed(ctx.rng, n, [c for c in short if len(c) < 1500]) + big_docs(ctx.rng, ctx.pick(big, big * 6))


def small_docs(ctx, depth):
    return list(dict.fromkeys(gen.exhaustive(SMALL, depth)))
