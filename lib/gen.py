"""Document generators.  Everything is driven by one random.Random, so a seed
fixes the documents of a run."""
import itertools

FRAGS = ['a', 'b', 'key', 'a.b', 'a.b.c', 'b.a', '.', 'x.', '0', 'true', '-1.5', '/', '/a', 'a/b', '=', 'a=b', 'r', 're',
         ' ', ' ', ' ', '  ', '\t', '\n', '\n', '\n', '\r\n', '\r', ',', ', ',
         '{', '}', '(', ')', '{}', '()', '{ ', ' }', ' {', ' (', '>', 'a>', 'a>b', 'b>"q"', 'a>{', 'b>(', 'a>@', 'a> b',
         '@', '@t', '@t{', '@t(', '@t"p"', '@t@', '@a/@b', '@a/@b"x"', '@a/@b{', '@t/', '@9', '@é', '@t.u', '@t-1', '@_', '@t r', '@tr#"x"#', '@err"t"', '@a/b', '@ok/@',
         '"', '""', '"q"', '"q q"', '"\\n"', '"\\u{e9}"', '"\\u00e9"', '"\\q"', '"\\u{}"', '"\\u{110000}"', '"\\ud800"', '"\\u12"', '"\\', '\\', '"a.b"', '"@"', '"{}"',
         'r"', 'r""', 'r"x"', 'r#"x"#', 'r##"a"#b"##', 'r#', 'r#x', 'r#"',
         '<<', '<<E\n', '<<E\nx\nE', '<<E\n  x\n  E\n', '<<E\n\tx\n y\n \tE', '<<E,lang\nx\nE\n', '<<EOF\nEOF\n', '<<E x\ny\nE\n', '<<e', '<E', '<<E\r\nx\r\nE\r\n', 'E', '  E\n', '<<ABCDEFGHIJKLMNOPQ\n', '<<E,\nx\nE',
         '//', '// c', '// c\n', '/// d', '/// d\n', '///', '///d\n', ' // c\n', '////\n', ' /// d\n',
         'é', '€', '𝄞', '\u00a0', '\u3000', '\u2028', '\u0085', '\u200b', '\x00', '\x0c', '\ufeff', '#', '<', '[', ']', ';', ':', '"k" v', '@k v', '@"s" v', '@ v', "a 1\n", "b 2\n", "a.b 1\n", "a.c 2\n", "@k\"x\" 1\n", "a {b 1}\n"]


def frag_doc(r, n):
    return ''.join(r.choice(FRAGS) for _ in range(r.randint(1, n)))


BARE = ['a', 'b', 'c', 'd', 'name', 'port', '8080', 'true', 'false', 'null', '-3', '1.5', 'x=y', 'a/b', 'http://x', '#z', 'é', '<x', 'r', 'rust', 'r2', 'x\\y', 'a@b', 'k-1', '_u', '☃', 'v1.2', '0', '""'[:0] or 'z']
KEYS = ['a', 'b', 'c', 'd', 'a.b', 'a.c', 'a.b.c', 'b.a', 'c.d.e', 'name', 'x-y', 'k1', 'é', 'a.b.d', 'b.a.a']
STRS = ['', 'x', 'hello world', 'a "q"', 'tab\t', 'nl\nnl', 'back\\slash', '{}', '@t', '// no', 'é☃𝄞', 'a.b', 'true', ' lead', 'trail ', '=', '/', '"', '\r', '\x00', 'r#"', '<<E', ',', 'a>b', '(', '}', '/x', '//', 'r"', '\u00a0', '\u2028']
TAGS = ['t', 'u', 'some', 'err', 'r', 'a-b', '_x', 'Tag9', 'bar', 'for']


def quote(r, s):
    out = ''
    for c in s:
        o = ord(c)
        if c == '"': out += '\\"'
        elif c == '\\': out += '\\\\'
        elif c == '\n' and r.random() < .8: out += '\\n'
        elif c == '\r' and r.random() < .8: out += '\\r'
        elif c == '\t' and r.random() < .5: out += '\\t'
        elif r.random() < .06:
            out += ('\\u%04x' % o) if o < 0x10000 and r.random() < .5 else ('\\u{%x}' % o)
        else: out += c
    return '"' + out + '"'


class Gen:
    """Grammar-driven documents; mostly valid."""

    def __init__(self, r, maxdepth=3, weird=0.03, comments=True, eol='\n'):
        self.r, self.maxdepth, self.weird, self.comments, self.eol = r, maxdepth, weird, comments, eol

    def ch(self, *a): return self.r.choice(a)

    def p(self, x): return self.r.random() < x

    def scalar(self, multi=True):
        r = self.r
        x = r.random()
        if x < .5: return r.choice(BARE)
        if x < .75: return quote(r, r.choice(STRS))
        if x < .88 or not multi:
            s = r.choice(STRS)
            h = '#' * r.randint(0, 2)
            while '"' + h in s: h += '#'
            if h == '' and False: pass
            return 'r' + h + '"' + s + '"' + h
        return self.heredoc()

    def heredoc(self):
        r, e = self.r, self.eol
        d = r.choice(['E', 'EOF', 'T_1'])
        ind = r.choice(['', '', '  ', '\t', '    '])
        lines = []
        for _ in range(r.randint(0, 3)):
            lines.append(r.choice([ind, ind, ind, '', ind + '  ', ind[1:]]) + r.choice(['x', 'foo bar', '', '{', '"', '// c', 'é', d + 'x', '\\n', ' ']))
        lang = r.choice(['', '', ',sql', ',c++'[:2]])
        return '<<' + d + lang + e + ''.join(l + e for l in lines) + ind + d

    def tag(self, d):
        r = self.r
        t = '@' + r.choice(TAGS)
        while self.p(.12): t += '/@' + r.choice(TAGS)
        x = r.random()
        if x < .35: return t
        if x < .5: return t + quote(r, r.choice(STRS))
        if x < .56: return t + '@'
        if x < .62: return t + 'r#"' + r.choice(['x', 'y z']) + '"#'
        if x < .8: return t + self.obj(d)
        if x < .97: return t + self.seq(d)
        return t + self.heredoc()

    def attrs(self, d):
        return ' '.join(k + '>' + self.attrval(d) for k in self.r.sample(['a', 'b', 'c', 'k1'], self.r.randint(1, 3)))

    def attrval(self, d):
        x = self.r.random()
        if x < .6: return self.scalar(multi=False)
        if x < .7: return '@'
        if x < .8: return self.tag(d)
        if x < .9: return self.seq(d)
        return self.obj(d)

    def value(self, d):
        r = self.r
        x = r.random()
        if d >= self.maxdepth: return self.scalar() if x < .8 else ('@' if x < .9 else '@' + r.choice(TAGS))
        if x < .4: return self.scalar()
        if x < .45: return '@'
        if x < .58: return self.tag(d + 1)
        if x < .72: return self.seq(d + 1)
        if x < .9: return self.obj(d + 1)
        return self.attrs(d + 1)

    def key(self):
        r = self.r
        x = r.random()
        if x < .62: return r.choice(KEYS)
        if x < .75: return quote(r, r.choice(STRS))
        if x < .8: return 'r"' + r.choice(['a', 'x y', 'a.b']) + '"'
        if x < .84: return '@'
        if x < .93: return '@' + r.choice(TAGS)
        return '@' + r.choice(TAGS) + quote(r, r.choice(STRS[:6]))

    def ws(self): return self.ch(' ', ' ', ' ', '  ', '\t')

    def entry(self, d):
        k = self.key()
        if self.p(.1): return k
        v = self.value(d)
        if self.p(self.weird): v += ' ' + self.value(d)
        return k + self.ws() + v

    def seq(self, d):
        r, e = self.r, self.eol
        n = r.choice([0, 1, 1, 2, 2, 3, 4])
        items = [self.value(d) if d < self.maxdepth else self.scalar() for _ in range(n)]
        out = '('
        multi = self.p(.3) or any('<<' in i for i in items)
        for i, it in enumerate(items):
            if multi: out += e + self.ch('', '  ')
            elif i or self.p(.2): out += ' '
            if multi and self.comments and self.p(.1): out += '// in' + e
            out += it
            if '<<' in it: out += e
            if self.p(self.weird): out += ','
        if multi: out += e
        if not multi and self.p(.15): out += ' '
        return out + ')'

    def obj(self, d):
        return '{' + self.body(d, braced=True) + '}'

    def body(self, d, braced):
        r, e = self.r, self.eol
        n = r.choice([0, 1, 1, 2, 2, 3, 4]) if braced else r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6])
        comma = braced and self.p(.5)
        if n == 0 and not self.p(.3): return ''
        out = ''
        ents = [self.entry(d) for _ in range(n)]
        if comma and any('<<' in x or '//' in x for x in ents): comma = False
        multi = not comma
        if multi and braced: out += e
        for i, x in enumerate(ents):
            if multi:
                if self.comments and self.p(.12): out += self.ch('', '  ') + '// ' + r.choice(['c', 'note', 'é']) + e
                if self.comments and self.p(.12):
                    for _ in range(r.randint(1, 2)): out += self.ch('', '  ') + '///' + r.choice([' d', ' doc text', 'x', '']) + e
                if self.p(.1): out += e
                out += self.ch('', '', '  ', '\t') + x
                if self.comments and '\n' not in x[-3:] and not x.endswith(('E', 'EOF', 'T_1')) and self.p(.1): out += ' // t'
                if self.p(.06) and not braced and i == n - 1: pass
                else: out += e
            else:
                out += (', ' if i else self.ch('', ' ')) + x
        if multi and self.comments and self.p(.06): out += '// end' + e
        return out

    def doc(self):
        if self.p(.1):
            e = self.eol
            return self.ch('', e, '// c' + e) + self.obj(0) + self.ch('', e, ' // t' + e)
        return self.body(0, braced=False)


def mutate(r, s, k=None):
    s = list(s)
    for _ in range(k or r.randint(1, 3)):
        if not s:
            s = list(r.choice(FRAGS)); continue
        i = r.randrange(len(s))
        x = r.random()
        if x < .3: del s[i]
        elif x < .6: s[i:i] = list(r.choice(FRAGS))
        elif x < .7: s[i] = r.choice('{}()"@>,. \n/ab')
        elif x < .8:
            j = r.randrange(len(s)); i, j = min(i, j), max(i, j)
            s[i:i] = s[i:min(j, i + 10)]
        elif x < .9:
            j = min(len(s), i + r.randint(1, 8)); del s[i:j]
        else:
            j = r.randrange(len(s)); s[i], s[j] = s[j], s[i]
    return ''.join(s)


def mixed(r, n, corpus=(), maxlen=160):
    """n distinct documents: grammar, mutated, fragments, corpus slices."""
    seen, out, tries = set(), [], 0
    while len(out) < n and tries < 20 * n:
        tries += 1
        x = r.random()
        if x < .45:
            s = Gen(r, maxdepth=r.choice([1, 2, 2, 3]), eol='\r\n' if r.random() < .06 else '\n').doc()
        elif x < .7:
            s = mutate(r, Gen(r, maxdepth=2, eol='\n').doc())
        elif x < .95 or not corpus:
            s = frag_doc(r, r.choice([3, 5, 8, 12]))
        else:
            c = r.choice(corpus); i = r.randrange(max(1, len(c)))
            s = mutate(r, c[i:i + r.randint(5, 120)])
        if len(s) <= maxlen and s not in seen:
            seen.add(s); out.append(s)
    return out


def exhaustive(frags, n):
    for k in range(n + 1):
        for t in itertools.product(frags, repeat=k):
            yield ''.join(t)
