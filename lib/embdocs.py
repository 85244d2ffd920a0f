"""Files with schemas embedded in them, well and badly."""
import struct
import gen
from common import *

M2, M1 = b'STYX_SCHEMA_V2\0\0', b'STYX_SCHEMAS_V1\0'


def text(r):
    x = r.random()
    if x < .5: return 'meta {id %s, version 1}\nschema {@ @object{%s @string}}\n' % (r.choice(['a', 'b-c', 'x']), r.choice(['name', 'é', 'p']))
    if x < .7: return gen.frag_doc(r, 12)
    if x < .8: return r.choice(['a', 'ab', 'line\n']) * r.randint(5, 60)
    if x < .9: return M2.decode() + r.choice(['', 'x', '\0' * 40]) + 'meta {id m}'
    return r.choice(['', 'x', M1.decode(), '\0\0\0'])


def junk(r):
    x = r.random()
    if x < .3: return bytes(r.randrange(256) for _ in range(r.randint(0, 30)))
    if x < .45: return M2[:r.randint(0, 15)]
    if x < .55: return M1[:r.randint(0, 15)]
    if x < .65: return M2
    if x < .75: return M1 + struct.pack('<H', r.choice([0, 0, 1, 2, 65535])) + bytes(r.randint(0, 3))
    if x < .85: return M2 + struct.pack('<II', r.choice([0, 1, 2**31, 2**32 - 1]), r.choice([0, 1, 50, 200, 2**31, 2**32 - 1])) + bytes(r.randrange(256) for _ in range(r.randint(0, 60)))
    # an honest header with a size out of proportion
    return M2 + struct.pack('<II', 10, 8) + bytes(32) + struct.pack('<I', r.choice([2**32 - 1, 2**31, 4000, 2000])) + b'\x10abc'


def spoil(r, p):
    """header and payload with one thing wrong (or, rarely, not)"""
    p = bytearray(p)
    x = r.random()
    n, c = struct.unpack('<II', p[:8])
    if x < .15: p[0:4] = struct.pack('<I', max(0, n + r.choice([-1, 1, 256, -n])))
    elif x < .35: p[4:8] = struct.pack('<I', r.choice([max(0, c - 1), c + 1, c + 5, 0, 2**31 + c, 2**32 - 1, c // 2]))
    elif x < .5: p[8 + r.randrange(32)] ^= 1 << r.randrange(8)
    elif x < .65: p[40:44] = struct.pack('<I', r.choice([0, 1, max(0, n - 1), n + 1, n * 2, 2**31, 2**32 - 1]))
    elif x < .85: p[r.randrange(40, len(p))] ^= 1 << r.randrange(8)
    elif x < .95: p = p[:r.randrange(len(p))]
    return bytes(p)


def parts(r, packed):
    """The bytes of a file (or section)."""
    out = b''
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        x = r.random()
        if x < .3: out += junk(r)
        elif x < .65: out += M2 + r.choice(packed)
        elif x < .8: out += M2 + spoil(r, r.choice(packed))
        else:
            g = [r.choice(packed) for _ in range(r.randint(0, 3))]
            if g and r.random() < .4:
                i = r.randrange(len(g)); g[i] = spoil(r, g[i])
            out += M1 + struct.pack('<H', max(0, len(g) + (r.choice([-1, 1]) if r.random() < .2 else 0))) + b''.join(g)
    if r.random() < .12 and out: out = out[:r.randrange(len(out))]
    if r.random() < .1 and out:
        i = r.randrange(len(out)); out = out[:i] + r.choice([M2, M1, b'S', b'']) + out[i:]
    return out


# --- object files around sections: bytes and [start, size, in the file] of the schema sections
def elf(r, secs):
    """secs: [(name, bytes, kind)] kind: how its place is told"""
    b64, le = r.random() < .7, r.random() < .8
    e = '<' if le else '>'
    eh, sh = (64, 64) if b64 else (52, 40)
    names = b'\0' + b''.join(n.encode() + b'\0' for n, _, _ in secs) + b'.shstrtab\0'
    body, offs = b'', []
    for n, d, k in secs:
        body += bytes(r.randint(0, 5))
        offs.append(eh + len(body)); body += d
    so = eh + len(body); body += names
    body += bytes(-(eh + len(body)) % 8)
    shoff = eh + len(body)
    heads = [(0, 0, 0, 0)]
    told = []
    total = shoff + sh * (len(secs) + 2)
    p = 1
    for (n, d, k), o in zip(secs, offs):
        size = len(d)
        big = 2**64 if b64 else 2**32
        if k == 'over': o = big - r.choice([1, 10, 16, 4096]); size = r.choice([20, 10, 5000, 1, big - 1])
        elif k == 'long': size = total - o + r.choice([0, 1, 100, big // 2])
        elif k == 'short': size = size // 2
        heads.append((p, 1, o, size)); p += len(n) + 1
        if n == '.styx_schemas': told.append([o, size, o + size <= total])
    heads.append((p, 3, so, len(names)))
    ident = b'\x7fELF' + bytes([2 if b64 else 1, 1 if le else 2, 1]) + bytes(9)
    fmt = e + ('HHIQQQIHHHHHH' if b64 else 'HHIIIIIHHHHHH')
    h = ident + struct.pack(fmt, 1, 62 if b64 else 3, 1, 0, 0, shoff, 0, eh, 0, 0, sh, len(heads), len(heads) - 1)
    t = b''
    for nm, ty, o, s in heads:
        if b64: t += struct.pack(e + 'IIQQQQIIQQ', nm, ty, 0, 0, o, s, 0, 0, 1, 0)
        else: t += struct.pack(e + 'IIIIIIIIII', nm, ty, 0, 0, o, s, 0, 0, 1, 0)
    return h + body + t, told


def macho(r, secs, base=0):
    """One segment for each name; 64-bit little-endian."""
    lc = b''
    n = len(secs)
    size = 32 + n * (72 + 80)
    off, told, body = size, [], b''
    total = size + sum(len(d) for _, d, _ in secs)
    for nm, d, k in secs:
        seg, sec = nm
        o, s = off, len(d)
        off += len(d); body += d
        if k == 'over': o, s = r.choice([(2**32 - 10, 20), (2**32 - 1, 2**32 - 1), (10, 2**64 - 5)])
        elif k == 'long': s = total - o + r.choice([0, 1, 500])
        elif k == 'short': s //= 2
        lc += struct.pack('<II16sQQQQIIII', 0x19, 152, seg.encode(), 0, len(d), size, len(d), 7, 7, 1, 0)
        lc += struct.pack('<16s16sQQIIIIIIII', sec.encode(), seg.encode(), 0, s, o, 0, 0, 0, 0, 0, 0, 0)
        if seg == '__DATA' and sec == '__styx_schemas': told.append([base + o, s, o + s <= total])
    return struct.pack('<IIIIIIII', 0xfeedfacf, 0x01000007, 3, 1, n, len(lc), 0, 0) + lc + body, told


def fat(r, archs):
    n = len(archs)
    off = 8 + 20 * n
    off += -off % 8
    out, told, heads = b'', [], b''
    for i, secs in enumerate(archs):
        b, t = macho(r, secs, off + len(out))
        heads += struct.pack('>IIIII', [0x01000007, 0x0100000c][i % 2], 3, off + len(out), len(b), 0)
        told += t[:1] if t and t[0][2] else t
        out += b
    return struct.pack('>II', 0xcafebabe, n) + heads + bytes(off - 8 - 20 * n) + out, told


def pe(r, secs):
    n = len(secs)
    opt = 112 + 16 * 8
    hs = 128 + 24 + opt + 40 * n
    hs += -hs % 512
    body, tab, told = b'', b'', []
    total = hs + sum(len(d) + (-len(d) % 512) for _, d, _ in secs)
    for i, (nm, d, k) in enumerate(secs):
        d = d + bytes(-len(d) % 512)
        o, s = hs + len(body), len(d)
        body += d
        if k == 'over': o, s = r.choice([(2**32 - 512, 1024), (2**32 - 1, 2**32 - 1)])
        elif k == 'long': s = total - o + 512
        elif k == 'short': s //= 2
        tab += struct.pack('<8sIIIIIIHHI', nm.encode(), r.choice([len(d), len(d), 0, 16, len(d) // 2, len(d) + 4096]), 0x1000 * (i + 1), s, o, 0, 0, 0, 0, 0x40000040)
        if nm == '.styx': told.append([o, s, o + s <= total])
    dos = b'MZ' + bytes(58) + struct.pack('<I', 128) + bytes(64)
    coff = b'PE\0\0' + struct.pack('<HHIIIHH', 0x8664, n, 0, 0, 0, opt, 0x22)
    oh = struct.pack('<HBBIIIIIQIIHHHHHHIIIIHHQQQQII', 0x20b, 14, 0, 0, 0, 0, 0, 0x1000, 0x140000000, 0x1000, 512, 6, 0, 0, 0, 6, 0, 0, 0x1000 * (n + 1), hs, 0, 3, 0, 0x100000, 0x1000, 0x100000, 0x1000, 0, 16) + bytes(128)
    h = dos + coff + oh + tab
    return h + bytes(hs - len(h)) + body, told


def file(r, packed):
    """[bytes, sections]"""
    x = r.random()
    if x < .45: return parts(r, packed), []

    def secs(good, bad, n=3):
        out = []
        for _ in range(r.randint(0, n)):
            out.append((r.choice(good) if r.random() < .5 else r.choice(bad), parts(r, packed), r.choice(['', '', '', '', 'over', 'long', 'short'])))
        return out
    if x < .7: d, t = elf(r, secs(['.styx_schemas'], ['.styx', '.text', '.styx_schemas2', '.data', '__styx_schemas']))
    elif x < .8: d, t = macho(r, secs([('__DATA', '__styx_schemas')], [('__DATA', '__data'), ('__TEXT', '__styx_schemas'), ('__DATA', '.styx')]))
    elif x < .88: d, t = fat(r, [secs([('__DATA', '__styx_schemas')], [('__DATA', '__data'), ('__TEXT', '__styx_schemas')], 2) for _ in range(r.randint(1, 2))])
    else: d, t = pe(r, secs(['.styx'], ['.text', '.styx2', '.rdata']))
    return d, t


def candidates(d):
    """Where payloads may be: [start, length], to have the facts about them."""
    out, facts = [], set()

    def cand(p):
        if p + 40 > len(d): return None
        c = struct.unpack('<I', d[p + 4:p + 8])[0]
        if p + 40 + c > len(d): return None
        facts.add((p + 40, c))
        return p + 40 + c
    i = d.find(M2)
    while i >= 0:
        cand(i + 16); i = d.find(M2, i + 1)
    i = d.find(M1)
    while i >= 0:
        if i + 18 <= len(d):
            p, n = i + 18, struct.unpack('<H', d[i + 16:i + 18])[0]
            while n and p is not None: p = cand(p); n -= 1
        i = d.find(M1, i + 1)
    return [list(x) for x in sorted(facts)]


def record(i, d, t):
    return {'id': i, 'data': list(d), 'at': candidates(d), 'sections': [[min(a, 10**9), min(b, 10**9), c] for a, b, c in t], 'facts': [[0, 0, False, 0, [], False, []]]}


# --- programs with schemas that the macros embed
def rust_literal(r, t):
    if r.random() < .45 and '\r' not in t:
        h = '#' * r.randint(0, 2)
        while '"' + h in t: h += '#'
        return 'r' + h + '"' + t + '"' + h
    out = ''
    for c in t:
        o = ord(c)
        if c in '"\\': out += '\\' + c
        elif c == '\n': out += r.choice(['\n', '\\n', '\\n', '\\n\\\n   \x01'])
        elif c == '\r': out += '\\r'
        elif c == '\t': out += '\\t'
        elif c == '\0': out += '\\0'
        elif r.random() < .04: out += ('\\x%02x' % o) if o < 128 else '\\u{%x}' % o
        elif c == "'": out += r.choice(["'", "\\'"])
        else: out += c
    # white space that would belong to a continued line
    import re
    out = re.sub('\x01([ \t\n])', lambda m: {' ': '\\x20', '\t': '\\t', '\n': '\\n'}[m.group(1)], out)
    return '"' + out.replace('\x01', '') + '"'


def program(r, d, n):
    """Source of a program with n schemas, and their texts."""
    ids = ['a-b', 'a_b', 'a.b', '9x', 'é', '"x y"', 'crate:conf@1', 'A-b', 'very-long-' * 8]
    r.shuffle(ids)
    src, texts = '', []
    for i in range(n):
        ident = ids[i] if i < len(ids) else 'id-%d' % i
        t = 'meta {id %s, version 1}\n%sschema {@ @object{%s}}\n' % (ident, r.choice(['', '/// d\n', '// "q" \\ \' é\n']), r.choice(['a @string', 'b @int\n c @one-of(@string ("x" "y\\n"))', '', '"k \\"q\\"" @bool, \'s @any']))
        t += r.choice(['', '// ' + 'long ' * r.randint(1, 80) + '\n'])
        texts.append(t)
        x = r.random()
        if x < .65: src += 'styx_embed::%s!(%s);\n' % (r.choice(['embed_inline', 'embed_inline', 'embed_schema', 'embed_schemas']), rust_literal(r, t))
        else:
            f = os.path.join(d, 'schema %d.styx' % i)
            open(f, 'w', newline='').write(t)
            src += ('styx_embed::embed_file!(%s);\n' if r.random() < .5 else 'styx_embed::embed_files!(%s,);\n') % rust_literal(r, f)
    return src, texts
