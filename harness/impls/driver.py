"""Reads documents, one JSON array of code points per line, and writes down
what styx-py makes of each.  It decides nothing."""
import json
import sys

sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import styx
from styx.types import ParseError, Scalar, Sequence, StyxObject


def cps(s): return [ord(c) for c in s]
def span(s): return [s.start, s.end]
def entries(es): return [[value(e.key), value(e.value)] for e in es]


def value(v):
    tag = [] if v.tag is None else [0] + cps(v.tag.name)
    p = v.payload
    if p is None: return [tag, 'none', '', [], [], [], span(v.span), span(v.span)]
    if isinstance(p, Scalar): r = ['scalar', p.kind.value.capitalize(), cps(p.text), [], []]
    elif isinstance(p, Sequence): r = ['seq', '', [], [value(i) for i in p.items], []]
    elif isinstance(p, StyxObject): r = ['obj', '', [], [], entries(p.entries)]
    return [tag] + r + [span(v.span), span(p.span)]


def read(src):
    try:
        return ['tree', entries(styx.parse(src).entries)]
    except ParseError as e:
        return ['error', e.message, span(e.span)]
    except Exception as e:
        return ['crash', repr(e)]


for line in sys.stdin:
    sys.stdout.write(json.dumps(read(''.join(map(chr, json.loads(line))))) + '\n')
    sys.stdout.flush()
