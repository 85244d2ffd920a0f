"""C13: schemas embedded in binaries."""
import collections
from embdocs import *


def check(ctx):
    b = build_harness('embed')
    r = ctx.rng
    raws = [clean(text(r)).encode() for _ in range(ctx.pick(80, 400))] + [b'\xff\xfe', b'a\xc3', b'\xed\xa0\x80 x']
    made = run_harness(b, ['pack', 'blob'], [{'id': 0, 'raws': [x.hex() for x in raws], 'ts': [[ord(c) for c in x.decode()] for x in raws[:-3]]}], ctx.tmp)[0]
    packed = [bytes.fromhex(x) for x in made['pack']]
    # what the library makes, as well as what the format says
    packed += [bytes.fromhex(x)[16:] for x in made['blob']]

    def files(label, recs):
        recs = [record(i, d, t) for i, (d, t) in enumerate(recs)]
        outs = run_harness(b, ['extract'], recs, ctx.tmp)
        ctx.traces += len(recs)
        ctx.count('files_' + label.replace(' ', '_'), len(recs))
        ctx.count('schemas_found', sum(len(o['extract'][0][1]) for o in outs if not o['panics']))
        ctx.count('object_files', sum(bool(o.get('parses')) for o in outs))
        seen = set()
        for m in tlc_records('TraceEmbed', outs, ctx):
            if m['id'] in seen: continue
            seen.add(m['id'])
            ctx.violation('%s: %s: expected %d schemas, got %s' % (label, m['kind'], len(m['exp'][1]) if m['exp'] else 0, str(show(m['got']))[:200]),
                          {'module': 'TraceEmbed', 'data': bytes(recs[m['id']]['data']).hex(), 'sections': recs[m['id']]['sections'], 'expected': show(m['exp']), 'observed': show(m['got'])})
        for d, t in [(bytes(x['data']), x['sections']) for x in recs[:3]]: ctx.samples.append({'from': label, 'data': d.hex()[:300], 'sections': t})
    files('well formed blobs', [(x, []) for x in [b'STYX_SCHEMA_V2\0\0' + p for p in packed]])
    files('random files', [file(r, packed) for _ in range(ctx.pick(4000, 60000))])

    # programs built with the macros
    d = os.path.join(VERIF, 'harness', 'embedm')
    recs = []
    for i in range(ctx.pick(2, 8)):
        w = tempfile.mkdtemp(prefix='prog', dir=ctx.tmp)
        src, texts = program(r, w, r.randint(6, 12))
        with open(os.path.join(w, 'schemas.rs'), 'w') as f: f.write(src)
        env = cargo_env()
        env['STYX_EMBEDDED'] = os.path.join(w, 'schemas.rs')
        rc, out, _ = run(['cargo', 'build', '--offline', '--quiet'], 600, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if rc != 0:
            if rc is None: raise CheckError('cargo timed out')
            ctx.violation('programs: the macros do not embed %d schemas: %s' % (len(texts), out.strip()[:300]), {'source': src, 'output': out[-3000:]})
            continue
        p = os.path.join(w, 'prog')
        shutil.copy(os.path.join(BUILD, 'debug', 'styxm'), p)
        recs.append({'id': len(recs), 'path': [ord(c) for c in p], 'texts': [[ord(c) for c in t] for t in texts], 'src': src})
    ctx.count('programs', len(recs))
    ctx.traces += len(recs)
    outs = run_harness(b, ['file'], recs, ctx.tmp)
    for o in outs: o['src'] = ''
    for m in tlc_records('TraceProgram', outs, ctx) if recs else []:
        ctx.violation('programs: %s: expected %s got %s' % (m['kind'], str(show(m['exp']))[:300], str(show(m['got']))[:300]),
                      {'source': recs[m['id']]['src'], 'expected': show(m['exp']), 'observed': show(m['got'])})
