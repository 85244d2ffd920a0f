"""C11: the command line."""
from common import *
from clidocs import *


def check(ctx):
    cli, hc, ht, he = build_cli(), build_harness('core'), build_harness('typed'), build_harness('embed')
    r = ctx.rng
    tl = tools(he, ctx)
    fin = {'collision': 'json-key-collision'}

    def session(cmds):
        return Session(world(r, tl)[0], [(c, random_stdin(r)) for c in cmds], tl)

    def random_stdin(r):
        if r.random() < .05: return b'a \xff'
        return world(r, tl)[0]['d.styx'][1]

    g = grid(r)
    g = r.sample(g, ctx.pick(700, len(g)))
    run_sessions(ctx, cli, hc, ht, [session([c]) for c in g], 'combinations of options', fin)
    run_sessions(ctx, cli, hc, ht, [session([random_cmd(r) for _ in range(r.randint(1, 5))]) for _ in range(ctx.pick(900, 12000))], 'random sessions', fin)
    f = dict(world(r, tl)[0])
    f['d.styx'] = ('file', '@ 1\n"@" 2')
    run_sessions(ctx, cli, hc, ht, [Session(f, [(file_cmd(r, input='d.styx', json='-'), '')], tl)], 'keys with one name in JSON', fin)
