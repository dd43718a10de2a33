import os, build, runner, gen_wenc as g, gen_bin, gen_calls, gen_ctl, gen_data, gen_expr
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def corpora(tier):
    q = tier == 'quick'
    yield dict(name='wtxt', unit='w', text=g.text(), chunk=1, deadline=100)
    v = {'wo': ('wat', ['@wo'])} if q else {'wo': ('wat', ['@wo']), 'woO0': ('wat', ['@wo', '-O', '0'])}
    seed = os.environ.get('VERIF_SEED', '1')
    yield dict(name='bind', text=gen_bin.bind(seed), variants=v, chunk=12)
    for f in ('control', 'data', 'calls', 'addr'): yield dict(name='w' + f, text=open(HERE + '/corpus/%s.c' % f).read(), variants=v, deadline=30, chunk=4)
    yield dict(name='wcall', text=gen_calls.gen(20 if q else 300, 'w' + seed), variants=v, chunk=5)
    yield dict(name='wctl', text=gen_ctl.gen(20 if q else 300, 'w' + seed), variants=v, chunk=4)
    for i in range(2 if q else 12): yield dict(name='wdat%d' % i, text=gen_data.gen('w%s.%d' % (seed, i)), variants=v, chunk=10)
    if not q: yield dict(name='wexpr', text=gen_expr.HEAD + '\n'.join(gen_expr.unary() + gen_expr.binary() + gen_expr.cond()), variants=v)
def run(rep, tier):
    b = build.Build(); runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'text round trip: integers -99..999 and 27 (39) boundary values, all exponents of float and all double exponents of three ranges, 256-value mantissa windows at 8 exponents, data strings of up to 3 bytes; .wo programs: hand-written and generated, every input'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each program', 'the meaning of a WAT float literal is decoded by an independent routine of the harness']
