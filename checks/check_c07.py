import os, build, runner, gen_peep as g, gen_calls, gen_ctl, gen_data, gen_expr
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A4 = [0, 2, 6, 7, 8, 9, 10]
def corpora(tier):
    q = tier == 'quick'
    yield dict(name='peep3', unit='c', text=g.unit(3, list(range(g.N)), 3), chunk=1, deadline=100)
    yield dict(name='peep4', unit='c', text=g.unit(4, A4 if q else list(range(g.N)), 1, 100 if q else 900), chunk=1, deadline=100 if q else 900)
    if not q: yield dict(name='peep5', unit='c', text=g.unit(5, [0, 2, 6, 7, 8, 9, 10], 2, 900), chunk=1, deadline=900)
    v = {'O0': ('wat', ['-O', '0']), 'O1': ('wat', ['-O', '1']), 'O2': ('wat', ['-O', '2'])}
    if not q: v['O9'] = ('wat', ['-O', '9'])
    seed = os.environ.get('VERIF_SEED', '1')
    yield dict(name='oaddr', text=open(HERE + '/corpus/addr.c').read(), variants=dict(v, O3=('wat', [])), chunk=10)
    yield dict(name='ocall', text=gen_calls.gen(20 if q else 200, 'o' + seed), variants=v, chunk=5)
    yield dict(name='octl', text=gen_ctl.gen(40 if q else 400, 'o' + seed), variants=v, chunk=4)
    for i in range(2 if q else 12): yield dict(name='odat%d' % i, text=gen_data.gen('o%s.%d' % (seed, i)), variants=v, chunk=10)
    yield dict(name='odata', text=open(HERE + '/corpus/data.c').read(), variants={'O0': v['O0']} if q else v, deadline=30, chunk=3)
    if not q: yield dict(name='oexpr', text=gen_expr.HEAD + '\n'.join(gen_expr.unary() + gen_expr.binary() + gen_expr.cond()), variants=v)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'optimiser: every sequence of 3 instructions of a 19-instruction alphabet and of 4 of a 7-instruction alphabet (thorough: 4 of 19, 5 of 7), every immediate, operand and local; programs: generated and hand-written corpora at -O 0, 1, 2 against the C meaning'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each program', 'accesses below the first data address (1024) or beyond 2 GB trap or are undefined in the original and are not compared']
