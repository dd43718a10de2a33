import os, build, runner, gen_data as g
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def corpora(tier):
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    yield dict(name='data', text=open(HERE + '/corpus/data.c').read(), variants=v, deadline=30, chunk=3)
    yield dict(name='layout', text=g.layouts(), variants=v, chunk=10)
    seed = os.environ.get('VERIF_SEED', '1')
    for i in range(6 if tier == 'quick' else 40):
        yield dict(name='rdat%d' % i, text=g.gen('%s.%d' % (seed, i)), variants=v, chunk=10)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'aggregates of up to 3 levels and about 100 bytes; every byte of the buffers and every index value symbolic; indices inside the arrays'
    rep.assume += ['clang 18 -O0 for wasm32 gives layout and initial values (wcpl follows the wasm32 C ABI layout)']
