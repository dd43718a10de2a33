import os, build, runner, gen_calls as g
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def corpora(tier):
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    yield dict(name='calls', text=open(HERE + '/corpus/calls.c').read(), variants=v, deadline=30, chunk=3)
    seed = os.environ.get('VERIF_SEED', '1')
    yield dict(name='rcall', text=g.gen(120 if tier == 'quick' else 1000, seed), variants=v, chunk=10)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'up to 9 parameters, recursion depth at most 8, every argument value'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each function']
