import os, build, runner, gen_ctl as g
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def corpora(tier):
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    yield dict(name='control', text=open(HERE + '/corpus/control.c').read(), variants=v, deadline=30, chunk=3)
    yield dict(name='seqs', text=g.seqs(), variants=v, chunk=20)
    yield dict(name='logic', text=g.logic(), variants=v, chunk=20)
    seed = os.environ.get('VERIF_SEED', '1')
    yield dict(name='rctl', text=g.gen(240 if tier == 'quick' else 2000, seed), variants=v, chunk=6)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'loops of at most 6 iterations; every value of the int inputs; generated functions of at most 1500 characters, 400 paths'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each function']
