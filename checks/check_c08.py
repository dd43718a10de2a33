import os, build, runner, gen_link as g
LEVEL = 'translation_validation'
def corpora(tier, b):
    v = {'O3': ('wat', []), 'wo': ('wat', ['@wo'])} if tier == 'quick' else {'O3': ('wat', []), 'wo': ('wat', ['@wo']), 'wasm': ('wasm', []), 'O0wo': ('wat', ['@wo', '-O', '0'])}
    seed = os.environ.get('VERIF_SEED', '1')
    for i in range(12 if tier == 'quick' else 80):
        files, main, ref = g.gen('%s%d' % (seed, i), 2 + i % 3); d = 'lk%d/' % i
        for f, t in files.items(): p = b.write(d + f, t)
        ws = [b.path(d + f) for f in sorted(files, reverse=i % 2 == 1) if f.endswith('.c')]
        yield dict(name='link%d' % i, text=main, ref_text=ref, extra_w=ws, linkopts=['-I', b.path(d)], variants=v, chunk=12)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier, b)))
    rep.cov['bounds'] = 'programs of 2 to 4 modules plus main; call sequences of up to 3 calls; every argument value'
    rep.assume += ['clang 18 -O0 for wasm32 gives the meaning of the program written as one file with the module-local names made unique']
