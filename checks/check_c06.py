import build, runner, gen_const as g
LEVEL = 'translation_validation'
def corpora(tier):
    t, p = g.unit()
    yield dict(name='cval', unit='c', text=t, prelude=p, deadline=60, chunk=4)
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    for i in range(40 if tier == 'quick' else 160):
        yield dict(name='cx%02d' % i, text=g.exprs(1000 + i), variants=v)
def run(rep, tier):
    b = build.Build(); runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'constant arithmetic: every operand value of every operand type pair and operator; constant expressions: generated expressions of depth 3 in 6 contexts, unknown operands and selectors symbolic'
    rep.assume += ['clang 18 -O0 gives the C meaning', 'floating arithmetic is a shared uninterpreted function of its operands in the first unit (fp theory on retry)',
                   'expressions whose constant operands C leaves undefined (overflow, division by zero, shifts out of range) are not generated']
