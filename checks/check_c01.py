import build, runner, gen_expr as g
LEVEL = 'translation_validation'
def run(rep, tier):
    b = build.Build()
    text = g.HEAD + '\n'.join(g.unary() + g.binary() + g.cond())
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    runner.run_corpora(rep, b, [dict(name='expr', text=text, variants=v)])
    rep.cov['bounds'] = 'straight-line functions: no unrolling; every value of every operand type, all operand type pairs'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each function', 'floating add/sub/mul/div and int/float conversions are shared uninterpreted functions of their operands (fp theory on retry)',
                   'inputs on which C leaves the operation undefined are excluded by the precondition of each function']
