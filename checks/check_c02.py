import build, runner, gen_assign as g
LEVEL = 'translation_validation'
def corpora(tier):
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'O0': ('wat', ['-O', '0']), 'wasm': ('wasm', [])}
    full = ('loc', 'ptr', 'mem')
    few = lambda T, k: g.TYPES if tier != 'quick' or k in full else sorted({T, 'int', 'long long' if T != 'long long' else 'unsigned'}, key=g.TYPES.index)
    for i, ks in enumerate((('loc',), ('ptr',), ('mem',), ('par', 'glo', 'idx', 'lst'), ('gst', 'lar', 'gar', 'unp', 'seq', 'pre'))):
        w, r = g.gen(rhs=few, kindsel=ks)
        h = g.head()
        yield dict(name='asn%d' % i, text=h + '\n'.join(w), ref_text=h + '\n'.join(r), variants=v)
def run(rep, tier):
    b = build.Build()
    runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'every value of both operands; 13 kinds of lvalue; buffers of at most 32 bytes'
    rep.assume += ['clang 18 -O0 for wasm32 gives the C meaning of each function', 'floating arithmetic shared as uninterpreted functions', 'undefined conversions, divisions and shifts are excluded by preconditions']
