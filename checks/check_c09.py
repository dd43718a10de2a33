import os, build, runner, gen_wenc as g, gen_bin, gen_calls, gen_ctl, gen_data
LEVEL = 'translation_validation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def corpora(tier):
    q = tier == 'quick'
    yield dict(name='wenc', unit='w', text=g.enc(), chunk=1, deadline=100)
    v = {'wasm': ('wasm', [])} if q else {'wasm': ('wasm', []), 'wasmO0': ('wasm', ['-O', '0']), 'wasmwo': ('wasm', ['@wo'])}
    seed = os.environ.get('VERIF_SEED', '1')
    yield dict(name='bind', text=gen_bin.bind(seed), variants=v, chunk=12)
    for f in ('control', 'data', 'calls'): yield dict(name='b' + f, text=open(HERE + '/corpus/%s.c' % f).read(), variants=v, deadline=30, chunk=4)
    yield dict(name='bcall', text=gen_calls.gen(20 if q else 300, 'b' + seed), variants=v, chunk=5)
    yield dict(name='bctl', text=gen_ctl.gen(20 if q else 300, 'b' + seed), variants=v, chunk=4)
    for i in range(2 if q else 12): yield dict(name='bdat%d' % i, text=gen_data.gen('b%s.%d' % (seed, i)), variants=v, chunk=10)
def run(rep, tier):
    b = build.Build(); runner.run_corpora(rep, b, list(corpora(tier)))
    rep.cov['bounds'] = 'encoders: every value of every immediate (LEB128 of all 64-bit integers, all floats, names of up to 5 bytes, br_table of 1, 2, 4 and 131 targets) and every opcode; binary modules of hand-written and generated programs: every input'
    rep.assume += ['opcodes and encodings as in the WebAssembly core specification, written down independently in vlib/wasmir.py and checks/gen_wenc.py', 'clang 18 -O0 for wasm32 gives the C meaning of each program']
