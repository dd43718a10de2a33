import os, build, runner
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def spec(src, tier, **kw):
    v = {'O3': ('wat', [])} if tier == 'quick' else {'O3': ('wat', []), 'wasm': ('wasm', [])}
    d = dict(name='c_' + src, text=open(HERE + '/corpus/%s.c' % src).read(), variants=v, deadline=40, chunk=1)
    if tier != 'quick': d['deadline'] = 300
    d.update(kw); return d
def run(rep, specs, bounds, assume=()):
    b = build.Build()
    for f, log in b.liberr.items(): rep.violation('lib/' + f, 'library module does not compile: ' + log, log)
    runner.run_corpora(rep, b, specs)
    rep.cov['bounds'] = bounds
    rep.assume += ['the reference C functions in corpus/ state the standard'] + list(assume)
