"""Runs corpora (equiv.py) for a check and fills its report."""
import time, os, re
import build, equiv, pool, replay

def find_refused(b, spec, lab, kind, opts):
    """the cases of a refused corpus which wcpl refuses on their own: [(case, log)]"""
    cs = equiv.parse_cases(spec['text']); out = []
    def bad(sub, tag):
        p = b.write('ref/%s%s/%s.c' % (lab, tag, spec['name']), equiv.prune(spec['text'], {c.name for c in sub}) + '\n' + equiv.dummy_main(sub, spec['text']))
        rc, log, o = b.link([p] + list(spec.get('extra_w', ())), p[:-1] + kind, list(opts) + list(spec.get('linkopts', ())), timeout=60)
        return (rc, log) if rc else None
    def go(sub, tag):
        if len(out) >= 8: return
        r = bad(sub, tag)
        if r is None: return
        if len(sub) == 1: out.append((sub[0], r)); return
        h = len(sub) // 2; go(sub[:h], tag + 'a'); go(sub[h:], tag + 'b')
    r = bad([], '_none')
    if r is not None: return [(cs[0], r)] + [(c, None) for c in cs[1:]]
    go(cs, '_')
    return out

def artefact(spec, c, lab, opts, det, cex):
    return ('function %s, built with wcpl %s (see run below)\ninput: %s\nobserved: %s\n\n/* program: */\n%s\n%s\n' %
            (c.name, ' '.join(opts), cex, det, equiv.prune(spec['text'], {c.name}).strip(), equiv.dummy_main([c], spec['text'])))

def run_corpora(rep, b, specs, chunk=40, deadline=20, total=None, nproc=8, validate=300, mem_gb=4, key=None):
    tasks = []; corps = {}
    for sp in specs:
        sp.setdefault('variants', {'O3': ('wat', [])})
        text = sp['text']
        c = equiv.Corpus(b, sp['name'], text, sp['variants'], sp.get('refopt', '-O0'), sp.get('prelude', ''), sp.get('extra_w', ()), sp.get('ref_text'), sp.get('linkopts', ()), sp.get('unit'))
        if c.err and sp.get('unit'):
            for lab, rc, log in c.err: rep.incon('%s/%s' % (sp['name'], lab), 'the harness does not fit the current %s.c: %s' % (sp['unit'], log[-200:]))
        elif c.err:
            drop = set()
            for lab, rc, log in c.err:
                kind, opts = sp['variants'][lab]
                bad = find_refused(b, sp, lab, kind, opts)
                if not bad: rep.violation('%s/%s' % (sp['name'], lab), 'wcpl does not build the corpus (rc %s): %s' % (rc, log[-600:]), text)
                for cc, rl in bad:
                    drop.add(cc.name)
                    if rl is None: continue
                    rc1, log1 = rl
                    rep.violation('%s/%s' % (cc.name, lab), 'wcpl does not build a valid program (rc %s): %s' % (rc1, log1[-600:]), artefact(sp, cc, lab, opts, log1, ''))
            keep = {x.name for x in c.cases} - drop
            if drop and keep:
                c = equiv.Corpus(b, sp['name'], equiv.prune(text, keep), sp['variants'], sp.get('refopt', '-O0'), sp.get('prelude', ''), sp.get('extra_w', ()), None if not sp.get('ref_text') else equiv.prune(sp['ref_text'], keep), sp.get('linkopts', ()))
        corps[sp['name']] = (c, sp)
        for lab in c.w:
            n = sp.get('chunk', chunk); cs = c.cases
            slow = [x for x in cs if x.opts.get('slow')]; fast = [x for x in cs if not x.opts.get('slow')]
            groups = [[x] for x in slow] + [fast[i:i+n] for i in range(0, len(fast), n)]
            for g in groups: tasks.append({'c': sp['name'], 'lab': lab, 'cases': g, 'limit': sum(float(x.opts.get('deadline', sp.get('deadline', deadline))) for x in g) + 30})
    def work(t):
        c, sp = corps[t['c']]; out = []
        for x in t['cases']:
            dl = float(x.opts.get('deadline', sp.get('deadline', deadline)))
            kw = {}
            if 'paths' in x.opts: kw['max_paths'] = int(x.opts['paths'])
            if 'steps' in x.opts: kw['max_steps'] = int(x.opts['steps'])
            r = equiv.check_case(c, t['lab'], x, fpmode=x.opts.get('fp', sp.get('fpmode', 'uf')), deadline=dl, eng_opts=sp.get('eng_opts'), **kw)
            out.append((x.name, r))
        return {'r': out}
    tasks.sort(key=lambda t: -len(t['cases']) if 'slow' not in t['cases'][0].opts else -1000)
    funcs = set(); vjobs = []; nprog = npairs = nq = nsteps = nproved = npaths = 0; ts = 0.0; samples = []
    for t, r in pool.run_tasks(tasks, work, nproc=nproc, total=total, mem_gb=mem_gb):
        if 'r' not in r:
            rep.incon('%s/%s[%s..]' % (t['c'], t['lab'], t['cases'][0].name), r.get('detail')); continue
        c, sp = corps[t['c']]
        for n, x in r['r']:
            nprog += 1; npairs += x['pairs']; nq += x['queries']; ts += x['solver_s']; nsteps += x['steps']; npaths += x['paths']
            funcs.update(x['funcs'])
            if x['status'] == 'proved':
                nproved += 1
                if len(samples) < 6 and nproved % 97 == 1 or len(samples) < 2:
                    samples.append(dict(function=n, build=t['lab'], queries=x['queries'], paths=x['paths'], equal_on_every_input=True))
                for v in x['validate']: vjobs.append((t['c'], t['lab'], n) + v)
            elif x['status'] == 'violation':
                kind, opts = sp['variants'][t['lab']]
                k = '%s/%s' % (n, t['lab'])
                rep.violation(key(n, t['lab'], x) if key else k, '%s on input %s' % (x['detail'], x.get('cex')), artefact(sp, c.by[n], t['lab'], opts, x['detail'], x.get('cex')))
            else: rep.incon('%s/%s' % (n, t['lab']), x['detail'])
    # validate the encoding: concrete model inputs through the real runtime
    if len(vjobs) > validate:
        st = len(vjobs) / validate; vjobs = [vjobs[int(i*st)] for i in range(validate)]
    nval = 0
    if vjobs:
        groups = {}
        for v in vjobs: groups.setdefault(v[:2], []).append(v)
        batches = list(groups.values())
        def val(t):
            out = replay.run_jobs([j for v in t['b'] for j in v[3]])
            return {'o': out}
        for t, r in pool.run_tasks([{'b': x} for x in batches if x], val, nproc=nproc, limit=200, mem_gb=16):
            if 'o' not in r: rep.notes.append('validation batch failed: %s' % r.get('detail')); continue
            pos = 0
            for v in t['b']:
                o = r['o'][pos:pos+len(v[3])]; pos += len(v[3]); rw, rr = o[:2]; c, sp = corps[v[0]]; case = c.by[v[2]]
                j = equiv.judge(case, equiv.Inputs(case), *o)
                if rr['kind'] == 'ret' and rw['kind'] != 'error': nval += 1
                if j: rep.violation('%s/%s' % (v[2], v[1]), 'concrete run: %s on input %s' % (j, v[4]), artefact(sp, case, v[1], sp['variants'][v[1]][1], j, v[4]))
    cv = rep.cov
    def acc(k, v): cv[k] = cv.get(k, 0) + v
    acc('programs', nprog); acc('disagreements_checked', npairs); acc('proved', nproved); acc('solver_queries', nq)
    acc('reference_paths', npaths); acc('instructions_executed_symbolically', nsteps); acc('inputs_replayed_on_runtime', nval)
    cv['solver_s'] = round(cv.get('solver_s', 0) + ts, 1)
    cv['samples'] = (cv.get('samples', []) + samples)[:10]
    cv['functions_encoded'] = cv.get('functions_encoded', 0) + len(funcs)
    cv['functions_encoded_sample'] = (cv.get('functions_encoded_sample', []) + sorted(funcs)[::max(1, len(funcs)//25)])[:60]
    if rep.level == 'model_checking':
        acc('states', npaths + npairs); cv['transitions'] = cv['instructions_executed_symbolically']; cv['traces_validated_against_impl'] = cv['inputs_replayed_on_runtime']
    return corps
