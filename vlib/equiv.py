"""Equivalence of functions compiled by wcpl with the same C functions compiled by clang (reference),
decided by symbolic execution of both WebAssembly bodies over shared symbolic inputs."""
import struct, re, os, time, json, sys, build
import z3
import wasmir, symex
from symex import Engine, bv, feq_bits, Inconclusive, BoundExceeded
import replay

INT = {'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'short int': (16, 1),
       'int': (32, 1), 'unsigned': (32, 0), 'unsigned int': (32, 0), 'long': (32, 1), 'unsigned long': (32, 0), 'signed int': (32, 1), 'signed': (32, 1),
       'long long': (64, 1), 'unsigned long long': (64, 0), 'bool': (1, 0), 'size_t': (32, 0), 'int64_t': (64, 1), 'uint64_t': (64, 0),
       'int32_t': (32, 1), 'uint32_t': (32, 0), 'wchar_t': (32, 0), 'ssize_t': (32, 1), 'time_t': (64, 1), 'uint8_t': (8, 0), 'int8_t': (8, 1), 'uint16_t': (16, 0), 'int16_t': (16, 1)}
FLT = {'float': 32, 'double': 64}
BASE = 0x40000; STEP = 0x1000; PAGES = 16

class Case:
    __slots__ = ('name', 'ret', 'params', 'pre', 'bufs', 'extra', 'links', 'vals', 'line', 'opts', 'src', 'strs')
    def __repr__(self): return self.name

_fn = re.compile(r'^([A-Za-z_][\w \t]*?[ \t\*]+)(t_\w+)\(([^)]*)\)[ \t]*\{', re.M)
def norm_t(t):
    t = re.sub(r'\b(const|static|register|extern|inline|restrict|volatile)\b', '', t)
    t = t.replace('*', ' * '); return ' '.join(t.split())

def parse_cases(text):
    cases = []; prev = 0
    for m in _fn.finditer(text):
        c = Case(); c.ret = norm_t(m.group(1)); c.name = m.group(2); c.params = []
        c.pre = None; c.bufs = {}; c.extra = {}; c.links = []; c.vals = {}; c.opts = {}; c.strs = {}
        ps = m.group(3).strip()
        if ps and ps != 'void':
            for p in ps.split(','):
                p = p.strip(); mm = re.match(r'(.*?)(\w+)$', p)
                c.params.append((mm.group(2), norm_t(mm.group(1))))
        # annotations: //@ lines directly above
        anns = []; ls = text[:m.start()].split('\n'); ls.pop()
        while ls and ls[-1].strip().startswith('//@'): anns.append(ls.pop().strip()[3:].strip())
        for a in reversed(anns):
            k, _, v = a.partition(' ')
            if k == 'pre:': c.pre = v if c.pre is None else '(%s)&&(%s)' % (c.pre, v)
            elif k == 'buf':
                for it in v.split(): n, s = it.split('='); c.bufs[n] = int(s)
            elif k == 'extra':
                for it in v.split(): n, s = it.split('='); c.extra[n] = int(s)
            elif k == 'link':       # link p+4=q+0
                for it in v.split():
                    l, r = it.split('='); l, lo = l.split('+'); r, ro = r.split('+'); c.links.append((l, int(lo), r, int(ro)))
            elif k == 'val':
                for it in v.split(): n, r = it.split('='); lo, hi = r.split('..'); c.vals[n] = (int(lo, 0), int(hi, 0))
            elif k == 'str':        # str p : NUL-terminated somewhere in its buffer
                for it in v.split(): c.strs[it] = True
            elif k == 'opt':
                for it in v.split():
                    n, _, s = it.partition('='); c.opts[n] = s or True
            else: raise ValueError('annotation ' + a)
        c.line = text.count('\n', 0, m.start()) + 1
        cases.append(c)
    return cases

_env = re.compile(r'^([A-Za-z_][\w \t]*?[ \t\*]+)env_(\w+)\(([^)]*)\)[ \t]*\{', re.M)
def env_stubs(text):
    """WASI imports played by functions env_<import> of the corpus: [(import, [parameter types])]"""
    out = []
    for m in _env.finditer(text):
        ps = [norm_t(re.match(r'(.*?)(\w+)$', p.strip()).group(1)) for p in m.group(3).split(',')] if m.group(3).strip() not in ('', 'void') else []
        out.append((m.group(2), ps))
    return out
def dummy_main(cases, text=''):
    out = []; n = 0
    env = env_stubs(text)
    if env:
        out += ['void d_env(void)', '{'] + ['  env_%s(%s);' % (f, ', '.join('(%s)%s' % (t, '64' if '*' in t else '1') for t in ps)) for f, ps in env] + ['}']
    for i in range(0, len(cases), 40):
        out += ['void d_main%d(void)' % n, '{']; n += 1
        for c in cases[i:i+40]:
            args = ', '.join('(%s)%s' % (t, '64' if '*' in t else '1') for _, t in c.params)
            out.append('  %s(%s);' % (c.name, args))
        out += ['}']
    out += ['int main(void)', '{'] + (['  d_env();'] if env else []) + ['  d_main%d();' % i for i in range(n)] + ['  return 0;', '}', '']
    return '\n'.join(out)

def pre_funcs(cases):
    out = []
    for c in cases:
        if c.pre:
            out.append('int pre_%s(%s){ return !!(%s); }' % (c.name, ', '.join('%s %s' % (t, n) for n, t in c.params) or 'void', c.pre))
    return '\n'.join(out) + '\n'

def prune(text, keep):
    """drop the cases whose name is not in keep (function text up to its closing brace at column 0)"""
    out = []; pos = 0
    for m in _fn.finditer(text):
        if m.group(2) in keep: continue
        e = text.find('\n}\n', m.end()); nl = text.find('\n', m.end())
        if text[m.end():nl].rstrip().endswith('}') and text[m.end():nl].count('{') + 1 == text[m.end():nl].count('}'): e2 = nl
        else: e2 = e + 2
        out.append(text[pos:m.start()]); out.append('\n' * text.count('\n', m.start(), e2)); pos = e2
    out.append(text[pos:])
    return ''.join(out)

def unit_src(b, name, unit, text):
    """wcpl's own modules in a scratch directory, with the harness text appended to module `unit`"""
    for f in 'clpw':
        for e in ('.c', '.h'):
            t = open('%s/%s%s' % (build.REPO, f, e), encoding='latin1').read().replace('\r', '')
            if f == 'c' and e == '.c': t = re.sub(r'(?m)^int main\(', 'int wcpl_main(', t)
            if f == unit and e == '.c': t += '\n' + text
            p = b.write('u_%s/%s%s' % (name, f, e), t.encode('latin1'))
    return b.path('u_%s/%s.c' % (name, unit))

def _uleb(v):
    o = b''
    while 1:
        c = v & 127; v >>= 7
        if v: o += bytes([c | 128])
        else: return o + bytes([c])
def named(b, path, srcs, opts, names):
    """binary modules carry no names: those of the text module of the same program (same order, same signatures), and
    exports for the functions `names` in a copy of the file -> (copy, parsed module with names)"""
    data = open(path, 'rb').read(); m = wasmir.parse_wasm(data)
    rc, log, t = b.link(srcs, path + '.names.wat', opts)
    if rc: raise ValueError('text form does not build: ' + log[-200:])
    tm = wasmir.parse_wat(open(t, encoding='latin1').read())
    if [(f.params, f.results, f.imp) for f in m.funcs] != [(f.params, f.results, f.imp) for f in tm.funcs] or [g[1] for g in m.globals] != [g[1] for g in tm.globals]: raise ValueError('functions or globals differ from those of the text form')
    for i, f in enumerate(tm.funcs): m.funcs[i].name = f.name; m.fidx[f.name] = i
    for i, g in enumerate(tm.globals): m.globals[i][0] = g[0]; m.gidx[g[0]] = i
    out = data[:8]; r = wasmir.Rd(data, 8); add = [(p + n, m.fidx[n]) for n in names if n in m.fidx for p in ('', 'x:')]
    while r.p < r.e:
        sid = r.u8(); n = r.uleb(); body = data[r.p:r.p + n]; r.p += n
        if sid == 7:
            q = wasmir.Rd(body, 0, len(body)); k = q.uleb()
            body = _uleb(k + len(add)) + body[q.p:] + b''.join(_uleb(len(x.encode())) + x.encode() + b'\0' + _uleb(i) for x, i in add)
        out += bytes([sid]) + _uleb(len(body)) + body
    p = path + '.x.wasm'; open(p, 'wb').write(out)
    return p, m

class Corpus:
    """one C text compiled by both compilers.  wvariants: {label: (kind 'wat'|'wasm', wcpl options)}"""
    def __init__(self, b, name, text, wvariants=None, refopt='-O0', prelude='', extra_w=(), ref_text=None, linkopts=(), unit=None):
        self.unit = unit; self.name = name; self.b = b; self.text = text
        self.cases = parse_cases(text); self.err = []
        self.by = {c.name: c for c in self.cases}; self.env = [f for f, _ in env_stubs(text)]
        self.ref = None; self.w = {}; self.wfile = {}
        rsrc = b.write(name + '_ref.c', prelude + (ref_text or text) + '\n' + pre_funcs(self.cases))
        rc, log, o = b.clang(rsrc, name + '_ref.wasm', refopt)
        if rc: raise RuntimeError('reference compile failed: ' + log[-3000:])
        self.reffile = o; self.ref = wasmir.parse_wasm(open(o, 'rb').read())
        wsrc = b.write(name + '.c', text + '\n' + dummy_main(self.cases, text)) if not unit else unit_src(b, name, unit, text + '\n' + dummy_main(self.cases, text)); self.wsrc = wsrc
        if unit: extra_w = [os.path.join(os.path.dirname(wsrc), x + '.c') for x in 'clpw' if x != unit] + list(extra_w); linkopts = list(linkopts) + ['-I', os.path.dirname(wsrc) + '/']
        self.variants = wvariants or {'O3': ('wat', [])}; self.extra_w = list(extra_w); self.linkopts = list(linkopts)
        for lab, (kind, opts) in self.variants.items():
            rc, log, o = b.link([wsrc] + list(extra_w), '%s.%s.%s' % (name, lab, kind), list(opts) + list(linkopts))
            if rc: self.err.append((lab, rc, log)); continue
            if kind == 'wasm':
                try: o, m = named(b, o, [wsrc] + list(extra_w), list(opts) + list(linkopts), [self.b_mod() + ':' + x for x in list(self.by) + ['env_' + f for f in self.env]])
                except (ValueError, IndexError, KeyError, struct.error) as e: self.err.append((lab, 'malformed binary', repr(e))); continue
                self.wfile[lab] = o; self.w[lab] = m; continue
            self.wfile[lab] = o
            self.w[lab] = wasmir.parse_wat(open(o, encoding='latin1').read())
    def single(self, lab, case):
        """the program reduced to this case (replay artefact); None if it does not build on its own"""
        if self.unit: return self.wfile[lab]
        kind, opts = self.variants[lab]
        p = self.b.write('one/%s_%s/%s.c' % (case.name, lab, self.name), prune(self.text, {case.name}) + '\n' + dummy_main([case], self.text))
        rc, log, o = self.b.link([p] + list(self.extra_w), p[:-1] + kind, list(opts) + list(self.linkopts))
        if rc == 0 and kind == 'wasm':
            try: o = named(self.b, o, [p] + list(self.extra_w), list(opts) + list(self.linkopts), [self.b_mod() + ':' + case.name] + [self.b_mod() + ':env_' + f for f in self.env])[0]
            except (ValueError, IndexError, KeyError, struct.error): pass
        return o if rc == 0 else None
    def wname(self, lab, fn):
        return self.b_mod() + ':' + fn
    def b_mod(self): return self.unit or self.name

def rng_val(v, w, signed): return v & ((1 << w) - 1)

class Inputs:
    """shared symbolic inputs of a case"""
    def __init__(self, case):
        self.bounds = {}; self.args = []; self.sym = []; self.bufs = []; self.assume = []; self.argt = []
        addr = {}; a = BASE
        for n, t in case.params:
            if '*' in t: addr[n] = a; a += STEP
        for n in case.extra: addr[n] = a; a += STEP
        self.addr = addr
        for n, t in case.params:
            if '*' in t:
                self.args.append(addr[n]); self.argt.append(t)
                sz = case.bufs.get(n, 16)
                self.addbuf(n, t[:-1].strip(), addr[n], sz, case)
            elif t in FLT:
                v = z3.BitVec(n, FLT[t]); self.sym.append(v); self.args.append(v); self.argt.append(t)
            elif t in INT:
                w, s = INT[t]; v = z3.BitVec(n, w); self.sym.append(v); self.argt.append(t)
                if n in case.vals:
                    lo, hi = case.vals[n]
                    if hi < 1 << (w-1): self.bounds[n] = (lo, hi)
                    if s: self.assume += [v >= lo, v <= hi]
                    else: self.assume += [z3.UGE(v, lo), z3.ULE(v, hi)]
                if w < 32: v = z3.SignExt(32-w, v) if s else z3.ZeroExt(32-w, v)
                self.args.append(v)
            else: raise ValueError('param type %s in %s' % (t, case.name))
        for n, sz in case.extra.items(): self.addbuf(n, '', addr[n], sz, case)
        for l, lo, r, ro in case.links:
            for b in self.bufs:
                if b[0] == l: b[4].append((lo, addr[r] + ro))
    def addbuf(self, n, t, addr, sz, case):
        es = 1; fl = 0
        if t in FLT: es = FLT[t]//8; fl = 1
        elif t in INT: es = max(1, INT[t][0]//8)
        elif t.endswith('*'): es = 4
        elems = [z3.BitVec('%s_%d' % (n, i), 8*es) for i in range(sz//es)]
        self.sym += elems
        if n in case.strs: self.assume.append(elems[-1] == 0)
        self.bufs.append([n, addr, sz, es, [], fl, elems])
    def setup(self, st):
        if st.mem.pages < PAGES: st.mem.pages = PAGES
        for n, addr, sz, es, links, fl, elems in self.bufs:
            for i, e in enumerate(elems): st.mem.store(addr + i*es, e, es)
            for off, v in links: st.mem.store(addr+off, v, 4)
    def concrete(self, model):
        def ev(x):
            if type(x) is int: return x
            return model.eval(x, model_completion=True).as_long()
        args = [ev(a) for a in self.args]; mem = []
        for n, addr, sz, es, links, fl, elems in self.bufs:
            d = bytearray(b''.join(ev(e).to_bytes(es, 'little') for e in elems))
            for off, v in links: d[off:off+4] = v.to_bytes(4, 'little')
            mem.append((addr, bytes(d)))
        return args, mem
    def describe(self, case, model):
        args, mem = self.concrete(model); out = {}
        for (n, t), a in zip(case.params, args): out[n] = '0x%x' % a if '*' not in t else 'buffer'
        for b, (a, d) in zip(self.bufs, mem): out['*' + b[0]] = d.hex()
        return out

def ret_eq(t, a, b):
    """property term: results equal as values of C type t"""
    if t == 'void': return z3.BoolVal(True)
    if t in FLT: return feq_bits(a, b, FLT[t])
    if '*' in t: return bv(a, 32) == bv(b, 32)
    w, s = INT[t]
    if w == 64: return bv(a, 64) == bv(b, 64)
    if w == 32: return bv(a, 32) == bv(b, 32)
    if w == 1: w = 8
    x, y = bv(a, 32), bv(b, 32)
    return z3.Extract(w-1, 0, x) == z3.Extract(w-1, 0, y)

def mem_eq(inp, m1, m2):
    out = []
    for n, addr, sz, es, links, fl, elems in inp.bufs:
        for i in range(0, sz, es):
            x = m1.load(addr+i, es); y = m2.load(addr+i, es)
            if x is y or (type(x) is int and type(y) is int and x == y): continue
            if type(x) is not int and type(y) is not int and x.eq(y): continue
            out.append(feq_bits(x, y, 8*es) if fl else bv(x, 8*es) == bv(y, 8*es))
    return out

def vals_equal(t, a, b):
    if t == 'void': return True
    if t in FLT: n = FLT[t]; return a == b or (symex._isnan_i(a, n) and symex._isnan_i(b, n))
    w = 32 if '*' in t else max(8, INT[t][0]); M = (1 << w) - 1
    return (a & M) == (b & M)
def bufs_equal(inp, x, y):
    for (n, addr, sz, es, links, fl, elems), p, q in zip(inp.bufs, x, y):
        if p == q: continue
        if not fl: return False
        for i in range(0, sz, es):
            u = int.from_bytes(p[i:i+es], 'little'); v = int.from_bytes(q[i:i+es], 'little')
            if u != v and not (symex._isnan_i(u, 8*es) and symex._isnan_i(v, 8*es)): return False
    return True

def replay_jobs(case, inp, model, wfile, wfn, reffile, stubs=None):
    args, mem = inp.concrete(model); reads = [(b[1], b[2]) for b in inp.bufs]
    text = wfile.endswith('.wat')
    return [dict(file=wfile, text=text, expose=[wfn] + list((stubs or {}).values()), stubs=stubs, fn=wfn, args=args, mem=mem, reads=reads, pages=PAGES),
            dict(file=reffile, text=False, fn=case.name, args=args, mem=mem, reads=reads, pages=PAGES)] + (
            [dict(file=reffile, text=False, fn='pre_' + case.name, args=args, mem=mem, reads=[], pages=PAGES)] if case.pre else [])

def judge(case, inp, rw, rr, rp=None):
    """compare two concrete results; returns None or text"""
    if rr['kind'] != 'ret': return None
    if rp is not None and (rp['kind'] != 'ret' or not rp['results'][0]): return None   # outside the precondition
    if rw['kind'] == 'exit' and 'exit' in case.opts: rw = dict(rw, kind='ret')
    if rw['kind'] == 'error': return None
    if rw['kind'] == 'fuel': return 'does not terminate (fuel exhausted), reference returns'
    if rw['kind'] != 'ret': return '%s: %s; reference returns %s' % (rw['kind'], rw.get('msg', '')[-120:].strip(), fmt(rr['results']))
    if case.ret != 'void' and not vals_equal(case.ret, rw['results'][0], rr['results'][0]):
        return 'returns %s, C semantics (clang) gives %s' % (fmt(rw['results']), fmt(rr['results']))
    if not bufs_equal(inp, rw['mem'], rr['mem']):
        return 'memory after the call is %s, C semantics (clang) gives %s' % ([x.hex() for x in rw['mem']], [x.hex() for x in rr['mem']])
    return None
def fmt(r): return '[' + ','.join('0x%x' % x for x in r) + ']'

def check_case(corp, lab, case, fpmode='uf', timeout=30000, deadline=None, max_paths=4000, max_steps=400000, wfn=None, wmod=None, wfile=None, refmod=None, reffile=None, eng_opts=None, retry=True):
    max_paths = int(case.opts.get('paths', max_paths)); max_steps = max(max_steps, int(case.opts.get('steps', 0)))
    wmod = wmod or corp.w[lab]; wfile = wfile or corp.wfile[lab]; refmod = refmod or corp.ref; reffile = reffile or corp.reffile
    wfn = wfn or corp.wname(lab, case.name)
    res = dict(status='proved', detail='', paths=0, pairs=0, queries=0, solver_s=0.0, steps=0, funcs=[], validate=[])
    if wfn not in wmod.fidx: res['status'] = 'inconclusive'; res['detail'] = 'function not in output: ' + wfn; return res
    inp = Inputs(case)
    er = Engine(refmod, fpmode=fpmode, timeout_ms=timeout, max_paths=max_paths, max_steps=max_steps)
    ew = Engine(wmod, fpmode=fpmode, timeout_ms=timeout, max_paths=max_paths, max_steps=max_steps)
    stubs = {f: corp.wname(lab, 'env_' + f) for f in corp.env if corp.wname(lab, 'env_' + f) in wmod.fidx} if corp is not None else {}
    ew.stubs = {f: wmod.funcs[wmod.fidx[n]] for f, n in stubs.items()}
    er.ranges.B = ew.ranges.B = inp.bounds
    if eng_opts: eng_opts(er, ew)
    if deadline: er.deadline = ew.deadline = time.time() + deadline
    uses_f = False; samples = []; maxsteps = 0
    try:
        st = er.state(); inp.setup(st); ok = True
        for a in inp.assume: ok = ok and er.assume(st, a)
        if not ok: res['status'] = 'inconclusive'; res['detail'] = 'vacuous precondition'; return res
        starts = [st]
        if case.pre:
            s0 = er.state(); inp.setup(s0); s0.pc = list(st.pc); s0.model = st.model; starts = []
            for k, r, s in er.call(s0, 'pre_' + case.name, list(inp.args)):
                if k != 'ret': continue
                t = symex.truth(r[0])
                if isinstance(t, bool):
                    if not t: continue
                elif not er.assume(s, t): continue
                n = er.state(); inp.setup(n); n.pc = list(s.pc); n.model = s.model; starts.append(n)
        npair = 0
        for s0 in starts:
            for k, r, s in er.call(s0, case.name, list(inp.args)):
                res['paths'] += 1
                if k != 'ret': continue
                w0 = ew.state(); inp.setup(w0); w0.pc = list(s.pc); w0.model = s.model
                ew.step_bound = 40 * s.steps + int(case.opts.get('steps', 4000))
                for k2, r2, s2 in ew.call(w0, wfn, list(inp.args)):
                    if k2 == 'exit' and 'exit' in case.opts: k2 = 'ret'
                    npair += 1; maxsteps = max(maxsteps, s2.steps)
                    if k2 != 'ret':
                        m = s2.model or ew.check(s2.pc)[1]
                        if m is None: continue
                        return finish(res, er, ew, case, inp, m, k2, wfile, wfn, reffile, fpmode, corp, lab, locals())
                    props = mem_eq(inp, s.mem, s2.mem)
                    if case.ret != 'void': props.append(ret_eq(case.ret, r[0], r2[0]))
                    m = ew.prove(s2, z3.And(*props) if len(props) != 1 else props[0]) if props else None
                    if m is not None:
                        return finish(res, er, ew, case, inp, m, 'result', wfile, wfn, reffile, fpmode, corp, lab, locals())
                    if len(samples) < 2 and s2.model is not None: samples.append(s2.model)
        res['pairs'] = npair
        if npair == 0: res['status'] = 'inconclusive'; res['detail'] = 'vacuous: no returning path'
    except BoundExceeded as e:
        # the compiled code ran far longer than the reference on some input: possible non-termination; replay decides
        m = e.state.model or ew.check(e.state.pc)[1]
        if m is not None: return finish(res, er, ew, case, inp, m, 'step bound', wfile, wfn, reffile, fpmode, corp, lab, locals())
        res['status'] = 'inconclusive'; res['detail'] = 'step bound'
    except Inconclusive as e:
        res['status'] = 'inconclusive'; res['detail'] = str(e)
    except z3.Z3Exception as e:
        res['status'] = 'inconclusive'; res['detail'] = 'z3: ' + str(e)[:200]
    stats(res, er, ew)
    for m in samples:
        res['validate'].append((replay_jobs(case, inp, m, wfile, wfn, reffile, stubs), inp.describe(case, m)))
    return res

def stats(res, er, ew):
    for e in (er, ew):
        res['queries'] += e.stats.queries; res['solver_s'] += e.stats.qtime; res['steps'] += e.stats.steps
    res['solver_s'] = round(res['solver_s'], 3)
    res['funcs'] = sorted(ew.funcs_run)

def finish(res, er, ew, case, inp, m, why, wfile, wfn, reffile, fpmode, corp, lab, loc):
    stats(res, er, ew)
    small = corp.single(lab, case) if corp is not None else None
    jobs = replay_jobs(case, inp, m, small or wfile, wfn, reffile, loc['stubs'])
    out = replay.run_jobs(jobs); j = judge(case, inp, *out)
    res['cex'] = inp.describe(case, m)
    if j:
        res['status'] = 'violation'; res['detail'] = j
        return res
    if fpmode == 'uf' and loc.get('retry', True):
        r2 = check_case(corp, lab, case, 'fp', 30000, 60, wfn=wfn, wmod=loc['wmod'], wfile=wfile, refmod=loc['refmod'], reffile=reffile, eng_opts=loc['eng_opts'], retry=False)
        r2['queries'] += res['queries']; return r2
    res['status'] = 'inconclusive'; res['detail'] = 'counterexample (%s) did not reproduce on the real runtime: %s' % (why, res['cex'])
    return res
