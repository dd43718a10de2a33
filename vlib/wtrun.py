"""Concrete runner on the real WebAssembly runtime (run with /opt/vp/venv/bin/python).
stdin: pickled list of jobs; job: dict(file, text(bool), exports=[names to expose], calls=[(fn, [args as (type,bits)], mem=[(addr,bytes)], reads=[(addr,n)], globals=[])], pages)
stdout: pickled list of results per call: dict(kind, results, mem) ."""
import sys, pickle, struct, re
import wasmtime as w, ctypes
from wasmtime import _ffi as ffi
from wasmtime._extern import wrap_extern
class Exports:
    def __init__(self, st, inst): self.st = st; self.inst = inst
    def __getitem__(self, name):
        item = ffi.wasmtime_extern_t(); b = name.encode()
        if not ffi.wasmtime_instance_export_get(self.st._context(), ctypes.byref(self.inst._instance), ctypes.create_string_buffer(b), len(b), ctypes.byref(item)): raise KeyError(name)
        return wrap_extern(item)

def expose(text, names):
    names = set(names)
    def f(m): return '(func $%s (export "x:%s")' % (m.group(1), m.group(1)) if m.group(1) in names else m.group(0)
    return re.sub(r'\(func \$([^\s()]+)(?=[\s)(])', f, text)

def main():
    jobs = pickle.loads(sys.stdin.buffer.read()); out = []
    cfg = w.Config(); cfg.consume_fuel = True
    try: cfg.cranelift_opt_level = 'none'
    except Exception: pass
    names = {}
    for j in jobs: names.setdefault(j['file'], set()).update(j.get('expose', []))
    eng = w.Engine(cfg); cache = {}
    for job in jobs:
        key = job['file']
        if key not in cache:
          try:
            if job['text']: mod = w.Module(eng, expose(open(job['file'], encoding='latin1').read(), names[key]))
            else: mod = w.Module.from_file(eng, job['file'])
            cache[key] = mod
          except w.WasmtimeError as e:
            out.append(dict(kind='invalid module', results=[], msg=' '.join(str(e).split())[-300:])); continue
        mod = cache[key]; mem = None
        st = w.Store(eng); st.set_fuel(200000000)
        wc = w.WasiConfig(); st.set_wasi(wc)
        lk = w.Linker(eng); lk.define_wasi()
        if job.get('stubs'):
            lk.allow_shadowing = True
            for im in mod.imports:
                t = job['stubs'].get(im.name)
                if t is None: continue
                def cb(caller, *a, t=t): return caller['x:' + t](caller, *a)
                lk.define_func(im.module, im.name, im.type, cb, access_caller=True)
        try:
            try: inst = lk.instantiate(st, mod)
            except Exception:
                lk.define_unknown_imports_as_traps(mod); inst = lk.instantiate(st, mod)
            ex = Exports(st, inst); mem = ex['memory']
            need = job.get('pages', 16) - mem.size(st)
            if need > 0: mem.grow(st, need)
            for a, b in job.get('mem', []): mem.write(st, bytes(b), a)
            fn = ex[('x:' if job['text'] else '') + job['fn']]; ty = fn.type(st)
            args = []
            for p, v in zip(ty.params, job['args']):
                p = str(p)
                if p == 'i32': args.append(v - (1 << 32) if v >> 31 else v)
                elif p == 'i64': args.append(v - (1 << 64) if v >> 63 else v)
                elif p == 'f32': args.append(struct.unpack('<f', struct.pack('<I', v))[0])
                else: args.append(struct.unpack('<d', struct.pack('<Q', v))[0])
            r = fn(st, *args)
            if r is None: rs = []
            elif isinstance(r, list): rs = r
            else: rs = [r]
            bits = []
            for t, v in zip(ty.results, rs):
                t = str(t)
                if t == 'i32': bits.append(v & 0xFFFFFFFF)
                elif t == 'i64': bits.append(v & (2**64 - 1))
                elif t == 'f32': bits.append(struct.unpack('<I', struct.pack('<f', v))[0])
                else: bits.append(struct.unpack('<Q', struct.pack('<d', v))[0])
            o = dict(kind='ret', results=bits)
        except w.ExitTrap as e: o = dict(kind='exit', results=[e.code])
        except (w.Trap, w.WasmtimeError) as e:
            s = str(e); o = dict(kind='fuel' if 'fuel' in s else 'error' if 'mmap' in s or 'allocate memory' in s else 'trap', results=[], msg=s[-300:])
        except Exception as e:
            o = dict(kind='error', results=[], msg=repr(e)[-300:])
        if o['kind'] in ('ret', 'trap', 'exit'):
            try: o['mem'] = [bytes(mem.read(st, a, a+n)) for a, n in job.get('reads', [])]
            except Exception as e: o['mem'] = []
        out.append(o)
    sys.stdout.buffer.write(pickle.dumps(out))
main()
