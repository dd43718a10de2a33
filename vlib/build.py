"""Scratch builds: wcpl and its library from /repo's working tree, programs with wcpl, reference modules with clang."""
import os, subprocess, tempfile, shutil, glob, atexit, hashlib, json
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(os.environ, LC_ALL='C'); ENV.pop('WCPL_LIBRARY_PATH', None); ENV.pop('WCPL_INCLUDE_PATH', None)

class BuildError(Exception): pass

def run(cmd, cwd=None, timeout=120, inp=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=inp, env=env or ENV)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return -999, b'', b'timeout'

class Build:
    """self.dir: scratch; self.wcpl; self.lib (with trailing /)"""
    def __init__(self, lib=True, keep=None):
        self.dir = tempfile.mkdtemp(prefix='verif.')
        self.owner = os.getpid()
        atexit.register(self.close)
        self.wcpl = os.path.join(self.dir, 'wcpl')
        srcs = sorted(glob.glob(REPO + '/*.c'))
        objs = []; ps = []
        for s in srcs:
            o = os.path.join(self.dir, os.path.basename(s)[:-2] + '.o'); objs.append(o)
            ps.append((s, subprocess.Popen(['gcc', '-g', '-O1', '-w', '-c', '-o', o, s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)))
        for s, p in ps:
            out, _ = p.communicate()
            if p.returncode: raise BuildError('gcc failed on %s: %s' % (s, out.decode('latin1')[-2000:]))
        rc, o, e = run(['gcc', '-o', self.wcpl] + objs + ['-lm'])
        if rc: raise BuildError('link failed: ' + e.decode('latin1')[-2000:])
        self.lib = os.path.join(self.dir, 'lib/'); os.mkdir(self.lib)
        self.inc = REPO + '/lib/include/'
        self.liberr = {}
        if lib:
            ps = []
            for s in sorted(glob.glob(REPO + '/lib/src/*.c')):
                b = os.path.basename(s)
                ps.append((b, subprocess.Popen([self.wcpl, '-q', '-c', '-I', '../include/', '-o', self.lib + b[:-2] + '.wo', b], cwd=REPO + '/lib/src',
                                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV)))
            for b, p in ps:
                try: out, _ = p.communicate(timeout=120)
                except subprocess.TimeoutExpired: p.kill(); out = b'timeout'
                if p.returncode: self.liberr[b] = out.decode('latin1')[-2000:]
        self.n = 0
    def close(self):
        if os.getpid() == self.owner and os.path.isdir(self.dir) and self.dir.startswith(tempfile.gettempdir() + '/verif.'):
            shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, name):
        d = os.path.join(self.dir, 'w'); os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)
    def write(self, name, text):
        p = self.path(name); os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb' if isinstance(text, bytes) else 'w').write(text); return p
    def link(self, srcs, out, extra=(), timeout=120, cwd=None, inc=None, lib=None):
        """compile+link with wcpl -> (rc, log)"""
        out = out if out.startswith('/') else self.path(out)
        if '@wo' in extra:      # through object files
            extra = [x for x in extra if x != '@wo']; os_ = []
            for f in srcs:
                if f.endswith('.c'):
                    w = out + '.' + os.path.basename(f)[:-2] + '.wo'; opt = [x for i, x in enumerate(extra) if x in ('-O', '-I') or i and extra[i-1] in ('-O', '-I')]
                    rc, log, _ = self.compile(f, w, opt, inc=inc, timeout=timeout)
                    if rc: return rc, log, out
                    f = w
                os_.append(f)
            srcs = os_
        rc, o, e = run([self.wcpl, '-q', '-L', lib or self.lib, '-I', inc or self.inc] + list(extra) + ['-o', out] + list(srcs), timeout=timeout, cwd=cwd)
        return rc, (o + e).decode('latin1'), out
    def compile(self, src, out, extra=(), inc=None, timeout=120):
        out = out if out.startswith('/') else self.path(out)
        rc, o, e = run([self.wcpl, '-q', '-c', '-I', inc or self.inc] + list(extra) + ['-o', out, src], timeout=timeout)
        return rc, (o + e).decode('latin1'), out
    def clang(self, src, out, opt='-O0', extra=(), timeout=120):
        out = out if out.startswith('/') else self.path(out)
        cmd = ['clang', '--target=wasm32', opt, '-nostdlib', '-ffreestanding', '-fwrapv', '-fno-strict-aliasing', '-fno-builtin', '-ffp-contract=off', '-w', '-mbulk-memory', '-msign-ext',
               '-mno-nontrapping-fptoint', '-std=gnu11', '-Wl,--no-entry', '-Wl,--export-all', '-Wl,--allow-undefined', '-Wl,-z,stack-size=65536'] + list(extra) + ['-o', out, src]
        rc, o, e = run(cmd, timeout=timeout)
        return rc, (o + e).decode('latin1'), out

def read(p, mode='r'):
    if mode == 'r':
        with open(p, encoding='latin1') as f: return f.read()
    with open(p, 'rb') as f: return f.read()
