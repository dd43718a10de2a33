"""WebAssembly front end: parse the WAT text emitted by wcpl (linked modules and
relocatable .wo objects) and .wasm binaries (wcpl's and clang's) into one IR.

IR instruction: tuple (op, *immediates); op is the textual mnemonic.
Branch depths are numeric.  br_table: ('br_table', [depths...]) (last = default).
"""
import re, struct

VT = {0x7F: 'i32', 0x7E: 'i64', 0x7D: 'f32', 0x7C: 'f64', 0x7B: 'v128', 0x70: 'funcref', 0x6F: 'externref'}

class Func:
    __slots__ = ('name', 'params', 'results', 'locals', 'code', 'imp', 'index', 'lnames', 'cc', 'exports')
    def __init__(self, name, params, results):
        self.name = name; self.params = params; self.results = results
        self.locals = []; self.code = []; self.imp = None; self.index = -1
        self.lnames = []; self.cc = None; self.exports = []

class Module:
    def __init__(self):
        self.funcs = []; self.globals = []   # globals: [name, vt, mutable, init, imp]
        self.datas = []      # (addr, bytes)
        self.tables = {}     # elem index -> func index
        self.tsize = 0
        self.pages = 0; self.maxpages = None; self.memimp = None
        self.exports = {}    # name -> (kind, index)
        self.fidx = {}; self.gidx = {}; self.name = None
    def func(self, name):
        return self.funcs[self.fidx[name]]

# ---------------------------------------------------------------- binary

class Rd:
    def __init__(self, b, p=0, e=None):
        self.b = b; self.p = p; self.e = len(b) if e is None else e
    def u8(self):
        if self.p >= self.e: raise ValueError('eof')
        v = self.b[self.p]; self.p += 1; return v
    def uleb(self, bits=32):
        r = s = 0
        while True:
            c = self.u8(); r |= (c & 0x7F) << s; s += 7
            if not c & 0x80: break
            if s > bits + 6: raise ValueError('uleb too long')
        if r >> bits: raise ValueError('uleb overflow %x' % r)
        return r
    def sleb(self, bits):
        r = s = 0
        while True:
            c = self.u8(); r |= (c & 0x7F) << s; s += 7
            if not c & 0x80: break
            if s > bits + 6: raise ValueError('sleb too long')
        if c & 0x40: r -= 1 << s
        if not -(1 << (bits-1)) <= r < (1 << (bits-1)): raise ValueError('sleb overflow')
        return r
    def bytes(self, n):
        if self.p + n > self.e: raise ValueError('eof')
        v = self.b[self.p:self.p+n]; self.p += n; return bytes(v)
    def name(self):
        return self.bytes(self.uleb()).decode('utf8')

OPS = {0x00:'unreachable',0x01:'nop',0x02:'block',0x03:'loop',0x04:'if',0x05:'else',0x0B:'end',0x0C:'br',0x0D:'br_if',
0x0E:'br_table',0x0F:'return',0x10:'call',0x11:'call_indirect',0x1A:'drop',0x1B:'select',0x1C:'select_t',
0x20:'local.get',0x21:'local.set',0x22:'local.tee',0x23:'global.get',0x24:'global.set',0x25:'table.get',0x26:'table.set',
0x3F:'memory.size',0x40:'memory.grow',0x41:'i32.const',0x42:'i64.const',0x43:'f32.const',0x44:'f64.const',
0xD0:'ref.null',0xD1:'ref.is_null',0xD2:'ref.func'}
_mem = ['i32.load','i64.load','f32.load','f64.load','i32.load8_s','i32.load8_u','i32.load16_s','i32.load16_u','i64.load8_s','i64.load8_u',
 'i64.load16_s','i64.load16_u','i64.load32_s','i64.load32_u','i32.store','i64.store','f32.store','f64.store','i32.store8','i32.store16',
 'i64.store8','i64.store16','i64.store32']
for i,n in enumerate(_mem): OPS[0x28+i]=n
_num = '''i32.eqz i32.eq i32.ne i32.lt_s i32.lt_u i32.gt_s i32.gt_u i32.le_s i32.le_u i32.ge_s i32.ge_u
i64.eqz i64.eq i64.ne i64.lt_s i64.lt_u i64.gt_s i64.gt_u i64.le_s i64.le_u i64.ge_s i64.ge_u
f32.eq f32.ne f32.lt f32.gt f32.le f32.ge f64.eq f64.ne f64.lt f64.gt f64.le f64.ge
i32.clz i32.ctz i32.popcnt i32.add i32.sub i32.mul i32.div_s i32.div_u i32.rem_s i32.rem_u i32.and i32.or i32.xor i32.shl i32.shr_s i32.shr_u i32.rotl i32.rotr
i64.clz i64.ctz i64.popcnt i64.add i64.sub i64.mul i64.div_s i64.div_u i64.rem_s i64.rem_u i64.and i64.or i64.xor i64.shl i64.shr_s i64.shr_u i64.rotl i64.rotr
f32.abs f32.neg f32.ceil f32.floor f32.trunc f32.nearest f32.sqrt f32.add f32.sub f32.mul f32.div f32.min f32.max f32.copysign
f64.abs f64.neg f64.ceil f64.floor f64.trunc f64.nearest f64.sqrt f64.add f64.sub f64.mul f64.div f64.min f64.max f64.copysign
i32.wrap_i64 i32.trunc_f32_s i32.trunc_f32_u i32.trunc_f64_s i32.trunc_f64_u i64.extend_i32_s i64.extend_i32_u i64.trunc_f32_s i64.trunc_f32_u i64.trunc_f64_s i64.trunc_f64_u
f32.convert_i32_s f32.convert_i32_u f32.convert_i64_s f32.convert_i64_u f32.demote_f64 f64.convert_i32_s f64.convert_i32_u f64.convert_i64_s f64.convert_i64_u f64.promote_f32
i32.reinterpret_f32 i64.reinterpret_f64 f32.reinterpret_i32 f64.reinterpret_i64
i32.extend8_s i32.extend16_s i64.extend8_s i64.extend16_s i64.extend32_s'''.split()
for i,n in enumerate(_num): OPS[0x45+i]=n
OPS_FC = dict(enumerate('''i32.trunc_sat_f32_s i32.trunc_sat_f32_u i32.trunc_sat_f64_s i32.trunc_sat_f64_u
i64.trunc_sat_f32_s i64.trunc_sat_f32_u i64.trunc_sat_f64_s i64.trunc_sat_f64_u memory.init data.drop memory.copy memory.fill
table.init elem.drop table.copy table.grow table.size table.fill'''.split()))
# SIMD opcode space (0xFD prefix)
_fd = '''00 v128.load|01 v128.load8x8_s|02 v128.load8x8_u|03 v128.load16x4_s|04 v128.load16x4_u|05 v128.load32x2_s|06 v128.load32x2_u
07 v128.load8_splat|08 v128.load16_splat|09 v128.load32_splat|0a v128.load64_splat|0b v128.store|0c v128.const|0d i8x16.shuffle|0e i8x16.swizzle
0f i8x16.splat|10 i16x8.splat|11 i32x4.splat|12 i64x2.splat|13 f32x4.splat|14 f64x2.splat
15 i8x16.extract_lane_s|16 i8x16.extract_lane_u|17 i8x16.replace_lane|18 i16x8.extract_lane_s|19 i16x8.extract_lane_u|1a i16x8.replace_lane
1b i32x4.extract_lane|1c i32x4.replace_lane|1d i64x2.extract_lane|1e i64x2.replace_lane|1f f32x4.extract_lane|20 f32x4.replace_lane|21 f64x2.extract_lane|22 f64x2.replace_lane
23 i8x16.eq|24 i8x16.ne|25 i8x16.lt_s|26 i8x16.lt_u|27 i8x16.gt_s|28 i8x16.gt_u|29 i8x16.le_s|2a i8x16.le_u|2b i8x16.ge_s|2c i8x16.ge_u
2d i16x8.eq|2e i16x8.ne|2f i16x8.lt_s|30 i16x8.lt_u|31 i16x8.gt_s|32 i16x8.gt_u|33 i16x8.le_s|34 i16x8.le_u|35 i16x8.ge_s|36 i16x8.ge_u
37 i32x4.eq|38 i32x4.ne|39 i32x4.lt_s|3a i32x4.lt_u|3b i32x4.gt_s|3c i32x4.gt_u|3d i32x4.le_s|3e i32x4.le_u|3f i32x4.ge_s|40 i32x4.ge_u
41 f32x4.eq|42 f32x4.ne|43 f32x4.lt|44 f32x4.gt|45 f32x4.le|46 f32x4.ge|47 f64x2.eq|48 f64x2.ne|49 f64x2.lt|4a f64x2.gt|4b f64x2.le|4c f64x2.ge
4d v128.not|4e v128.and|4f v128.andnot|50 v128.or|51 v128.xor|52 v128.bitselect|53 v128.any_true
54 v128.load8_lane|55 v128.load16_lane|56 v128.load32_lane|57 v128.load64_lane|58 v128.store8_lane|59 v128.store16_lane|5a v128.store32_lane|5b v128.store64_lane
5c v128.load32_zero|5d v128.load64_zero|5e f32x4.demote_f64x2_zero|5f f64x2.promote_low_f32x4
60 i8x16.abs|61 i8x16.neg|62 i8x16.popcnt|63 i8x16.all_true|64 i8x16.bitmask|65 i8x16.narrow_i16x8_s|66 i8x16.narrow_i16x8_u
67 f32x4.ceil|68 f32x4.floor|69 f32x4.trunc|6a f32x4.nearest|6b i8x16.shl|6c i8x16.shr_s|6d i8x16.shr_u|6e i8x16.add|6f i8x16.add_sat_s|70 i8x16.add_sat_u
71 i8x16.sub|72 i8x16.sub_sat_s|73 i8x16.sub_sat_u|74 f64x2.ceil|75 f64x2.floor|76 i8x16.min_s|77 i8x16.min_u|78 i8x16.max_s|79 i8x16.max_u|7a f64x2.trunc|7b i8x16.avgr_u
7c i16x8.extadd_pairwise_i8x16_s|7d i16x8.extadd_pairwise_i8x16_u|7e i32x4.extadd_pairwise_i16x8_s|7f i32x4.extadd_pairwise_i16x8_u
80 i16x8.abs|81 i16x8.neg|82 i16x8.q15mulr_sat_s|83 i16x8.all_true|84 i16x8.bitmask|85 i16x8.narrow_i32x4_s|86 i16x8.narrow_i32x4_u
87 i16x8.extend_low_i8x16_s|88 i16x8.extend_high_i8x16_s|89 i16x8.extend_low_i8x16_u|8a i16x8.extend_high_i8x16_u|8b i16x8.shl|8c i16x8.shr_s|8d i16x8.shr_u
8e i16x8.add|8f i16x8.add_sat_s|90 i16x8.add_sat_u|91 i16x8.sub|92 i16x8.sub_sat_s|93 i16x8.sub_sat_u|94 f64x2.nearest|95 i16x8.mul|96 i16x8.min_s|97 i16x8.min_u|98 i16x8.max_s|99 i16x8.max_u|9b i16x8.avgr_u
9c i16x8.extmul_low_i8x16_s|9d i16x8.extmul_high_i8x16_s|9e i16x8.extmul_low_i8x16_u|9f i16x8.extmul_high_i8x16_u
a0 i32x4.abs|a1 i32x4.neg|a3 i32x4.all_true|a4 i32x4.bitmask|a7 i32x4.extend_low_i16x8_s|a8 i32x4.extend_high_i16x8_s|a9 i32x4.extend_low_i16x8_u|aa i32x4.extend_high_i16x8_u
ab i32x4.shl|ac i32x4.shr_s|ad i32x4.shr_u|ae i32x4.add|b1 i32x4.sub|b5 i32x4.mul|b6 i32x4.min_s|b7 i32x4.min_u|b8 i32x4.max_s|b9 i32x4.max_u|ba i32x4.dot_i16x8_s
bc i32x4.extmul_low_i16x8_s|bd i32x4.extmul_high_i16x8_s|be i32x4.extmul_low_i16x8_u|bf i32x4.extmul_high_i16x8_u
c0 i64x2.abs|c1 i64x2.neg|c3 i64x2.all_true|c4 i64x2.bitmask|c7 i64x2.extend_low_i32x4_s|c8 i64x2.extend_high_i32x4_s|c9 i64x2.extend_low_i32x4_u|ca i64x2.extend_high_i32x4_u
cb i64x2.shl|cc i64x2.shr_s|cd i64x2.shr_u|ce i64x2.add|d1 i64x2.sub|d5 i64x2.mul|d6 i64x2.eq|d7 i64x2.ne|d8 i64x2.lt_s|d9 i64x2.gt_s|da i64x2.le_s|db i64x2.ge_s
dc i64x2.extmul_low_i32x4_s|dd i64x2.extmul_high_i32x4_s|de i64x2.extmul_low_i32x4_u|df i64x2.extmul_high_i32x4_u
e0 f32x4.abs|e1 f32x4.neg|e3 f32x4.sqrt|e4 f32x4.add|e5 f32x4.sub|e6 f32x4.mul|e7 f32x4.div|e8 f32x4.min|e9 f32x4.max|ea f32x4.pmin|eb f32x4.pmax
ec f64x2.abs|ed f64x2.neg|ef f64x2.sqrt|f0 f64x2.add|f1 f64x2.sub|f2 f64x2.mul|f3 f64x2.div|f4 f64x2.min|f5 f64x2.max|f6 f64x2.pmin|f7 f64x2.pmax
f8 i32x4.trunc_sat_f32x4_s|f9 i32x4.trunc_sat_f32x4_u|fa f32x4.convert_i32x4_s|fb f32x4.convert_i32x4_u|fc i32x4.trunc_sat_f64x2_s_zero|fd i32x4.trunc_sat_f64x2_u_zero|fe f64x2.convert_low_i32x4_s|ff f64x2.convert_low_i32x4_u'''
OPS_FD = {}
for ent in _fd.replace('\n', '|').split('|'):
    h, n = ent.split(' '); OPS_FD[int(h, 16)] = n
SIMD_NAMES = set(OPS_FD.values())
_lane = {n for n in SIMD_NAMES if n.endswith(('extract_lane', 'extract_lane_s', 'extract_lane_u', 'replace_lane'))}
_memlane = {n for n in SIMD_NAMES if re.match(r'v128\.(load|store)\d+_lane', n)}
_vmem = {n for n in SIMD_NAMES if re.match(r'v128\.(load|store)', n)} - _memlane
MEMOPS = set(_mem)

def _blocktype(r, types):
    b = r.b[r.p]
    if b == 0x40: r.p += 1; return ()
    if b in VT: r.p += 1; return (VT[b],)
    i = r.sleb(33); return ('type', i)

def _expr(r, m, types):
    out = []; depth = 0
    while True:
        b = r.u8()
        if b == 0xFD:
            n = r.uleb(); op = OPS_FD.get(n)
            if op is None: raise ValueError('bad simd op %x' % n)
            if op in _memlane:
                a = r.uleb(); o = r.uleb(); out.append((op, o, a, r.u8()))
            elif op in _vmem:
                a = r.uleb(); o = r.uleb(); out.append((op, o, a))
            elif op == 'v128.const': out.append((op, int.from_bytes(r.bytes(16), 'little')))
            elif op == 'i8x16.shuffle': out.append((op, tuple(r.bytes(16))))
            elif op in _lane: out.append((op, r.u8()))
            else: out.append((op,))
            continue
        if b == 0xFC:
            n = r.uleb(); op = OPS_FC.get(n)
            if op is None: raise ValueError('bad fc op %x' % n)
            if op == 'memory.copy': r.u8(); r.u8(); out.append((op,))
            elif op == 'memory.fill': r.u8(); out.append((op,))
            elif op in ('table.init', 'table.copy', 'memory.init'): out.append((op, r.uleb(), r.uleb()))
            elif op in ('data.drop', 'elem.drop', 'table.grow', 'table.size', 'table.fill'): out.append((op, r.uleb()))
            else: out.append((op,))
            continue
        op = OPS.get(b)
        if op is None: raise ValueError('bad opcode %02x' % b)
        if op in ('block', 'loop', 'if'):
            bt = _blocktype(r, types)
            if bt and bt[0] == 'type':
                t = types[bt[1]]
                if t[0]: raise ValueError('block params nyi')
                bt = tuple(t[1])
            out.append((op, bt)); depth += 1
        elif op == 'end':
            if depth == 0: break
            depth -= 1; out.append((op,))
        elif op in ('br', 'br_if'): out.append((op, r.uleb()))
        elif op == 'br_table':
            n = r.uleb(); out.append((op, [r.uleb() for _ in range(n+1)]))
        elif op == 'call': out.append((op, r.uleb()))
        elif op == 'call_indirect':
            t = r.uleb(); tab = r.uleb(); out.append((op, (tuple(types[t][0]), tuple(types[t][1]))))
        elif op == 'select_t':
            n = r.uleb(); [r.u8() for _ in range(n)]; out.append(('select',))
        elif op in ('local.get', 'local.set', 'local.tee', 'global.get', 'global.set', 'table.get', 'table.set', 'ref.func'):
            out.append((op, r.uleb()))
        elif op in MEMOPS:
            a = r.uleb(); o = r.uleb(); out.append((op, o, a))
        elif op in ('memory.size', 'memory.grow'): r.u8(); out.append((op,))
        elif op == 'i32.const': out.append((op, r.sleb(32) & 0xFFFFFFFF))
        elif op == 'i64.const': out.append((op, r.sleb(64) & (2**64-1)))
        elif op == 'f32.const': out.append((op, int.from_bytes(r.bytes(4), 'little')))
        elif op == 'f64.const': out.append((op, int.from_bytes(r.bytes(8), 'little')))
        elif op == 'ref.null': out.append((op, r.u8()))
        else: out.append((op,))
    return out

def parse_wasm(b):
    m = Module(); m.customs = []; m.secs = []
    if b[:8] != b'\0asm\1\0\0\0': raise ValueError('bad magic')
    r = Rd(b, 8); types = []; fts = []; last = 0
    pend = []
    while r.p < r.e:
        sid = r.u8(); n = r.uleb()
        if r.p + n > r.e: raise ValueError('section overruns')
        s = Rd(b, r.p, r.p + n); r.p += n
        m.secs.append(sid)
        if sid == 0:
            nm = s.name(); m.customs.append(nm)
            if nm == 'name':
                while s.p < s.e:
                    ssid = s.u8(); sl = s.uleb(); ss = Rd(b, s.p, s.p+sl); s.p += sl
                    if ssid == 1:
                        for _ in range(ss.uleb()):
                            i = ss.uleb(); m.funcs[i].name = ss.name()
                    elif ssid == 7:
                        for _ in range(ss.uleb()):
                            i = ss.uleb(); m.globals[i][0] = ss.name()
            continue
        elif sid == 1:
            for _ in range(s.uleb()):
                if s.u8() != 0x60: raise ValueError('functype')
                p = [VT[s.u8()] for _ in range(s.uleb())]; q = [VT[s.u8()] for _ in range(s.uleb())]
                types.append((p, q))
        elif sid == 2:
            for _ in range(s.uleb()):
                mod = s.name(); nm = s.name(); k = s.u8()
                if k == 0:
                    t = types[s.uleb()]; f = Func('%s:%s' % (mod, nm), t[0], t[1]); f.imp = (mod, nm); m.funcs.append(f)
                elif k == 1: s.u8(); fl = s.u8(); s.uleb(); (s.uleb() if fl & 1 else 0)
                elif k == 2: fl = s.u8(); m.pages = s.uleb(); m.memimp = (mod, nm); (s.uleb() if fl & 1 else 0)
                elif k == 3: vt = VT[s.u8()]; mu = s.u8(); m.globals.append(['%s:%s' % (mod, nm), vt, mu, None, (mod, nm)])
        elif sid == 3:
            for _ in range(s.uleb()):
                t = types[s.uleb()]; m.funcs.append(Func(None, t[0], t[1]))
        elif sid == 4:
            for _ in range(s.uleb()):
                s.u8(); fl = s.u8(); m.tsize = s.uleb(); m.tmax = s.uleb() if fl & 1 else None
        elif sid == 5:
            for _ in range(s.uleb()):
                fl = s.u8(); m.pages = s.uleb(); m.maxpages = s.uleb() if fl & 1 else None
        elif sid == 6:
            for _ in range(s.uleb()):
                vt = VT[s.u8()]; mu = s.u8(); e = _expr(s, m, types); m.globals.append([None, vt, mu, e[0], None])
        elif sid == 7:
            for _ in range(s.uleb()):
                nm = s.name(); k = s.u8(); m.exports[nm] = ('func table mem global'.split()[k], s.uleb())
        elif sid == 8: m.start = s.uleb()
        elif sid == 9:
            for _ in range(s.uleb()):
                fl = s.u8()
                if fl == 0: e = _expr(s, m, types); tab = 0
                elif fl == 2: tab = s.uleb(); e = _expr(s, m, types); s.u8()
                elif fl == 4:
                    e = _expr(s, m, types); base = e[0][1]
                    for i in range(s.uleb()):
                        x = _expr(s, m, types); m.tables[base+i] = x[0][1]
                    continue
                else: raise ValueError('elem kind %d' % fl)
                base = e[0][1]
                for i in range(s.uleb()): m.tables[base+i] = s.uleb()
        elif sid == 10:
            n = s.uleb(); fs = [f for f in m.funcs if f.imp is None]
            if n != len(fs): raise ValueError('code count')
            for f in fs:
                sz = s.uleb(); c = Rd(b, s.p, s.p+sz); s.p += sz
                tot = 0
                for _ in range(c.uleb()):
                    k = c.uleb(); vt = VT[c.u8()]; f.locals += [vt]*k
                f.code = _expr(c, m, types)
                if c.p != c.e: raise ValueError('trailing code bytes')
        elif sid == 11:
            for _ in range(s.uleb()):
                fl = s.u8()
                if fl == 0: e = _expr(s, m, types); m.datas.append((e[0][1], s.bytes(s.uleb())))
                elif fl == 2: s.uleb(); e = _expr(s, m, types); m.datas.append((e[0][1], s.bytes(s.uleb())))
                else: s.bytes(s.uleb())
        elif sid == 12: m.datacount = s.uleb()
        else: raise ValueError('section %d' % sid)
        if s.p != s.e: raise ValueError('section %d has trailing bytes' % sid)
    m.types = types
    _finish(m)
    return m

def _finish(m):
    for i, f in enumerate(m.funcs):
        f.index = i
        if f.name is None: f.name = 'func%d' % i
        m.fidx[f.name] = i
    for n, (k, i) in m.exports.items():
        if k == 'func': m.funcs[i].exports.append(n)
    for i, g in enumerate(m.globals):
        if g[0]: m.gidx[g[0]] = i

# ---------------------------------------------------------------- text

_tok = re.compile(r'\(;.*?;\)|;;[^\n]*|"(?:[^"\\]|\\.)*"|[()]|[^\s()";]+', re.S)

def _str(t):
    out = bytearray(); i = 1; n = len(t) - 1; s = t
    while i < n:
        c = s[i]
        if c != '\\': out += c.encode('utf8'); i += 1; continue
        e = s[i+1]
        if e in 'tnr"\'\\': out.append({'t':9,'n':10,'r':13,'"':34,"'":39,'\\':92}[e]); i += 2
        elif e == 'u':
            j = s.index('}', i); out += chr(int(s[i+3:j], 16)).encode('utf8'); i = j+1
        else: out.append(int(s[i+1:i+3], 16)); i += 3
    return bytes(out)

def _int(t, bits):
    v = int(t.replace('_', ''), 0); return v & ((1 << bits) - 1)

def fbits(t, dbl):
    """WAT float token -> bits"""
    t = t.replace('_', ''); neg = t.startswith('-')
    u = t.lstrip('+-')
    if dbl: E, M, pk, ui = 11, 52, '<d', '<Q'
    else: E, M, pk, ui = 8, 23, '<f', '<I'
    sgn = (1 << (E+M)) if neg else 0
    if u == 'inf': return sgn | (((1 << E)-1) << M)
    if u == 'nan': return sgn | (((1 << E)-1) << M) | (1 << (M-1))
    if u.startswith('nan:'): return sgn | (((1 << E)-1) << M) | int(u[4:], 16)
    if u.startswith('0x'):
        # exact
        mm = re.match(r'0x([0-9a-f]*)(?:\.([0-9a-f]*))?(?:p([+-]?\d+))?$', u.lower())
        if not mm: raise ValueError('bad float ' + t)
        hi, lo, e = mm.group(1), mm.group(2) or '', int(mm.group(3) or 0)
        mant = int((hi + lo) or '0', 16); e -= 4*len(lo)
        from fractions import Fraction
        x = Fraction(mant) * (Fraction(2)**e)
        return sgn | _frac_bits(x, E, M)
    from fractions import Fraction
    return sgn | _frac_bits(Fraction(u), E, M)

def _frac_bits(x, E, M):
    """round-to-nearest-even of non-negative Fraction"""
    from fractions import Fraction
    if x == 0: return 0
    bias = (1 << (E-1)) - 1
    e = x.numerator.bit_length() - x.denominator.bit_length()
    if Fraction(2)**e > x: e -= 1
    if Fraction(2)**(e+1) <= x: e += 1
    e = max(e, 1-bias)
    q = x / (Fraction(2)**(e-M)); n = q.numerator // q.denominator; r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1): n += 1
    if n >= (1 << (M+1)): n >>= 1; e += 1
    if e > bias: return ((1 << E)-1) << M
    if n < (1 << M): return n
    return ((e + bias) << M) | (n - (1 << M))

class WatError(Exception): pass

def parse_wat(text):
    toks = [t for t in _tok.findall(text) if not t.startswith('(;') and not t.startswith(';;')]
    p = 0
    # build s-exprs at top level only for fields; function bodies are flat
    def sexp(i):
        assert toks[i] == '('; i += 1; l = []
        while toks[i] != ')':
            if toks[i] == '(': x, i = sexp(i); l.append(x)
            else: l.append(toks[i]); i += 1
        return l, i+1
    import sys as _s
    top, e = sexp(0)
    if e != len(toks): raise WatError('trailing text')
    assert top[0] == 'module'
    m = Module(); i = 1
    if len(top) > 1 and isinstance(top[1], str): m.name = top[1]; i = 2
    fields = top[i:]; bodies = []; gl = []; elems = []
    m.symdatas = []
    fimp = []; fdef = []
    for f in fields:
        k = f[0]
        if k == 'import':
            mod, nm, d = _str(f[1]).decode(), _str(f[2]).decode(), f[3]
            if d[0] == 'func':
                fn = Func(None, [], []); j = 1
                if len(d) > 1 and isinstance(d[1], str): fn.name = d[1][1:]; j = 2
                for x in d[j:]:
                    (fn.params if x[0] == 'param' else fn.results).extend(y for y in x[1:] if not y.startswith('$'))
                fn.imp = (mod, nm)
                if fn.name is None: fn.name = '%s:%s' % (mod, nm)
                fimp.append(fn)
            elif d[0] == 'memory': m.memimp = (mod, nm); m.pages = int(d[-1])
            elif d[0] == 'global':
                t = d[2] if len(d) > 2 else d[1]
                m.globals.append([d[1][1:], t[1] if isinstance(t, list) else t, isinstance(t, list), None, (mod, nm)])
            else: raise WatError('import ' + d[0])
        elif k == 'memory':
            j = 1
            if f[j].startswith('$'): j += 1
            while isinstance(f[j], list):
                m.exports[_str(f[j][1]).decode()] = ('mem', 0); j += 1
            m.pages = int(f[j]); m.maxpages = int(f[j+1]) if j+1 < len(f) else None
        elif k == 'global':
            nm = f[1][1:]; j = 2; ex = None
            if isinstance(f[j], list) and f[j][0] == 'export': ex = _str(f[j][1]).decode(); j += 1
            t = f[j]; mu = isinstance(t, list); vt = t[1] if mu else t
            init = f[j+1] if j+1 < len(f) else None
            if ex is not None: m.exports[ex] = ('global', len(m.globals))
            m.globals.append([nm, vt, mu, init, None])
        elif k == 'data':
            if isinstance(f[1], list):
                m.datas.append((_int(f[1][1], 32), b''.join(_str(x) for x in f[2:])))
            else: m.symdatas.append(f)
        elif k == 'table':
            nums = [x for x in f[1:] if isinstance(x, str) and x.isdigit()]
            m.tsize = int(nums[0]); m.tmax = int(nums[1]) if len(nums) > 1 else None
        elif k == 'elem': elems.append(f)
        elif k == 'func': bodies.append(f)
        else: raise WatError('field ' + k)
    for f in bodies:
        fn = Func(f[1][1:], [], []); j = 2
        names = []
        while j < len(f) and isinstance(f[j], list):
            x = f[j]
            if x[0] == 'export': fn.exports.append(_str(x[1]).decode())
            elif x[0] in ('param', 'local'):
                dst = fn.params if x[0] == 'param' else fn.locals
                if len(x) > 1 and x[1].startswith('$'): names.append(x[1]); dst.append(x[2])
                else:
                    for y in x[1:]: names.append(None); dst.append(y)
            elif x[0] == 'result': fn.results.extend(x[1:])
            else: raise WatError('func ' + x[0])
            j += 1
        fn.lnames = names
        fn.code = f[j:]
        fdef.append(fn)
    m.funcs = fimp + fdef
    ex = dict(m.exports)
    fx = {id(f): list(f.exports) for f in m.funcs}
    for f in m.funcs: f.exports = []
    for i, f in enumerate(m.funcs):
        for nm in fx[id(f)]: m.exports[nm] = ('func', i)
    _finish(m)
    for g in m.globals:
        if isinstance(g[3], list): g[3] = _const(g[3], m)
    for f in elems:
        base = _int(f[1][1], 32)
        for q, nm in enumerate(x for x in f[2:] if x != 'func'):
            m.tables[base+q] = m.fidx[nm[1:]] if nm.startswith('$') else int(nm)
    for fn in fdef: fn.code = _flat(fn, m)
    return m

def _const(l, m):
    op = l[0]
    if op == 'i32.const': return (op, _int(l[1], 32))
    if op == 'i64.const': return (op, _int(l[1], 64))
    if op == 'f32.const': return (op, fbits(l[1], False))
    if op == 'f64.const': return (op, fbits(l[1], True))
    if op == 'v128.const': return (op, _v128(l[1:]))
    if op == 'global.get': return (op, l[1][1:])
    if op in ('ref.func', 'ref.data'): return (op, l[1][1:]) + tuple(l[2:])
    raise WatError('const ' + op)

def _v128(l):
    sh = l[0]; w = {'i8x16':8,'i16x8':16,'i32x4':32,'i64x2':64}[sh]
    v = 0
    for i in range(128//w): v |= _int(l[1+i], w) << (w*i)
    return v

def _flat(fn, m):
    toks = fn.code; out = []; i = 0; n = len(toks); lab = []
    lidx = {nm: k for k, nm in enumerate(fn.lnames) if nm}
    def depth(t):
        if t.startswith('$'):
            for d, x in enumerate(reversed(lab)):
                if x == t: return d
            raise WatError('label ' + t)
        return int(t)
    def memarg(i):
        o = a = None
        while i < n and isinstance(toks[i], str) and (toks[i].startswith('offset=') or toks[i].startswith('align=')):
            if toks[i][0] == 'o': o = int(toks[i][7:])
            else: a = int(toks[i][6:]).bit_length() - 1
            i += 1
        return o or 0, a, i
    while i < n:
        op = toks[i]; i += 1
        if isinstance(op, list): raise WatError('folded ' + str(op)[:60])
        if op in ('block', 'loop', 'if'):
            l = None; bt = ()
            if i < n and isinstance(toks[i], str) and toks[i].startswith('$'): l = toks[i]; i += 1
            if i < n and isinstance(toks[i], list) and toks[i][0] == 'result': bt = tuple(toks[i][1:]); i += 1
            lab.append(l); out.append((op, bt))
        elif op == 'end':
            l = lab.pop()
            if i < n and isinstance(toks[i], str) and toks[i].startswith('$'):
                if l != toks[i]: raise WatError('end label mismatch')
                i += 1
            out.append((op,))
        elif op == 'else': out.append((op,))
        elif op in ('br', 'br_if'): out.append((op, depth(toks[i]))); i += 1
        elif op == 'br_table':
            ds = []
            while i < n and isinstance(toks[i], str) and (toks[i].startswith('$') or toks[i].isdigit()):
                ds.append(depth(toks[i])); i += 1
            out.append((op, ds))
        elif op in ('call', 'return_call', 'ref.func'):
            t = toks[i]; i += 1
            out.append((op, m.fidx[t[1:]] if t.startswith('$') and t[1:] in m.fidx else (t[1:] if t.startswith('$') else int(t))))
        elif op in ('call_indirect', 'return_call_indirect'):
            ps = []; rs = []
            while i < n and isinstance(toks[i], list):
                (ps if toks[i][0] == 'param' else rs).extend(toks[i][1:]); i += 1
            out.append((op, (tuple(ps), tuple(rs))))
        elif op in ('local.get', 'local.set', 'local.tee'):
            t = toks[i]; i += 1
            out.append((op, lidx[t] if t.startswith('$') else int(t)))
        elif op in ('global.get', 'global.set'):
            t = toks[i]; i += 1
            out.append((op, m.gidx[t[1:]] if t.startswith('$') else int(t)))
        elif op in MEMOPS or op in _vmem:
            o, a, i = memarg(i); out.append((op, o, a))
        elif op in _memlane:
            o, a, i = memarg(i); out.append((op, o, a, int(toks[i]))); i += 1
        elif op == 'i32.const': out.append((op, _int(toks[i], 32))); i += 1
        elif op == 'i64.const': out.append((op, _int(toks[i], 64))); i += 1
        elif op == 'f32.const': out.append((op, fbits(toks[i], False))); i += 1
        elif op == 'f64.const': out.append((op, fbits(toks[i], True))); i += 1
        elif op == 'v128.const':
            w = {'i8x16':16,'i16x8':8,'i32x4':4,'i64x2':2}[toks[i]]
            out.append((op, _v128(toks[i:i+1+w]))); i += 1+w
        elif op == 'i8x16.shuffle': out.append((op, tuple(int(x) for x in toks[i:i+16]))); i += 16
        elif op in _lane: out.append((op, int(toks[i]))); i += 1
        elif op == 'ref.data':
            t = toks[i][1:]; i += 1; o = 0
            if i < n and isinstance(toks[i], str) and toks[i].startswith('offset='): o = int(toks[i][7:]); i += 1
            out.append((op, t, o))
        else: out.append((op,))
    if lab: raise WatError('unclosed block in ' + fn.name)
    return out
