"""Static typing of wasm function bodies, used to give every `select` its operand width."""
W = {'i32': 32, 'f32': 32, 'i64': 64, 'f64': 64, 'v128': 128, 'funcref': 32, 'externref': 32}
SH = ('i8x16', 'i16x8', 'i32x4', 'i64x2', 'f32x4', 'f64x2')
LT = {'i8x16': 'i32', 'i16x8': 'i32', 'i32x4': 'i32', 'i64x2': 'i64', 'f32x4': 'f32', 'f64x2': 'f64'}
CONV = ('wrap_i64', 'extend_i32_s', 'extend_i32_u', 'reinterpret_f32', 'reinterpret_f64', 'reinterpret_i32', 'reinterpret_i64',
        'demote_f64', 'promote_f32')
CMP = ('eq', 'ne', 'lt', 'gt', 'le', 'ge', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u')
UN = ('clz', 'ctz', 'popcnt', 'abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt', 'extend8_s', 'extend16_s', 'extend32_s')
def sig(x, f, m):
    """(n pops or list, results) for non-control instructions"""
    o = x[0]
    if o == 'nop': return 0, []
    if o == 'drop': return 1, []
    if o == 'local.get': return 0, [(f.params + f.locals)[x[1]]]
    if o == 'local.set': return 1, []
    if o == 'local.tee': return 1, [(f.params + f.locals)[x[1]]]
    if o == 'global.get': return 0, [m.globals[x[1]][1]]
    if o == 'global.set': return 1, []
    if o == 'memory.size': return 0, ['i32']
    if o == 'memory.grow': return 1, ['i32']
    if o in ('memory.copy', 'memory.fill'): return 3, []
    if o == 'call': g = m.funcs[x[1]]; return len(g.params), list(g.results)
    if o == 'call_indirect': return len(x[1][0]) + 1, list(x[1][1])
    if o == 'ref.data': return 0, ['i32']
    if o == 'ref.func': return 0, ['funcref']
    p, s = o.split('.')
    if s == 'const': return 0, [p]
    if p == 'v128':
        if s.endswith('_lane'): return (2, ['v128']) if s.startswith('load') else (2, [])
        if s.startswith('load'): return 1, ['v128']
        if s.startswith('store'): return 2, []
        return {'not': 1, 'any_true': 1, 'bitselect': 3}.get(s, 2), ['i32' if s == 'any_true' else 'v128']
    if p in SH:
        if s == 'splat': return 1, ['v128']
        if s.startswith('extract_lane'): return 1, [LT[p]]
        if s == 'replace_lane': return 2, ['v128']
        if s in ('all_true', 'bitmask'): return 1, ['i32']
        if s in ('abs', 'neg', 'popcnt', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt') or s.startswith(('extend_', 'extadd', 'convert', 'trunc_sat', 'demote', 'promote')): return 1, ['v128']
        return 2, ['v128']
    if s.startswith('load'): return 1, [p]
    if s.startswith('store'): return 2, []
    if s == 'eqz': return 1, ['i32']
    if s in CMP: return 2, ['i32']
    if s in UN or s in CONV or s.startswith(('trunc_', 'convert_')): return 1, [p]
    return 2, [p]

def select_widths(f, m):
    code = f.code
    if not any(x[0] == 'select' for x in code): return {}
    out = {}; st = []; ctl = [[0, list(f.results), False, None]]  # height, results, unreachable, -
    def pop():
        if len(st) <= ctl[-1][0]:
            return None
        return st.pop()
    for i, x in enumerate(code):
        o = x[0]
        if o == 'select':
            pop(); b = pop(); a = pop(); t = a or b
            out[i] = W.get(t, 32); st.append(t)
        elif o in ('block', 'loop'): ctl.append([len(st), list(x[1]), False])
        elif o == 'if': pop(); ctl.append([len(st), list(x[1]), False])
        elif o == 'else': c = ctl[-1]; del st[c[0]:]
        elif o == 'end':
            c = ctl.pop(); del st[c[0]:]; st.extend(c[1])
        elif o in ('br', 'return', 'unreachable', 'br_table'): del st[ctl[-1][0]:]
        elif o == 'br_if': pop()
        else:
            n, r = sig(x, f, m)
            for _ in range(n): pop()
            st.extend(r)
    return out
