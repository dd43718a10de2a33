"""Histories of stream operations (L08): sequences over the operation kinds, operands symbolic."""
UP = dict(r='0..4', l='0..3', a='0..5', c='1..5', e='3..6', P='0..5', S='0..4')
RANGE = dict(r='0..6', l='0..4', a='0..6', c='0..6', e='1..7', P='0..6', S='0..5', Q='0..3')
def case(fn, cfg, q, n):
    """fn(o, d, n, cfg.., k1, k2, k3, x1, n1, x2, n2, x3, n3)"""
    q3 = q + '...'[len(q):]
    ks = ["'%s'" % c if c != '.' else '0' for c in q3]; us = []; args = []
    for i, c in enumerate(q3, 1):
        for v, ok in (('x', 'upPSQ'), ('n', 'rlacePSQ')):
            if c in ok:
                r = (UP if fn == 'up' else RANGE)[c] if v == 'n' else '-1..255' if c == 'u' else '0..255' if c == 'p' else '1..240'
                us.append(('%s%d' % (v, i), r)); args.append('%s%d' % (v, i))
            else: args.append('0')
    lo, hi = n
    nv = [('n', '%d..%d' % n)] if lo != hi else []
    nm = 't_%s_%s_%s' % (fn, '_'.join(str(c) if c >= 0 else 'n' for c in cfg) + '_%d_%d' % n, q)
    vals = ' '.join('%s=%s' % u for u in nv + us); ps = ''.join(', int ' + u[0] for u in nv + us)
    o = '' if fn == 'wf' else 'o, '; po = '' if fn == 'wf' else 'int *o, '
    N = '' if fn == 'wf' else ('n' if nv else str(lo)) + ', '
    return '//@ buf %sd=%d\n//@ val %s\n//@ opt slow deadline=60\nint %s(%sunsigned char *d%s){ %sreturn %s(%sd, %s%s, %s, %s); }\n' % (
        'o=400 ' if o else '', max(hi, 1), vals, nm, po, ps, 'n = pin(n, %d, %d); ' % n if nv else '', fn, o, N, ', '.join(map(str, cfg)), ', '.join(ks), ', '.join(args))
