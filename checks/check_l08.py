import libc, itertools, gen_stdio
LEVEL = 'model_checking'
R1, R2 = 'gurlacewksb', 'gurlace'
W1 = 'pPSfFaceswb'
def prod(*a): return [''.join(x) for x in itertools.product(*a)]
def cases(tier):
    c = gen_stdio.case; out = []; q1 = tier == 'quick'
    rr = [q for q in prod(R1, R2) if q[0] not in 'wksb'] + ['gsg', 'lsl', 'rsr', 'usg', 'kug', 'wug', 'wlu', 'cwg', 'ckg', 'rku']
    rq = prod('gurl', 'gulac')
    # buffering mode, bytes per call, failing offset; file length
    for cfg, n, qs in (((5, 60, -1), (5, 5), rr), ((2, 60, -1), (3, 3), rq), ((1, 2, -1), (4, 4), rq), ((0, 60, -1), (0, 2), rq), ((4, 60, 3), (5, 5), rr)):
        out += [c('rd', cfg, q, n) for q in (qs if q1 else rr)]
        if not q1: out += [c('rd', cfg, q, n) for q in prod('gurlace', 'gurlace', 'gulc')]
    for q in prod('gur', 's', 'gurlace') + prod('gurl', 'gul', 'b'): out.append(c('rd', (5, 60, -1), q, (5, 5)))
    for cfg, n in (((0, 60, -1), (0, 0)), ((1, 60, -1), (2, 2)), ((2, 60, -1), (2, 2)), ((5, 60, -1), (1, 1)), ((7, 60, -1), (0, 0)), ((8, 60, -1), (0, 0))):
        out += [c('wr', cfg, q, n) for q in prod('pPS', 'pPSfFace')]
        if not q1: out += [c('wr', cfg, q, n) for q in prod('pPS', 'pPSfFace', 'pPS')]
    for cfg in ((5, 60), (2, 60), (0, 60)):
        full = not q1 or cfg[0] == 5
        out += [c('up', cfg, q, (3, 3)) for q in (prod('gurl', 'ace', 'pPS') + prod('pPS', 'acef', 'gurl') + ['rgp', 'rgP', 'rgS', 'lgp'] if full else prod('gr', 'a', 'pS') + prod('pS', 'cf', 'gl') + ['rgp'])]
    return out
def wfaults(tier):
    c = gen_stdio.case; out = []
    for cfg in ((0, 60, 3), (1, 60, 4), (1, 3, -1), (2, 60, 2), (2, 1, -1), (5, 60, 4), (5, 2, -1), (7, 60, 3), (8, 60, 3)):
        out += [c('wf', cfg, q, (0, 0)) for q in prod('pPSQ', 'pPSfFaQ')]
    return out
def corpora(tier):
    base = libc.spec('stdio', tier)['text']
    yield libc.spec('stdio', tier, name='std', text=base + open(libc.HERE + '/corpus/stdio_std.c').read())
    for nm, cs in (('st', cases(tier)), ('wf', wfaults(tier))):
        for i in range(0, len(cs), 40): yield libc.spec('stdio', tier, name='%s%d' % (nm, i // 40), text=base + ''.join(cs[i:i + 40]), chunk=4)
def run(rep, tier):
    libc.run(rep, list(corpora(tier)), 'histories of two operations (three for repositioning, update streams and some others; thorough: all of three) followed by reading the rest or closing; files 0..5 bytes; buffers 1,2,3,8,1024 bytes, unbuffered, line-buffered; transfers limited to 1, 2, 3 bytes; read error at offset 3; device full after 2, 3 or 4 bytes; standard streams on and off a terminal',
             ['fd_read, fd_write, fd_seek, fd_close and fd_fdstat_get are played by a stand-in device of 60 bytes'])
