import libc, re
LEVEL = 'model_checking'
def corpora(tier):
    sp = libc.spec('time', tier)
    if tier != 'quick':     # every year of a window one by one, wider month ranges
        sp['text'] = sp['text'].replace('yi=4..4 mon=-13..-12', 'yi=4..5 mon=-13..1').replace('pin(yi, 4, 4); return mk(o, tm, YR[yi], pin(mon, -13, -12)', 'pin(yi, 4, 5); return mk(o, tm, YR[yi], pin(mon, -13, 1)')
        for i in range(16):
            t = libc.spec('time', tier)['text']; j = t.index('//@ buf o=36')
            y0 = 1902 + i * 16
            t = t[:j] + ''.join("""//@ buf o=36
//@ val d=0..365 s=0..86399
//@ pre: d < 365 + leap(%d)
//@ opt deadline=300 slow
int t_year%d(int *o, int d, int s){ return gm(o, %dLL, d, s); }
""" % (y, y, y) for y in range(y0, y0 + 16))
            yield libc.spec('time', tier, name='years%d' % y0, text=t)
    yield sp
def run(rep, tier):
    libc.run(rep, list(corpora(tier)), 'gmtime: every second of 32 years (leap, century, negative, extreme; thorough: every year 1902..2157); mktime: day -40..400, hour -30..60, minute and second -100..200, months -13..14; strftime: every conversion over its field ranges, buffer sizes 0..31; TZ: seven forms',
             ['clock_time_get and environ_get are stand-ins returning unknown results'])
