import libc, gen_math as g
LEVEL = 'translation_validation'
def corpora(tier):
    yield libc.spec('math', tier, text=g.exact(tier))
    yield libc.spec('math', tier, name='fdlibm', text=g.trans(tier))
def run(rep, tier):
    libc.run(rep, list(corpora(tier)), 'exact functions: every double (ldexp of subnormals: sampled leading-bit positions, each with every mantissa); fmod: exponent differences up to 2 with one pinned operand, or both of equal exponent; transcendental functions: the argument ranges listed in checks/gen_math.py (special values, neighbourhoods of the branch thresholds, some binades); sin, cos, tan up to 3 pi/4; asin, acos below 1/2',
      ['floating arithmetic in the fdlibm comparison is a shared uninterpreted function; rounding functions use the SMT theory of floating point'])
