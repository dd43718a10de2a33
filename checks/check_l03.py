import libc
LEVEL = 'translation_validation'
def corpora(tier): return [libc.spec('stdlib', tier)]
def run(rep, tier): libc.run(rep, corpora(tier), 'number strings of up to 4-21 bytes around every limit, all bases tried, all byte values; arrays of up to 7 elements')
