import libc
LEVEL = 'translation_validation'
def corpora(tier): return [libc.spec('ctype', tier)]
def run(rep, tier): libc.run(rep, corpora(tier), 'every int the functions are defined for: EOF and 0..255 (isascii: every int)')
