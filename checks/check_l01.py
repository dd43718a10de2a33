import libc
LEVEL = 'translation_validation'
def corpora(tier): return [libc.spec('string', tier)]
def run(rep, tier): libc.run(rep, corpora(tier), 'strings and blocks of up to 3-9 bytes, all byte values, all counts and overlaps inside the buffers')
