import libc
LEVEL = 'model_checking'
def corpora(tier): return [libc.spec('heap', tier)]
def run(rep, tier): libc.run(rep, corpora(tier), 'histories of up to 7 malloc/free/realloc/calloc calls; sizes symbolic up to 5000 bytes, or from a table with every order of operations')
