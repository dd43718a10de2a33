import libc
LEVEL = 'translation_validation'
def corpora(tier): return [libc.spec('printf', tier)]
def run(rep, tier): libc.run(rep, corpora(tier), 'every combination of flags with 4 widths and 4 precisions, per conversion and length; all values in the quick-range, full range for one or more formats per conversion; strings of up to 8 bytes; every buffer size up to 20')
