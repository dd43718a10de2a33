import libc
LEVEL = 'model_checking'
def corpora(tier):
    yield libc.spec('posix', tier)
def run(rep, tier):
    libc.run(rep, list(corpora(tier)), 'every descriptor, flag set, offset, rights word and host error code; paths of up to 4 arbitrary bytes against 28 sets of 1 to 10 preopened directories; fopen modes of up to 4 letters; directories of up to 4 entries with names of 0..2 arbitrary bytes and of 3989..4096 bytes (the 4096-byte buffer ends inside an entry); all histories of 3 or 4 of read, tell, seek, rewind',
             ['the WASI host is a stand-in laid out by the bytes of the preview 1 ABI that logs every call'])
