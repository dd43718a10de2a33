HOOKS = None
NOTES = 'Every check drives one engine (vlib/symex.py): the WebAssembly that the current wcpl emits, linked with the current libc, is executed symbolically with z3 and compared with a reference; units of wcpl itself (c.c, l.c, p.c, w.c), compiled to WebAssembly by wcpl, are executed by the same engine. See DESIGN.md.'
TV = 'symbolic execution of the emitted WebAssembly against a C reference; z3 decides equality per path'
PROPS = []; NA = {}
def P(id, title, statement, over, quant, why, files, mech, obs, tech, level, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, obs=obs, tech=tech, level=level, note=note))
TVN = 'Every value of the symbolic inputs is covered, within the stated bounds, for each program of the corpus; nothing is said of programs outside it. Trusts clang -O0 for wasm32 as the meaning of C, z3, and the engine (whose models are replayed on wasmtime).'

P('C01', 'Compiled expressions compute the C value for every operand value',
  'For every operator and cast on every arithmetic type, the code wcpl emits computes the value (and type) the C rules give, after integer promotions and usual arithmetic conversions, for every operand value for which C defines it. Operand combinations, constants as either operand, comparisons, logical and conditional operators, and nested expressions of several operators are covered.',
  ['inputs', 'programs'], 'all operand values of all arithmetic types; expressions of up to about 4 operators',
  'The tests run fixed programs with a few operand values; a wrong sign, width or conversion shows only for particular values.',
  ['c.c', 'p.c'], [('expression typing and conversions', 'c.c compile_*'), ('usual arithmetic conversions', 'c.c ts_arith_*'), ('peephole rules', 'w.c optimiser')],
  'return value of a compiled function', TV, 'translation_validation', TVN)
P('C02', 'Assignments, compound assignments and ++/-- update exactly the lvalue',
  'Every assignment form (=, op=, prefix and postfix ++ and --) on every kind of lvalue (locals, parameters, globals, pointer targets, array elements, structure members) and every arithmetic or pointer type stores the value C gives, yields the value C gives, evaluates its operands once, and changes no other byte of memory.',
  ['inputs', 'programs'], 'all values of the operands and of the surrounding memory, per lvalue kind, type and operator',
  'The tests use few types and values and never look at neighbouring memory.',
  ['c.c', 'p.c'], [('lvalue compilation', 'c.c compile_*assign*, compile_stm'), ('loads and stores', 'c.c')],
  'return value and final memory of a compiled function', TV, 'translation_validation', TVN)
P('C03', 'Control flow follows C for every path',
  'if, loops, break, continue, goto, switch (including default placement, fall-through, sparse, dense, negative and extreme case values), return, comma, ?: and short-circuit operators take exactly the path C prescribes, with the same side effects in the same order, for every value of the controlling expressions.',
  ['inputs', 'programs'], 'every path of hand-written and randomly generated structured functions, loops up to 6 iterations, all int inputs',
  'The tests take a handful of paths; nesting and case-value combinations are unbounded.',
  ['c.c'], [('statement lowering to wasm blocks', 'c.c expr_wasmify, compile_stm'), ('switch tables', 'c.c compile_switch_table')],
  'return value and final globals of a compiled function', TV, 'translation_validation', TVN)

LIB = 'the library sources are compiled by wcpl, linked and executed symbolically; z3 decides equality with a C reference (or the stated post-condition) per path'
P('C04', 'Data layout, addressing and initialisers follow the C rules',
  'Structures, unions, arrays and pointers have the size, alignment and member offsets of the wasm32 C ABI; member access, indexing, pointer arithmetic, pointer comparison and difference, and aggregate copy address exactly the bytes C prescribes; static and automatic initialisers (scalars, nested aggregates, strings, addresses, partial arrays) give every byte of the object its C value.',
  ['inputs', 'programs'], 'hand-written and randomly generated aggregate types and initialisers; all index, pointer and member values within buffers of up to 64 bytes',
  'Layouts and initialiser shapes are unbounded; the tests look at a few sizes and values.',
  ['c.c', 'l.c', 'w.c'], [('type layout', 'c.c measure_type'), ('initialisers', 'c.c initialize_*, process_*'), ('data segments', 'w.c link')],
  'return value, sizes and final memory of a compiled function', TV, 'translation_validation', TVN)
P('C05', 'Calls pass every argument and return value unchanged',
  'Direct, indirect, recursive and variadic calls, aggregates by value, structure results and automatic arrays behave as in C: the callee sees each argument (converted as C says) in order, va_arg fetches each variadic argument, the result arrives unchanged, the caller’s locals survive, and the stack pointer is restored on every return path.',
  ['inputs', 'programs'], 'hand-written and randomly generated signatures of up to about 8 parameters of all types; all argument values; recursion up to about 6 levels',
  'The number of signatures and argument values is unbounded; corrupted frames show up far from the call.',
  ['c.c', 'w.c', 'lib/include/stdarg.h'], [('call compilation', 'c.c compile_call'), ('variadic area', 'c.c, stdarg.h'), ('frame set-up', 'c.c')],
  'return value and final memory of a compiled caller', TV, 'translation_validation', TVN)
P('L01', 'string.h and strings functions meet their C contract on every byte sequence',
  'mem*, str*, strn*, strcase*, strtok, strdup and related functions return the C result, write exactly the bytes C prescribes and no others, compare bytes as unsigned char, handle empty strings, zero lengths, the terminating NUL as the character sought and overlap where C allows it (memmove), and do not read past what C lets them read where that is observable.',
  ['inputs'], 'all contents of buffers of up to about 12 bytes and all lengths and offsets within them',
  'A wrong result needs a particular byte value, position, alignment or length.',
  ['lib/src/string.c', 'lib/include/string.h'], [('string functions', 'lib/src/string.c')],
  'return value and final memory', LIB, 'translation_validation', TVN)
P('L02', 'ctype.h classifies and maps every character as the C locale says',
  'Each is* function and toupper/tolower, as function and as macro, and the wctype counterparts, give the C-locale answer for every character value from -1 (EOF) to 255, and beyond 127 no character is misclassified.',
  ['inputs'], 'every int value the functions are defined for',
  'The tests never call most of the classes on most values.',
  ['lib/src/ctype.c', 'lib/include/ctype.h'], [('class predicates', 'lib/src/ctype.c')],
  'truth of the return value', LIB, 'translation_validation', TVN)
P('L03', 'stdlib numeric, sorting, searching and multibyte functions meet the C contract',
  'atoi..atoll and strtol..strtoull accept exactly the C subject sequence in every base, report end pointer, overflow (value and ERANGE) and missing digits as C says; div, ldiv, lldiv, abs, labs, llabs are exact; rand stays in [0, RAND_MAX] and is reproducible from srand; qsort yields a sorted permutation and touches nothing outside the array; bsearch finds an element iff one compares equal; mblen, mbtowc, wctomb, mbstowcs and wcstombs are exact UTF-8 and stay inside their buffers.',
  ['inputs'], 'all strings of up to 4 to 21 bytes, all bases tried (0, 2, 8, 10, 16, 36 and more), all integers, arrays of up to 7 elements',
  'Boundary values of five types times bases, byte sequences and permutations are far too many for sample tests.',
  ['lib/src/stdlib.c', 'lib/include/stdlib.h'], [('conversions', 'lib/src/stdlib.c strto*'), ('qsort, bsearch', 'lib/src/stdlib.c'), ('UTF-8', 'lib/src/stdlib.c mb*')],
  'return value, errno and final memory', LIB, 'translation_validation', TVN)
P('L05', 'The heap never overlaps, misaligns or loses blocks and keeps their contents',
  'After every sequence of malloc, calloc, realloc and free calls, every live block is 16-aligned, lies inside memory, overlaps no other live block and keeps its contents (realloc keeps the common prefix, calloc gives zero bytes even when reusing freed memory and detects product overflow); impossible sizes give NULL and leave everything intact; freed memory is reused, so a bounded working set does not grow memory.',
  ['inputs', 'histories'], 'every operation sequence of up to 4 to 7 calls over 6 slots with size classes from 0 to 210001; symbolic sizes up to 2500 for three blocks; all impossible-size requests sampled at the limits',
  'Corruption needs a particular sequence of sizes, frees and reallocs; the tests only allocate and free in order.',
  ['lib/src/stdlib.c', 'lib/src/unistd.c'], [('free list and headers', 'lib/src/stdlib.c malloc/free/realloc'), ('memory growth', 'lib/src/unistd.c sbrk')],
  'returned pointers and block contents', LIB, 'model_checking', TVN)

P('C06', 'Constant expressions fold to the value the program would compute',
  'Every expression whose operands are constants is evaluated at compile time to the type and value C gives: each operator and cast on every pair of arithmetic types for all operand values, ?: && and || included, wherever constants are used (ordinary expressions, static initialisers, case labels, enumerators, array sizes, controlling expressions, static_assert). Constant evaluation never crashes the compiler: what cannot be folded is left to run time or reported.',
  ['inputs', 'programs'], 'all operand values of all pairs of types for the folding primitives of c.c; generated constant expressions of depth 3 in six contexts',
  'A constant folder is wrong only for particular types and values, and the tests fold a few.',
  ['c.c', 'p.c'], [('constant arithmetic', 'c.c numval_binop, numval_unop, numval_convert'), ('constant evaluation', 'c.c static_eval, arithmetic_constant_expr, expr_fold_constants')],
  'result of c.c numval_* for unknown operands; return value of compiled functions', TV, 'translation_validation', TVN)
P('L06', 'printf formats every integer, character and string argument as C says',
  'The printf family writes exactly the characters C prescribes for d i u o x X c s p and %% with every combination of flags, width, precision (including * and negative values) and length modifier, for every argument value; snprintf writes at most n bytes including the terminator and returns the full length; nothing outside the buffer changes.',
  ['inputs'], 'all argument values for each listed format; widths and precisions up to 12, strings up to 5 characters',
  'Formats times values is a huge space; the tests print some samples.',
  ['lib/src/stdio.c', 'lib/include/stdio.h'], [('formatting engine', 'stdio.c _out_*, _ntoa_*, vsnprintf')],
  'buffer contents and return value of snprintf', LIB, 'model_checking', TVN)

P('L09', 'Calendar and clock functions compute the C result for every time',
  'gmtime and localtime give the proleptic Gregorian date, time, weekday and day of year of every time_t they accept and refuse the others; mktime is their inverse, normalises out-of-range fields and updates the structure; strftime and asctime write exactly the text C prescribes, never more than the given size, and report what they wrote; TZ offsets are honoured; time, clock and difftime report the clock value or failure.',
  ['inputs'], 'every second of 32 chosen years (thorough: 1902 to 2157), out-of-range fields for mktime, all field values per strftime conversion, all buffer sizes up to 31',
  'There are far too many days, years and field combinations; the tests print one or two dates.',
  ['lib/src/time.c', 'lib/include/time.h'], [('calendar', 'time.c secs_to_tm, mktime'), ('formatting', 'time.c strftime, asctime_r'), ('time zone', 'time.c tzset')],
  'return value, struct tm and text buffer', LIB, 'model_checking', TVN)
P('L08', 'Streams deliver exactly the bytes of the file, in order, through any buffering',
  'For every history of stream operations, buffering mode, transfer size and device error, a stream behaves as a plain byte file: reads, ungetc, seeks, tells, end-of-file and error indicators are those of the unbuffered file. Written bytes reach the device in order and at the right offset no later than the flush, close or exit that C requires, after all atexit handlers. Data is never lost silently: if every call reports success, the file has exactly those bytes.',
  ['inputs', 'histories', 'fault_sequences'], 'all histories of two or three operations out of fgetc, ungetc, fread, fgets, fseek, ftell, fgetpos, fsetpos, rewind, clearerr, fputc, fwrite, fputs, fflush with their operands, files of up to 5 bytes, buffers of 1, 2, 3, 8 and 1024 bytes, unbuffered and line-buffered, short transfers, a failing or full device',
  'Buffer boundaries, short transfers and errors interact with the order of operations; the tests read and write a few files straight through.',
  ['lib/src/stdio.c', 'lib/src/unistd.c', 'lib/include/stdio.h'], [('stream input', 'stdio.c _fillbuf, fread, fgets, ungetc'), ('stream output', 'stdio.c _flushbuf, writebuf, fwrite, fputs, fflush, closeall'), ('positioning', 'stdio.c fseek, ftell, fgetpos, fsetpos, rewind')],
  'results of the operations, indicators and bytes that reach the WASI calls', LIB, 'model_checking', TVN)

P('L10', 'math.h gives the exact or fdlibm result for every argument',
  'fabs, floor, ceil, trunc, round, nearbyint, sqrt, frexp, ldexp, scalbn, modf, fmod, copysign, fmax, fmin and the classification functions give the exact (correctly rounded) IEEE result for every double, including zeros, subnormals, infinities and NaNs. exp, expm1, log, log10, pow, the trigonometric, inverse and hyperbolic functions give the value the fdlibm algorithm gives (errors below one unit in the last place) and the C result for special arguments.',
  ['inputs'], 'all doubles for the exact functions; for the others the special values, the neighbourhoods of the algorithm\'s thresholds and selected binades',
  'The tests evaluate a few dozen arguments; branches depend on bit patterns of 64-bit arguments.',
  ['lib/src/math.c', 'lib/include/math.h'], [('bit-level functions', 'lib/src/math.c ieee754_scalbn, frexp, modf, round, fmod'), ('transcendental functions', 'lib/src/math.c ieee754_*')],
  'bits of the returned double', LIB, 'translation_validation', TVN)
P('L12', 'File-system calls reach the right WASI call and report what it said',
  'For every path, open, stat, access, unlink, mkdir, link, rename, remove and fopen act in the preopened directory with the longest name that matches the path at a component boundary, on the rest of the path, or fail if there is none. Flags, rights, offsets and lengths reach the host unchanged; results, file status fields and errors come back as POSIX defines. readdir and scandir give every entry exactly once, in order, over any buffer boundary, seekdir and rewinddir.',
  ['inputs', 'histories', 'fault_sequences'], 'every descriptor, flag set, offset, rights word and host error code; paths of up to 4 bytes against 28 sets of preopened directories; directories of up to 4 entries including names around the buffer size; all histories of 3 or 4 directory operations',
  'The tests open one file in one preopened directory; errors, other preopen sets and cut directory entries never occur.',
  ['lib/src/fcntl.c', 'lib/src/stat.c', 'lib/src/unistd.c', 'lib/src/dirent.c', 'lib/src/stdio.c'], [('path resolution', 'fcntl.c find_abspath, prefix_matches, populate_preopens'), ('calls and errors', 'unistd.c, stat.c, fcntl.c openat, fcntl'), ('directories', 'dirent.c readdir, scandirat, seekdir'), ('streams by name', 'stdio.c freopen, remove, rename')],
  'WASI calls made with their arguments; return value, errno and result structures', LIB, 'model_checking', TVN)
P('L07', 'Formatted input converts exactly what C says and stops at the right character',
  'For every format and input, sscanf, snscanf and fscanf match, convert and store as C prescribes: field widths, sizes, suppression, scansets, literal and white-space directives, %n; every integer and simple floating value is stored in an object of its size and nothing else is written. The result is the number of assignments, or EOF only if the input ends before the first conversion. The stream stands right behind the last character used.',
  ['inputs', 'programs'], '120 formats of one to three directives, every input of 2 to 4 bytes, from strings, bounded strings and streams with three buffer sizes',
  'Formats and inputs combine freely and the failing paths (mismatch, end of input inside a number, prefix without digits) are hardly tested.',
  ['lib/src/stdio.c'], [('directives', 'stdio.c _vsnscanf'), ('numbers', 'stdio.c _aton, _atod, _atos'), ('input', 'stdio.c _in_buffer, _in_file')],
  'return value, stored bytes, position of the stream', LIB, 'model_checking', TVN)
P('C08', 'Linking modules gives the program the single source file would give',
  'A program split into modules that include each other\'s headers behaves as the same program in one file: references reach the right function or variable across modules, same-named static functions and variables stay separate, initialisers that hold addresses of other modules\' data and functions point at them, no two objects share memory, and it makes no difference whether sources or object (.wo) files are linked or in what order.',
  ['programs', 'inputs', 'configurations'], 'generated programs of 2 to 4 modules plus main, from sources and from objects; every argument value of every call sequence of up to 3 calls',
  'The tests link single-module programs with the library; mixing up same-named symbols needs several modules.',
  ['l.c', 'w.c', 'c.c', 'p.c'], [('symbol resolution', 'l.c, w.c link'), ('data placement', 'w.c finalize_wat_module'), ('object files', 'w.c, l.c .wo reader/writer')],
  'return values and final globals of the linked module', TV, 'translation_validation', TVN)
P('C07', 'Every optimisation level gives the same, correct program',
  'The program produced at any -O level behaves as the C source says: the peephole optimiser replaces an instruction sequence only by one that computes the same results for every operand, keeps side effects and their order, and never changes which memory an access reaches, including accesses through computed and wrapped addresses.',
  ['programs', 'inputs', 'configurations'], 'every sequence of three and four instructions of the listed alphabets with every immediate, operand and local; generated programs at -O 0, 1, 2, 3',
  'An unsound rewrite shows only for one instruction pattern with particular immediates or operands; the tests run one level.',
  ['c.c'], [('peephole rules', 'c.c fundef_peephole')],
  'machine state after the rewritten sequence; return value and memory of compiled functions', TV, 'translation_validation', TVN)
P('C09', 'Binary modules encode exactly the linked program',
  'A program written as .wasm is a well-formed module that behaves as the program: every instruction has its standard opcode, every immediate (LEB128 integers of any value, floats bit for bit, names, offsets, alignments, lanes, switch targets) its standard, minimal encoding, sections and bodies have their right sizes, and functions, locals, types, table entries and data keep their order and contents whatever their number.',
  ['inputs', 'programs'], 'every 64-bit value per encoder, every opcode; hand-written and generated programs with many functions, locals, switch targets and data, every input',
  'Encodings change length at powers of two and most constants and opcodes never occur in the tests, which run the text form.',
  ['w.c'], [('encoders', 'w.c wasm_*'), ('instruction encoding', 'w.c wasm_expr, wasm_in'), ('conversion', 'w.c wat_to_wasm')],
  'bytes emitted; behaviour of the decoded module', TV, 'translation_validation', TVN)
P('C10', 'Object and text files lose nothing',
  'What is written to .wo and .wat text and read back is the same program: integer and floating constants bit for bit (subnormals, infinities and NaNs included), names, offsets, alignments, string and binary data with every byte value, zero-filled data, function and data references. A program linked from object files behaves as the one compiled from source.',
  ['inputs', 'programs'], 'ranges and boundary values of integers, all exponents and mantissa windows of floats, data of up to 3 arbitrary bytes; hand-written and generated programs through .wo, every input',
  'Text round trips fail for particular values, escapes or widths; the tests use few constants and little data.',
  ['w.c', 'l.c'], [('text writer', 'w.c format_inscode, wat_export_*'), ('text reader', 'w.c lex, parse_ins, scan_*'), ('hex floats', 'l.c uftohex, hextouf, udtohex, hextoud')],
  'instruction read back; behaviour of the linked module', TV, 'translation_validation', TVN)
