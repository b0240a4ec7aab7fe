"""Registered checks: harness, entry functions (with time weights), bounds, and what lies outside them."""
COMMON_ASSUMPTIONS = [
  'clang 18 -O1 translates the C++ and C sources faithfully to LLVM IR; the engine (engine/) executes that IR and Z3 4.8.12 decides the resulting bit-vector / IEEE-754 formulas',
  'libstdc++ templates (string, vector, regex, streams) are executed from their own IR; files, formatted number output, string search, memory and character primitives are the models in rt/rt.cpp and engine/models.cpp; sampled paths and every counterexample are re-run on a native ASan/UBSan build with the real libraries',
  'generated C is compiled by the same clang for x86-64 inside the run, with the symbolic digits and characters kept symbolic in the compiled constants']
CHECKS = {}
def check(pid, harness, entries, quick, thorough, outside, covers, secs=300, secs_thorough=2400, **k):
    CHECKS[pid] = dict(harness=harness, entries=entries, bounds=quick, bounds_thorough=thorough, outside=outside, covers=covers, secs=secs, secs_thorough=secs_thorough, **k)
G = 'one DBC file per path, run through main(), the written files compiled and executed; '

check('C01', 'c01.cpp', ['numbers', 'names', 'lacking', 'several'],
  ['identifier text: any number of 1 to 10 digits up to 4294967295; data length text: any number of 1 to 4 and of 9 digits', 'names of 1 to 6 and transmitters of 0 to 4 arbitrary identifier characters', '14 line forms lacking one or more fields, with symbolic texts', 'three message lines in one file, at most one of them invalid'],
  ['data length text of 1 to 10 digits, names up to 12 and transmitters up to 8 characters'],
  ['identifiers above 32 bits', 'spacing other than "BO_ id name: dlc tx" (leading white space, space before the colon)'],
  ['accepted', 'rejected', 'no identifier', 'no name', 'no length', 'several'])
check('C02', 'c02.cpp', ['layout', 'names', ('factor', 2), ('offset', 2), ('text', 2), 'delim'],
  ['start bit any number of 1 to 3 digits, length any number of 1 to 3 and 9 digits, both orders and signs', 'signal name 1 to 6 arbitrary identifier characters; no, master or m<0..3 digits> multiplexing', 'factor: any number with 1 to 3 digits before and 0 to 10 behind the point, with and without exponent, both signs; offset: 1 to 4 and 0 to 10 digits', 'unit: up to 5 arbitrary bytes except quote, line feed and NUL, and 10 longer ones containing delimiters; 1 to 3 receivers of 1 to 3 characters, separated by comma with or without spaces'],
  ['length text up to 9 digits, names up to 12 and units up to 8 characters, up to 12 decimals, eight exponent forms'],
  ['numbers with more than 15 significant digits', 'lines without the separator " : " or without all seven numbers', 'units with line breaks'],
  ['kept', 'rejected', 'plain', 'master', 'multiplexed', 'floating', 'integer', 'simple', 'tiny', 'text', 'delimiters'])
check('C04', 'c04.cpp', [('mid', 3), ('classic', 4), ('fd', 3), ('dlcs', 1)],
  [G + 'every payload value of the frame symbolic', 'all lengths 1..64, both orders, at every bit offset in the middle of a frame; every start bit and fitting length of an 8 byte frame (sign alternates); 64 byte frames: start bits 440..511, 20 lengths; every data length with its last fitting layouts', 'plain and bit field structs; wide (64 bit) extension types; default 32 bit extension types for unsigned signals and signed ones up to 31 bits'],
  ['both signs in classic frames; every start bit 0..511 and every length in 64 byte frames'],
  ['big-endian targets, other C compilers', 'signed signals above 31 bits with the default 32 bit bitext_t, which the generated header documents as the user\'s to widen'],
  ['mid', 'classic', 'fd', 'dlcs'], secs=400, secs_thorough=3000)
check('C05', 'c05.cpp', [('offsets', 3), ('splits', 4), ('mixed', 3)],
  [G + 'all field values, the previous payload content, eight bytes behind it and the initial byte value symbolic', 'every length 1..64 at every bit offset in 64 byte frames, both orders; two signals for every split of a classic frame and both orders; Intel and Motorola signals sharing bytes (28 arrangements); frames of various lengths with free bits', 'plain and bit field structs'],
  ['both sign assignments'],
  ['messages with overlapping signals (multiplexed layouts)', 'big-endian targets, other C compilers'],
  ['offsets', 'splits', 'mixed'], secs=400, secs_thorough=3000)
check('C06', 'c06.cpp', ['harness'],
  [G + 'data length 1..64, standard and extended, identifier any value of its digit count, with and without rolling counter and checksum; field values, old frame content and hash value symbolic'],
  [], ['frame structures with a Data array shorter than the message'], ['extended', 'standard', 'marked', 'unmarked'])
check('C08', 'c08.cpp', [('small', 4), ('large', 2), ('dlcs', 4), ('fit', 4)],
  [G + 'data lengths 1, 2, 8: start bits 0..71 and up to 511, both orders, shortest/middle/64 bit non-fitting length; 64 byte frames: start bits 432..511; every data length: signals at its end', 'fitting signals: the longest fitting signal of every (sampled above 8 bytes) start bit, both orders, every data length'],
  ['all start bits 0..511 for 1, 2, 8 and 64 bytes, all last eight bits of every data length'],
  ['start bits above 511'], ['misfit', 'fit'], secs=300, secs_thorough=3000)
check('C09', 'c09.cpp', ['all', 'more', 'node'],
  [G + '1 to 12, 16, 19 and 23 messages (node utility: 1 to 7), identifiers symbolic inside six range patterns, every received 32 bit identifier, length and unpack result', 'three file orders; receivers and empty messages mixed'],
  ['1 to 24 messages with all three orders, node utility 1 to 16'],
  ['standard and extended messages with the same 29 bit identifier', 'more than 24 messages'],
  ['all', 'node', 'unknown'])
check('C10', 'c10.cpp', ['ids', 'vers', 'maxdlc'],
  [G + 'identifiers of 1 to 9 (extended 10) digits, data lengths, cycle times and version numbers symbolic per digit count; up to three messages, maximum data length over symbolic lengths'],
  ['more digit counts'], ['cycle times above 31 bits'], ['ids', 'vers', 'maxdlc'])
check('C11', 'c11.cpp', ['harness'],
  [G + 'counter lengths 1..64, both orders, several positions and data lengths; counter field, expected value, payload and neighbours symbolic; both pack variants; with checksum and alone'],
  ['all variants for each length'], ['signed or scaled counters (no counter code is generated for them)'], ['frame', 'array', 'checksum', 'counter alone'])
check('C12', 'c12.cpp', ['harness'],
  [G + 'every position inside a byte (offset and length), both orders, various bytes and data lengths; method name from four, option any number of 1 to 3 digits; hash results, fields, payload and received frame symbolic; three initial byte values'],
  ['all four build variants for each position'], ['checksums crossing a byte (not generated)', 'negative options'], ['frame', 'array', 'with counter', 'alone'])
check('C13', 'c13.cpp', ['harness'],
  [G + 'data length 1..64, mono and per-message monitor functions, with and without counter and checksum; payload, received length, tick, counters, hash symbolic'],
  [], ['monitor functions which change the message'], ['mono', 'default', 'marked', 'unmarked'])
check('C14', 'c14.cpp', ['targets', 'order', 'collide'],
  ['two messages and one entry (message comment, signal comment, value table, cycle time): identifiers of both messages and of the entry any numbers of 1 to 9 digits (standard and extended), signal names of 1 to 6 and entry names of 1 to 4 arbitrary identifier characters; plain, integer and floating scaled signals in all positions', 'two entries with an entry of an unknown message between them, comments over one or two lines, text characters symbolic', 'standard and extended message with the same 29 bits: known finding, still asserted outside it'],
  ['all digit count and name length combinations of 48 cases'],
  ['more than two messages', 'attributes other than GenMsgCycleTime'],
  ['message comment', 'signal comment', 'value table', 'cycle time', 'two entries', 'collision'])
check('C16', 'c16.cpp', ['bytes', 'ident', 'inner'],
  ['every byte string of up to 5 characters; every identifier starting with 1 to 6 arbitrary identifier characters; two arbitrary neighbouring bytes at every place of three longer texts'],
  ['byte strings up to 7, identifiers up to 8 characters'], ['longer texts of arbitrary bytes'], ['identifier', 'empty', 'dropped', 'kept'])
check('C17', 'c17.cpp', ['decimals', 'large', 'integers', 'floating'],
  ['in the generated header: every integer factor of 1 to 7 (with long offsets 3) and offset of 1 to 15 digits, every number of 1 to 3 and 1 to 10 decimals as factor and as offset', 'every number of 1 to 3 integer digits and 0 to 10 decimals, both signs, four precisions from 0 to 12 per digit count, with and without demanded fraction; every number of 4 and 5 integer digits with 3 decimals, every integer of 6 to 15 digits'],
  ['1 to 5 integer digits, every precision 0 to 12'], ['fractional numbers above 400000 (not exact in binary at ten decimals) or with more than 10 decimals', 'integers of more than 15 digits'], ['integer', 'fraction', 'integers', 'floating'])
check('C18', 'c18.cpp', ['words', ('values', 2), ('tool', 2)],
  ['two arguments, each any text of lower-case letters with or without a leading dash, in 14 combinations of lengths 0 to 10, and a fixed third one between them', 'every option at three places among others, with every value of up to 3 bytes, also repeated', 'whole runs: every order and subset of the four deciding options (two thirds of them) with any driver name of up to 2 bytes, with unknown and other options'],
  ['three symbolic arguments, values up to 4 bytes, all orders and subsets'], ['other spellings of the options with upper-case letters or signs', 'more arguments'], ['-dbc', '-out', '-drvname', '-rw', '-nodeutils', '-help', '-noinc', '-noconfig', '-nofmon', '-driverdir', '-gendate', 'generation', 'no generation'])
check('C03', 'c03.cpp', ['rawfields', ('factors', 4), ('offsets', 2)],
  ['every length 1..64 with both signs, plain and as bit fields: type of the raw field, every value stored and read back', 'physical fields: lengths 1 to 50 with any factor of 1 to 3 digits and any offset of 1 to 10 digits, all signs (half of the sign combinations per length, a third of the lengths above 34); lengths 1 to 64 with factors 1, 2, -1 and any offset'],
  ['all sign combinations for every length'], ['factors of more than three digits', 'signed 63 and 64 bit signals with offsets'], ['bit fields', 'plain', 'signed', 'unsigned'])
check('C07', 'c07.cpp', ['intfrom', 'intback', 'floatfrom', 'floatback', 'clash'],
  [G + 'the raw value is symbolic in the payload; driver built with physical fields (SIGFLOAT)', 'integer-scaled: lengths 1..48, both signs, factor any number of 1 to 3 digits (1 above 45 bits), offset any number of 1 to 9 digits, both signs; back: thirteen factors, any offset of 1 to 7 digits, from the unpacked and from a set physical value', 'floating, to physical: lengths 1..53, factor any number of 1 to 2 integer digits and 1 to 10 decimals, offset 0 to 9 decimals, both signs: the generated constants and the expression are those of the DBC text', 'floating, back: thirteen factor/offset pairs, every raw value of 1 to 16 bits, both signs', 'signal names shared by two messages: known finding, asserted for equal scaling'],
  ['every sign combination and length'], ['physical values beyond 64 bits', 'floating: factors with trailing zeros behind nine decimals, raw values above 53 bits; back conversion above 16 bits'], ['integer', 'back', 'floating', 'within one step', 'same name'])
check('C15', 'c15.cpp', ['numbers', ('texts', 2), 'doubles'],
  [G + 'every number of 1 to 18 digits, both signs, three entries and two messages, plain, integer and floating scaled signals, tables over one or two lines', 'every text of up to 3 bytes except quote and line ends, alone and inside three longer texts', 'three entries with every combination of four texts that share reduced names, numbers of 1 to 3 digits symbolic'],
  ['all cases for each digit count; texts of up to 4 bytes'], ['numbers beyond 64 bits', 'texts reduced to reserved words of other headers'], ['positive', 'negative', 'nothing left', 'reduced', 'unchanged', 'equal names'])
check('C23', 'c23.cpp', ['numbers', 'word', ('bytes', 2), ('inner', 2)],
  ['both numbers any of 1 to 10 digits up to 4294967295, leading zeros included; six forms of spacing, quotes and separators', 'any seven letters in place of the word, also followed by another one', 'two arbitrary ASCII characters at every place of five lines; 1 to 3 arbitrary ASCII characters before the word, between word and number, between the numbers and behind them', 'with and without an earlier version line, before and after the messages'],
  ['four arbitrary characters'], ['numbers above 32 bits', 'bytes above 127'], ['version line', 'other line'])
check('C20', 'c20.cpp', [('names', 3), 'letters', ('senders', 2), 'many', 'single'],
  [G + 'three messages (also empty ones, also without transmitter), three or four node names each any 1 or 2 letters, so that every way they can coincide with each other and with two fixed names is covered; several receivers per signal', 'two lines of additional transmitters naming any identifier of 1 to 3 digits, messages with any identifiers', '2 to 4 messages of up to 6 signals with lists of up to 16 receivers and additional transmitters, one of the names arbitrary', 'node names differing only in letter case: known finding, asserted otherwise', 'without the option: one to four messages, symbolic identifiers'],
  ['four node names of 1 to 3 letters, 24 arrangements'], ['more than three messages with utilities', 'node names with digits or underscores'],
  ['both', 'receives', 'transmits', 'only empty messages', 'one utility', 'long lists'])
check('C19', 'c19.cpp', ['numbered', 'full', ('rewrite', 2)],
  ['the whole tool on a file tree: up to three entries of any three-digit names (directories with files of the generated names, or files) in an existing or missing output directory of six path forms, with and without driver directory and per-node utilities, two runs after each other', 'all thousand numbers taken, and all but one of the last ten', 'rewriting into any output path of 1 to 3 printable characters (also nested), any driver name of 1 or 2 letters, an existing file of any name'],
  ['48 and 24 arrangements'], ['output paths that name a file, symbolic links, unwritable directories, backslashes, "." and ".." inside symbolic paths', 'failing disk operations', 'concurrent runs'],
  ['numbered', 'driver directory', 'taken numbers', 'second run', 'full', 'nearly full', 'existing', 'created'])
check('C21', 'c21.cpp', [('lines', 3), ('inner', 3), 'fields', 'scales'],
  ['every byte of the scanner and of everything it calls runs under all undefined-behaviour checks of clang (with float conversions) and the memory, exception and step checks of the engine',
   '18 line starts followed by every two (half of the pairs of start and end) bytes or fewer and five line ends, alone or behind a message', 'a nine-line file with one arbitrary byte inserted, substituted or cutting the file, at every second place per way', 'every numeric field with numbers of 1 to 25 digits, signs included (first and last digits symbolic, up to 4 digits all of them)', '33 extreme texts for factor, offset, minimum and maximum in all pairs, with varying length and sign'],
  ['every four bytes behind the line starts, every place and way, all digits up to 11 digits'],
  ['arbitrary texts of more lines or longer arbitrary stretches', 'lines above 100 KB, on which std::regex of libstdc++ itself exhausts the stack', 'the later generation steps (a factor or offset beyond 64 bits is cut when the field comments are printed)'], ['lines', 'inner', 'fields', 'scales'], ubsan=['-fsanitize=undefined,float-cast-overflow', '-fno-sanitize=vptr,function', '-fsanitize-trap=all', '-D_GLIBCXX_ASSERTIONS'])
check('C22', 'c22.cpp', [('texts', 3), 'all', 'lines'],
  ['one text (message comment, or comment, unit or value description of a plain, integer scaled, floating or multiplexed signal) of any 1 or 2 bytes except the quote (comments also with line ends) inside 14 surroundings (comment ends, backslashes, trigraphs, directives, format texts, parts of the markers); half of the combinations', 'all thirteen texts at once with two arbitrary bytes', 'comments over three lines: the middle one any of fifteen complete or incomplete definition lines followed by an arbitrary byte', 'all generated files compared after removing comments as a compiler does (joined lines and trigraphs included)'],
  ['any 3 bytes, every combination'], ['longer arbitrary texts, NUL bytes', 'rolling counter and checksum markers (they change the code by design)', 'texts above 4000 bytes'], ['message comment', 'signal comment', 'unit', 'value description', 'all texts', 'several lines'])
check('C24', 'c24.cpp', [('menu', 3), ('many', 2), 'again'],
  ['every sequence of four lines out of five kinds (message with any 29 bit identifier of three (extended: last two) digits, rejected message of eight forms, signal with any start bit of one or two digits, unreadable signal, other line of ten forms), line ends LF and CRLF', 'up to 13 messages, one of them with 3 to 64 signals over 8 or 64 bytes of which one or two have any start bit of two (64 bytes: three) digits', 'every pair of ten (partly unfinished) pieces as the first text (a sixth of the combinations), five second texts with symbolic numbers: every field of the result compared with that of a fresh scanner'],
  ['sequences of five lines, tab indentation, 24 long files, all pairs of pieces'], ['numbers that are not decimal (an identifier or start bit that is no number is read as 0)', 'order of signals with equal start bits', 'repeated identifiers'], ['menu', 'many', 'scanned again', 'several signals', 'no signals', 'rejected message', 'signal of a rejected message'])
check('C25', 'c25.cpp', ['harness'],
  [G + 'all 192 combinations of the eight build options (mono monitors only with monitors), each for one of two (chosen) of four messages with plain, signed, scaled, floating, one-bit and 64 bit signals of both orders, counter and checksum; payload and hash value symbolic', 'each generated source alone and all together, and with a C++ program using the headers; options given to the compiler or switched on in the generated configuration header (half of the combinations each); values received by the dispatcher, then packed again'],
  ['each combination for all four messages'], ['other compilers than clang, generated sources compiled as C++', 'floating signals above 7 bits in this check (C07 has more)'], ['DRV_USE_BITS_SIGNAL', 'DRV_USE_DIAG_MONITORS', 'DRV_USE_MONO_FMON', 'DRV_USE_SIGFLOAT', 'DRV_USE_CANSTRUCT', 'DRV_AUTO_ROLL', 'DRV_AUTO_CSM', '__DEF_DRV__', 'configuration header', 'compiler options'])
check('C26', 'c26.cpp', [('lengths', 2), 'letters'],
  ['messages, plain, scaled, bit and counter signals, value texts, nodes and driver with names of 7 lengths up to 128 (driver with all others long: 60) characters, one or all of them long, two characters of each arbitrary', 'each of seven names any identifier of up to 3 characters', 'all generated files compared with those of short names after replacing the names; with and without per-node utilities'],
  ['27 lengths, identifiers of up to 4 characters'], ['names above 128 characters', 'arbitrary driver and node names (C18, C20)', 'one description beyond 13 signals'], ['all', 'letters', 'message', 'other message', 'plain signal', 'scaled signal', 'bit signals', 'counter', 'value', 'sender', 'receiver', 'driver'])
check('C27', 'c27.cpp', ['harness'],
  [G + 'major and minor version of both DBC files any numbers of 1 to 3 (some 4 to 10) digits up to 4294967295, leading zeros included, three spellings of the version line; driver header with the source of the other, driver with a utility (whole or of a node) of the other, in both directions; whether the generated #error is reached is decided over all version digits'],
  ['a hundred digit count combinations'], ['more than two versions mixed', 'configuration and monitor files of another version (they carry no version)'], ['same version', 'other version'])
check('C28', 'c28.cpp', ['options', 'again'],
  ['the whole tool on a DBC file of four messages with symbolic identifiers, factors, offsets, cycle time, version, comment, unit, value and name; 64 of the 128 combinations of -noconfig, -noinc, -nofmon, -gendate, -nodeutils, -driverdir and -rw, in another argument order, with another output path, time of day and content of fresh memory', 'the same run twice in one process, also after another unfinished DBC file, with five contents of fresh memory'],
  ['all 128 combinations with eight digit count combinations'], ['content of the stack (only of allocated memory)', 'other locales'], ['rewriting', 'numbered', 'date', 'node utilities', 'fewest files', 'again'])
check('C29', 'c29.cpp', [('ends', 3), ('blank', 2), ('order', 3), 'breaks'],
  ['a DBC file of 37 lines with every kind of definition, symbolic identifier, factor, offset, cycle time, value and version digits', 'line ends LF and CRLF with and without final line end, one or two arbitrary white space characters (blank, tab, vertical tab, form feed, carriage return) behind every line or behind all', 'a line of 0 to 2 arbitrary white space characters before every line outside of comments', 'line ends instead of each blank (or of all) between the items of value tables and attributes', '48 orders of messages, signals, entries and head lines'],
  ['0 to 3 white space characters at every line, 240 orders'], ['line breaks inside the head of a comment (CM_ object and identifier)', 'BO_TX_BU_ before its message', 'white space before the first word of a line', 'line breaks behind the first word of a line'], ['LF', 'CR LF', 'no final line end', 'inside a comment', 'blank line', 'order', 'broken line'])
check('C30', 'c30.cpp', ['harness'],
  [G + '96 arrangements of two drivers: six name pairs (one part of the other, different letter case), any 3 digit identifiers, every one of the seven build options differently on and off, with whole or per-node utilities, in one or two output directories; compiled and linked together, used from separate sources, from one C source including both headers in either order, and from C++', 'payloads of both drivers and of two objects of the first one, and numbers converted, symbolic; unpack, pack and dispatch interleaved'],
  ['384 arrangements'], ['more than two drivers', 'the same names for messages when both headers are in one source', 'threads'], ['same message names', 'both headers', 'both headers, other order', 'C++'])
check('C31', 'c31.cpp', ['harness'],
  ['80 arrangements of three messages (standard and extended identifiers of 4 and 9 arbitrary digits) and the comments, units and value descriptions of three signals: texts of arbitrary printable characters, factors and offsets of arbitrary digits, ten lengths, both signs, plain, scaled, floating, multiplexor and multiplexed; the comments above and behind every field of both structures are read back (white space aside)'],
  ['400 arrangements, texts of up to 3 arbitrary characters'], ['comment delimiters, backslashes, question marks and "<" inside these texts (C22 has them)', 'text cut above 4000 bytes'],
  ['plain', 'factor', 'factor and offset', 'floating', 'multiplexor', 'multiplexed', 'two lines', 'counter', 'standard', 'extended', 'unit', 'values'])
