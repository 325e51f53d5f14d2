"""What each check enumerates (rule), its bounds in both tiers, and what it assumes. Written into the evidence files."""
SAN = 'the sanitizer reports every access outside the exactly sized, poison-surrounded pieces of memory handed to the code'
REF = 'the reference model in harness/*.h states the documented behaviour correctly'
BUFST = ('state of a buffer = (storage: fixed / dynamic with an allocator which moves every block up / moves it down / resizes in place, capacity, content); '
         'every action is applied to every state and the successor compared with the byte string model')
T = {
'C01': ('a case is a pair of texts given to every comparison function, as views and (where it has no NUL) as C strings; non-trivial: both non-empty, or differing at a stated position',
  dict(quick='all pairs of texts over 13 bytes (case pairs, @ [ ` {, 0x00, 0x7f-0xff) up to length 2 and over 2-3 letters up to 6; all 65536 byte pairs at 9 depths x 3 tails; lengths 0..96 and 19 up to 100001, every difference position, 4 kinds, 8 alignments; all windows of one text; invalid and empty; neighbouring bytes of every two values in both texts; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='as quick, with length 3 over 13 bytes, 16 depths, lengths 0..260'), [SAN, REF]),
'C02': ('a case is a haystack and a needle given to find_first/find_last/contains (+_nocase); non-trivial: needle not empty and not longer than the haystack',
  dict(quick='all haystacks up to 7 over {a,A,b} x all needles up to 4; up to 5 over {NUL,0x80,0xff,a,b} x 3; all windows of one text in each other; 256x256 single bytes; every haystack length 0..48 x needle length x position of occurrence; C string needles; every byte next to every byte around a needle; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='haystacks up to 9 x needles up to 5 (3 letters), 6 x 3 (5 letters), lengths 0..90'), [SAN, REF]),
'C03': ('a case is (text length, begin, end) or (length, index); non-trivial: the text is not empty and the index lies inside it',
  dict(quick='every length 0..39 and 14 up to 70000, indexes within 3 of 0, of +-size and of +-size/2 (all of them for lengths below 12), INT_MIN, INT_MAX, INT_MAX-size, INT_MIN+size and powers of two, all pairs; full index plane on short texts; pop of every byte and length to 140; invalid views; texts of every two neighbouring bytes sliced everywhere; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='lengths 0..130, full index plane to +-(2n+1) for lengths below 60, pop to 301'), [SAN, REF]),
'C04': ('a case is a text and a trim set (or a quoted text); non-trivial: both non-empty / longer than one character',
  dict(quick='all texts up to 5 over {space,a,NUL,0x80,0xff} x all sets up to 3; all byte pairs; all lengths of leading, kept and trailing runs; sets that are windows of the text; C string sets; all texts over {\',",a,b} up to 7 dequoted; all pairs of end bytes; nesting depths; every pair of characters in sets and around quotes (no character of a set has a meaning of its own); texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='texts up to 6, dequoted texts up to 9, larger run lengths'), [SAN, REF]),
'C05': ('state = (remaining source); transition = one split (first or last, quotes excluded or not) by one delimiter set; all sequences until the source is exhausted',
  dict(quick='all texts up to 7 over {comma,semicolon,quote,a,b} with every delimiter set, run to exhaustion; split_all of all texts up to 5 into every array size; 256x256 delimiter/text bytes; lengths to 280 with the delimiter everywhere; 9 lengths to 131072 with the delimiter around 0, half, end, 32768 and 65536; up to 140 fields, and thousands of fields (to 70001) split into arrays of every critical size; delimiter sets of every size to 255 against every byte; every byte among delimiters and quotes, every pair of characters in delimiter sets; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='texts up to 8, split_all up to 7, lengths to 600, 290 fields'), [SAN, REF, 'with unbalanced quotes split_last_delim is taken to mirror split_first_delim: quotes are counted from the end']),
'C06': ('state = (unread text, pieces arrived, eol state); transition = the next piece arrives, or one call of split_line; the model is all interleavings of both, merged on equal states, plus all chunkings unmerged',
  dict(quick='all texts up to 8 over {CR,LF,a} under all arrival and call schedules; all chunkings of texts up to 7 unmerged; every byte value between endings; line lengths to 270 with the ending everywhere and cut around it, and 9 lengths to 131072; every byte next to every pair of line endings; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='texts up to 11 (merged) and 9 (unmerged), line lengths to 600'), [SAN, REF]),
'C07': ('a case is a source window and a position window; non-trivial: the position lies inside the source',
  dict(quick='every window of a text of 20 split at every window of it, both functions; 14 longer sources at every position; 9 sources of 32767 to 131073 at positions around every power of two; positions far away, invalid, NULL; every two neighbouring bytes at the split; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes', thorough='as quick with a text of 34'), [SAN, REF]),
'C08': ('a case is a content and a destination size; non-trivial: size not 0',
  dict(quick='every content length 0..140 x destination size 0..143, contents with NUL and high bytes; 15 large sizes +-2; destination sizes beyond any view; all texts to 300 through cstr and PRIstr; all windows of a text printed with PRIstr; every two neighbouring bytes exported; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
       thorough='content lengths to 300'), [SAN, REF]),
'C09': ('state = a view of the text; transition = one of ~50 view operations, judged against the reference and against the same operation on an isolated copy of the view; breadth first until no new view appears, so histories of any length are covered',
  dict(quick='every text up to 5 over {comma,a,space,quote,newline} and 9 longer ones, and texts over {NUL,a,comma,0xff,CR}, all reachable views; all unmerged sequences of 3 operations', thorough='texts up to 6, sequences of 4'), [SAN, REF]),
'C10': (BUFST, dict(quick='contents up to 4 over {a,b}, capacities up to 7, sources up to 2, all insert indexes and positions; all histories of 4 actions from 3 capacities; 36 lengths up to 1025 for content x source, and 8 up to 65537; cat of up to 16 views; growth steps 16 and 3; every two neighbouring bytes where texts meet, every pair of characters to strip; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes',
  thorough='contents up to 5, capacities up to 9, histories of 5; growth steps 1, 3, 16, 32; three compilers/optimisations'), [SAN, REF, 'allocation does not fail']),
'C11': (BUFST + '; sources are windows of the buffer itself', dict(quick='every window of contents up to 6 as source of every edit at every index, capacities without, with exact and with ample room; cat of 2 and 3 windows mixed with outside text; long contents (to 65537) at the borders; all histories of 4 self edits; growth steps 16 and 3; every two neighbouring bytes where own texts meet; own texts of 2^20-1..2^20+1 and 2^24-1..2^24+1',
  thorough='contents up to 9, histories of 5, growth steps 1, 3, 16, 32'), [SAN, REF, 'strbuf_cat of a view of the same fixed buffer is documented to fail and is not judged here']),
'C12': (BUFST + '; judged: size, capacity, terminator, header, returned view, bytes around the buffer', dict(quick='contents up to 4, capacities 0..8, every action with outside, own and invalid sources, printf and prnf; 28 lengths up to 2048 and 8 up to 65537 exactly fitting, one less, one more; growth steps 16 and 3; every answer of read and write (error, 0, 1..asked) and encryption and decryption of 0..50 bytes on every kind of buffer',
  thorough='contents up to 6, capacities up to 12; growth steps 1, 3, 16, 32'), [SAN, REF, 'allocation does not fail']),
'C13': (BUFST + '; fixed buffers, including the action after one which emptied the buffer', dict(quick='as C12 on fixed buffers; every action after every failing action for capacities 0..70; every answer of read and write, encryption and decryption on fixed buffers', thorough='as C12; capacities up to 300'), [SAN, REF]),
'C14': (BUFST + '; judged: the capacity', dict(quick='as C12; growth from every size 0..140 by every amount; all histories of 6 actions (grow, shrink, append, assign, char, strip) ; growth steps 16 and 3; every answer of read and write, encryption and decryption', thorough='histories of 7, capacities to 300; growth steps 1, 3, 16, 32'), [SAN, REF]),
'C15': (BUFST + '; every call of the allocator is judged: address, size, app_data, balance', dict(quick='as C12; to_cstr and destroy from every state; histories of 4 actions on two buffers with different allocators; histories over the C library heap with malloc, realloc and free intercepted; builds with and without the default allocator; every answer of read and write, encryption and decryption',
  thorough='as C12; histories of 5; growth steps 1, 3'), [SAN, REF, 'allocation does not fail']),
'C16': ('a case is (size, alignment) of the memory, or (capacity, initial text); non-trivial: more than a header', dict(quick='every size 0..700 x 16 alignments; 18 sizes up to SIZE_MAX; every capacity to 1200 with 6 kinds of initial text; 26 static and automatic buffers; capacities given by 26 constant expressions, and (where it compiles) at run time', thorough='sizes to 2200, capacities to 2500'), [SAN, REF]),
'C17': ('a case is (content size, source sizes, operation); non-trivial: the sum is within 64 of INT_MAX or beyond', dict(quick='every pair of ~35 sizes around 0, INT_MAX/4, /3, /2 and INT_MAX for every operation and argument position, with and without self views, formatted output of printf and prnf, append_using, creation and growth, three builds', thorough='more sizes, larger copies, growth steps 1 and 32'),
  [REF, 'buffers lie in reserved address space whose pages read as zero; the allocator records requests instead of providing 2 GB', 'memory accesses beyond that space fault']),
'C18': (BUFST + '; formatted output', dict(quick='every output length 0..150 x capacities exactly, one less, one more x prior contents; 13 values and widths of mixed formats; embedded NUL; output up to 65536 bytes into small buffers, exceeding the room by every amount; all histories of 4; every call of the formatter failing; growth steps 16 and 3; formats of up to four elements (conversions, doubled %, plain text); texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes', thorough='lengths to 300, histories of 5; growth steps 1, 3, 16, 32'),
  [SAN, 'the C library vsnprintf and test/prnf.c are the oracles for their own output', 'arguments which point into the buffer are excluded']),
'C19': ('state = (storage, capacity, size); transition = one call with one answer of the fetcher', dict(quick='every capacity to 34 and size x every answer from -capacity-3 to 2*capacity+4 and INT_MIN, INT_MAX, powers of two; 13 capacities to 65536; all histories of 5 answers; texts of 2^20-1..2^20+1 and 2^24-1..2^24+1; every text of three bytes', thorough='capacities to 64, histories of 6'), [SAN, REF]),
'C20': ('a case is a function with one combination of missing, invalid and empty arguments on one state; non-trivial: all', dict(quick='every public function; buffer states of 4 storages, capacities to 9, sizes to 4; split_line of NULL and invalid views with every state of the ending', thorough='capacities to 20, sizes to 5'), [SAN, REF, 'strview_swap of a NULL address is outside the contract']),
'C21': ('an evaluation is a text with an option set, converted to every type concerned; non-trivial: some conversion succeeds or is a range error', dict(quick='every value of 8 and 16 bit types in 3 bases; +-300 around every limit; all powers of 2, 10, 16 and multiples; every digit of a limit replaced, inserted, removed; all digit counts to 200; all texts up to 4 over 22 characters after each first one; leading zeros; every byte and pair of bytes between digits; every text of three bytes', thorough='+-3000 around limits, texts up to 5, more pairs of replaced digits'), [REF, 'the oracle is 256 bit arithmetic in harness/refnum.h']),
'C22': ('state = position in a text of several tokens; transition = one conversion (type, options); all reachable positions', dict(quick='all sequences of up to 3 tokens (about 45 tokens), all types, 6 option sets; every text up to 5 over 9 characters; runs of spaces and zeros; the limits of every type with the convenience functions; texts of 8 tokens', thorough='other separators, texts of 12 tokens'), [REF]),
'C23': ('a case is (text, option set) given to all integer and one floating type; non-trivial: some type accepts it', dict(quick='all texts up to 5 over 13 characters (space, tab, signs, 0, 1, 2, b, X, f, point, e, 0xB1) x all 64 option sets; every byte at every place of 24 numbers; runs of up to 300 spaces, zeros; up to 72 digits of 10 kinds after 7 signs x 12 prefixes; every two bytes before, within and after a number', thorough='all texts up to 7'), [REF, 'BASE_BIN and BASE_HEX together, and base options on floats, are not documented and not explored']),
'C24': ('an evaluation is a text with an option set, converted to all types; non-trivial: a number', dict(quick='all texts up to 6 over 8-10 characters x 8 option sets x 3 types; inf/infinity/nan in every case, cut and altered at every place; every byte at every place; digit counts to 5500; exponents around every limit including INT_MAX; every two bytes before, within and after a number; every text of three bytes', thorough='all texts up to 8'), [REF]),
'C25': ('a case is one text converted to one type; non-trivial: finite and not zero', dict(quick='integers to 2^24 (every 7th) and around all powers; every decimal exponent of each type x 12 mantissas; 26x26 digit counts x exponents; compensation of up to 330 digits; all mantissas to 999 x exponents; digit runs and exponents beyond 16 bits', thorough='every integer to 2^24, 60x60 digit counts, 700 digits, mantissas to 9999'),
  ['tolerance 5 units in the last place of the destination type (largest seen 2.7)', 'oracle: exact decimal/binary comparison in harness/refnum.h (correctly rounded strtold for float and double cross-checked)']),
'C26': ('state = (content, bytes still to come); transition = one read or write with one answer of the descriptor (error, 0, 1..asked)', dict(quick='all answers in all states; all histories of 5 calls on buffers to capacity 4; every way of writing a view of up to 8 bytes; buffers to 40 and views to 300; sizes near INT_MAX; a real pipe; every two neighbouring bytes at a short write; every text of three bytes', thorough='histories of 6, views of 11, sizes to 600'), [SAN, REF, 'read() and write() are replaced at link time']),
'C27': ('a case is a value of a type, or a sequence of packs and unpacks; non-trivial: value not 0, sequence longer than 1', dict(quick='every 8 and 16 bit value; 32 and 64 bit values: every byte at every place over several backgrounds; all sequences of 4 of 16 packs; capacities around the total; every text of three bytes', thorough='sequences of 5, more patterns'), [REF, 'little endian host; the big endian branches of xendian.h are compiled with the byte order macro overridden and must give the mirror image']),
'C28': ('state = (storage, capacity, content, key, vector); transition = encrypt or decrypt', dict(quick='every length 0..130 x 4 storages x patterns; every room of a fixed buffer; every bit of key, vector and block; all histories of 5 calls; lengths beyond 16 bits up to 1.1 MiB; content sizes INT_MAX-40..INT_MAX which cannot be encrypted; published vectors; reference AES written from FIPS-197; 9 MiB', thorough='lengths to 400, histories of 6, encryption and decryption of nearly INT_MAX bytes (block cipher replaced)'), [SAN, 'reference AES in harness/refaes.h, itself checked on the published vectors', 'temporary allocations succeed']),
'C29': ('a case is a ciphertext given to decrypt; non-trivial: invalid padding, or altered', dict(quick='every size 0..200 and sizes beyond 16 bits; every padding byte for 1..4 blocks; every byte of ciphertexts to 40 altered to every value (last two blocks) ; another key or vector', thorough='sizes to 700, every value at every byte'), [SAN, REF]),
'C32': ('a case is a key, a block (with its context), a pair of field elements, or a length and alignment; states of the histories are the three contexts and blocks; non-trivial: not a zero length or factor',
  dict(quick='published vectors; all 256 entries of both tables; gf256mul of all a, b and reducers; for each key length: 5 key backgrounds x every byte x every value, every pair of key bytes x 16 values, 4x4 backgrounds x every block byte x every value, pairs of values in neighbouring bytes; all alignments of key, context and block; all histories of 5 block operations on contexts of three lengths; memxor of every length 0..140 and 30 up to 65535 at all alignments, all byte pairs',
       thorough='12 key backgrounds, every pair of key bytes x 256 values, 10x10 block backgrounds, all pairs of values in all 15 neighbouring bytes, histories of 7, memxor to 600'), [SAN, 'the reference AES in refaes.h is right (it is checked on the vectors of FIPS 197 and SP 800-38A)']),
'C33': ('a case is a macro, a kind and form of each argument, and contents; or a number of views joined; non-trivial: the contents are not empty',
  dict(quick='11 view macros and 6 buffer macros x 16 forms of the C string or view argument (variables, const, arrays, calls, conditionals, comma, x[i++], *p++, members, assignments, compound literals; and literals) x 3-4 forms of the first argument, for all texts up to 4 over {a,A,b} and all arguments up to 3; strbuf_create of int, size_t and view in 10 forms, 0..70; strbuf_cat of every number of views 1..127 in 6 buffers, with own views at any end, one or all views not empty; nested macros; strnum_value of all 13 types at the limits of all types in 5 forms, and 10 typedefs',
       thorough='texts up to 5, own and non-empty views at every position'), [SAN, REF]),
'C31': ('state = (accesses made by the first, by the second operation); transition = one schedule: the operations run in turn for the stated numbers of memory accesses, then to their ends',
  dict(quick='30 operations (all functions, some in sequences) with 2 data sets: all sequences a b and a b a, the data at the same addresses; on distinct objects, all ordered pairs, own or common source text; every switch point for one preemption; all pairs of switch points where their product is small (for equal operations up to 300000), all triples for the shortest; access sets of all pairs compared',
       thorough='sequences a b b a; one preemption for all pairs, two where the product is below 600000, three below 6e7; unoptimised build too'), ['the C library functions and calls of the allocator, fetcher and descriptors are atomic steps; compiled with the access instrumentation of -fsanitize=thread, harness hooks instead of its runtime']),
'C30': ('a case is a behaviour probe in one configuration; configurations are the product of the options; non-trivial: all that convert, edit or format', dict(quick='all 32 combinations of the 5 options x growth step (default,1,3,64) with gcc, 9 steps up to INT_MAX, 16 with clang and gnu11; symbols provided, absent and required; each header alone; C library out of memory under the assert option; all 16105 texts up to 4 over 11 letters as integers with the options, against the reference, in every build', thorough='growth steps 1..40 and 13 larger, gcc and clang, gnu99/gnu11/gnu17'), [REF]),
}
