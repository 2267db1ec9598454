NOT_APPLICABLE = []
PROPS = []
def P(id, title, statement, over, q, why, files, mech, observe, technique, note, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech,
                      observe=observe, technique=technique, note=note, **k))

REXF = ['rex/rexcompiler.c', 'rex/rexfragment.c', 'rex/rexdfaconv.c', 'rex/rexdfa.c', 'rex/rexregex.c']
TRUST = ' Trusts the harness model, clang/AddressSanitizer and the generated distribution; explores, does not prove.'

P('X01', 'Regex match reports the longest prefix in the expression\'s language',
  'For every valid regular expression and every byte string, matching at the start of the string reports the length in bytes of the longest prefix that belongs to the language of the expression, and no match when no non-empty prefix belongs to it. Stepping the nondeterministic automaton character by character, converting it to a deterministic automaton and stepping that (full transition tables or the packed static form), and the regex object all report the same longest prefix. This holds for every operator (alternation, concatenation, `? * +`, repeat counts, character classes and ranges, negated classes, `.`, escapes, quoted characters) and for byte and UTF-8 input, without out-of-bounds access, leak or crash.',
  ['inputs', 'programs'], 'all expressions generated by the grammar of the pattern language up to the size bound, paired with all strings, well-formed and malformed UTF-8',
  'the unit tests build six fixed automata; DFA conversion, repeat counts, ranges and byte/UTF-8 decoding are never exercised, and the claim is over all expressions times all strings',
  REXF + ['rex/rexdb.c', 'rex/rexstate.c', 'rex/rexnfasimulator.c', 'rex/rexdfasimulator.c'],
  [('pattern to NFA', 'rexcompiler.c'), ('subset construction', 'rexdfaconv.c'), ('stepping', 'rexdfa.h, rexnfasimulator.c')],
  ['rex_regex_match', 'rex_nfasimulator_next', 'rex_dfa_next'],
  'property-based testing: generated regex ASTs and inputs against a reference matcher, three engines compared', 'Reference matcher is a direct denotational evaluation of the AST.' + TRUST)

P('X02', 'Regex scan finds the leftmost, longest occurrence',
  'For every valid regular expression and every text, scanning reports the leftmost position at which a non-empty match starts, and the longest match there; it reports nothing exactly when no position matches. Repeating the scan behind each hit, as the grep tool does, enumerates all non-overlapping occurrences in order. In UTF-8 mode positions are character boundaries; in byte mode every byte is one character.',
  ['inputs', 'programs'], 'all expressions and all texts with matches anywhere, including none, adjacent, and at the very end, in both encodings',
  'no test scans text at all; the claim ranges over all expressions and texts',
  ['rex/rexregex.c', 'rex/rexdfaconv.c'], [('scan loop', 'rexregex.c: rex_regex_scan')], ['rex_regex_scan'],
  'property-based testing against a reference leftmost-longest matcher', 'Inputs up to about 100 characters.' + TRUST)

P('X03', 'A multi-expression automaton accepts exactly the right set of expressions',
  'When several expressions with distinct user data are compiled into one database, the deterministic automaton built from it reports, after every input prefix, exactly the set of expressions that match that whole prefix. The set is the same for the expressions added in any order, and whether the automaton is stepped from the in-memory tables, or from the tables without optional parts.',
  ['inputs', 'programs'], 'all lists of expressions (overlapping, identical, disjoint) and all strings',
  'unit tests never convert an automaton with more than one expression; the accepted set depends on all expressions together',
  ['rex/rexdb.c', 'rex/rexdfaconv.c', 'rex/rexcompiler.c'], [('accepting substates', 'rexdfaconv.c')], ['rex_dfa accepting substates'],
  'property-based testing: set of accepted expressions at every prefix against the reference matcher', TRUST.strip())

P('X04', 'Any pattern text is compiled or rejected cleanly',
  'For every byte string used as a pattern the regex compiler either returns a usable automaton or reports an error, without crash, hang, leak or out-of-bounds access, and what was rejected leaves the object reusable. Patterns with unbalanced brackets or parentheses, empty alternatives, or a quantifier with nothing to repeat are rejected; the set of ignored blank characters applies to the pattern text only, and only to the characters configured.',
  ['inputs', 'histories'], 'arbitrary and mutated pattern bytes, sequences of good and bad patterns on one object, configured blank sets',
  'tests compile a handful of valid patterns; error paths are unreached',
  ['rex/rexcompiler.c', 'rex/rexdb.c', 'rex/rexregex.c'], [('token scanner and recursive descent', 'rexcompiler.c'), ('blank set', 'rexdb.c: rex_db_setblanks')], ['rex_regex_create', 'rex_regex_startcompile', 'rex_db_addexpression'],
  'property-based testing and grammar mutation with memory sanitizer and live-memory accounting', TRUST.strip())

P('X05', 'The table generator emits tables equivalent to the grammar',
  'For every token grammar file, the table compiler tool either rejects it with a diagnostic and a non-zero exit code or emits C tables which, compiled and stepped with the shipped header, recognise exactly the token sets that the grammar\'s rules describe, for every input. Text before the first and after the last section mark is copied to the output, blank and indented lines are no rules, and rule identifiers (numbers, macros, character constants) become the token values.',
  ['inputs', 'programs'], 'all grammar files (rules, comments, escapes, invalid rules) times all strings',
  'no test runs the tool; a wrong table shows only on specific inputs',
  ['rexcc/rexcc.c', 'rexcc/rexccmain.c', 'rex/rexdfatypes.h', 'rex/rexdfaconv.c'], [('table output', 'rexcc.c')], ['generated C tables', 'exit code'],
  'property-based testing: generated grammars compiled end to end (rexcc, C compiler, dlopen) and compared with the reference matcher', TRUST.strip())

P('X06', 'The regex grep tool prints exactly the matching lines or matches',
  'For every expression and every set of files, directories or a string argument, the grep tool prints exactly the lines that contain a match (line mode), or exactly the non-overlapping leftmost-longest matches in order (match mode), with the file names and offsets the options ask for. A final line without newline, empty lines, NUL and non-UTF-8 bytes, and nested directories are handled alike. An automaton saved by the tool and read back gives the same output as its expressions; a saved file that is incomplete is refused; the dump of an automaton shows its states and transitions as they are.',
  ['inputs', 'configurations'], 'all expressions, file trees and option combinations',
  'no test runs the tool', ['rexgrep/rexgrep.c', 'rexgrep/rexgrep-main.c', 'rexgrep/unix/fsenum.c'], [('line splitting and scan', 'rexgrep.c')], ['stdout of rexgrep'],
  'property-based testing of the command-line tool against a reference implementation of its output', 'Hidden directories and the exit code are not judged.' + TRUST)

P('X07', 'Any automaton, however it was built, keeps its behaviour when made deterministic',
  'For every automaton put together state by state through the database interface (any states, any start, empty transitions, overlapping character ranges over the whole 32-bit range, cycles of any shape) stepping it, converting it and stepping the deterministic automaton, and stepping its tables report after every input the same set of accepting states, those reachable by that input. Every state of the deterministic automaton has exactly one transition for every character; the start table used to skip hopeless positions never rules out the beginning of a match. A list of transitions stays in order, is merged without changing where a character leads, and its complement leads exactly the other characters; what is added, inserted or copied is what is found.',
  ['inputs', 'configurations'], 'all automata and inputs',
  'no test builds an automaton by hand; those that come from expressions have a special shape', ['rex/rexdb.c', 'rex/rexdfaconv.c', 'rex/rextransition.c', 'rex/rexstate.c', 'rex/rexdfa.c', 'rex/rexnfasimulator.c', 'rex/rexdfasimulator.c'],
  [('subset construction', 'rexdfaconv.c'), ('transition lists', 'rextransition.c')], ['rex_db_createdfa', 'rex_db_todfa', 'simulator accepts', 'rex_dfa_next'],
  'model-based property testing of hand-built automata against a simulation of sets of states', 'An empty input is never accepted: the start state does not report it.' + TRUST)

P('L01', 'Character encoding and case mapping are exact for every code point',
  'For every Unicode code point, encoding to UTF-8 or UTF-16LE yields the standard byte sequence, or nothing when the buffer is too small or the code point has no encoding, and decoding yields the code point and its length back. Decoding any byte string, however malformed or truncated, never reads past its end and always advances: a sequence that is not structurally complete counts as one single-byte character. The case partner of a character is symmetric, and exact for ASCII.',
  ['inputs'], 'all code points times buffer sizes, and all byte strings',
  'the tests never call the codecs; the claim covers 1.1 million code points and arbitrary byte strings',
  ['rlib/rutf.c', 'rlib/rcharconv.c'], [('codecs', 'rutf.c'), ('case mapping', 'rcharconv.c')], ['encoder and decoder results'],
  'property-based testing: near-exhaustive code point blocks and random byte streams against an arithmetic reference codec', TRUST.strip())
P('L02', 'Arrays, chunked arrays, stacks and lists behave as sequences',
  'Over every history of operations an array, a chunked array and a linked list hold exactly the sequence that the operations (append, insert, replace, delete, move, resize, stack push and pop, sort, splice, copy) describe, in order and in both directions. Growing never loses or corrupts elements, elements gained without being set are zero, copies are independent, elements of a chunked array never change address, and all memory is returned.',
  ['histories', 'configurations'], 'all operation histories and element sizes, including growth across allocation boundaries and indices past the end',
  'unit tests run one fixed sequence per function; interactions such as growth during an insertion or a copy after a shrink are not sampled',
  ['rlib/rarray.c', 'rlib/rcarray.c', 'rlib/rlist.c'], [('growth', 'rarray.c: r_array_check_resize, rcarray.c: r_carray_checkexpand'), ('element moves', 'rarray.c')], ['array and list contents'],
  'model-based property testing against std::vector and std::list', 'Content of elements exposed only by growing the length is not judged.' + TRUST)
P('L03', 'Hashes, maps and named arrays behave as ordered multi-dictionaries',
  'Over every history of insertions, replacements, deletions, copies and clears, looking up a key yields the oldest entry with exactly that key (from the tail: the newest), enumeration yields all its entries in order of insertion, and absent keys yield the documented not-found value, whatever the hash function and number of buckets. Map entries keep a stable index until deleted, walk in insertion order in both directions, and a reused slot never shows an earlier entry\'s key or value.',
  ['histories', 'configurations'], 'all operation histories, key sets with duplicates, collisions, shared prefixes and (for sized keys) embedded NUL, all key kinds',
  'unit tests insert a few fixed keys; collisions, duplicates across deletes and slot reuse depend on the history',
  ['rlib/rhash.c', 'rlib/rmap.c', 'rlib/rharray.c'], [('bucket lists', 'rhash.c'), ('slot reuse', 'rmap.c: r_map_getfreenode'), ('names and members in step', 'rharray.c')], ['lookups, enumeration and walks'],
  'model-based property testing against an ordered multimap', 'Map keys contain no NUL; floating-point keys differ in their first 15 decimals.' + TRUST)
P('L04', 'String objects hold exactly the text they were given',
  'Creating a string from text, sized text, an integer or a double, copying, concatenating and appending yield exactly the expected text and length, terminated, for every content and length; a number converted to text reads back as the same number to the printed precision. Comparing, searching, trimming, duplicating and formatting text by the text functions give what the definition of each says. Sized sources are never read past their size, sources are unchanged, and all memory is returned.',
  ['inputs', 'histories'], 'all texts (with embedded NUL ending them), integers, doubles and operation histories',
  'unit tests use a few short literals; length and terminator errors appear only for particular sizes and histories',
  ['rlib/rstring.c', 'rlib/rbuffer.c'], [('string growth', 'rstring.c: r_string_cat_len')], ['string content and size'],
  'model-based property testing against std::string with exactly sized sources', TRUST.strip())
P('L05', 'Objects are destroyed exactly once, by their last owner',
  'Over every history of creation, hand-over to a garbage collector, explicit destruction, collection and reference counting, each object is destroyed exactly once: when its collector collects or dies, when it is destroyed explicitly (which takes it off its collector), or when its reference count drops to zero. Counts and types reported for references are exact, and all memory is returned.',
  ['histories'], 'all histories over several collectors, references and object types',
  'unit tests create and destroy single objects; ownership errors need particular orders of operations',
  ['rlib/robject.c', 'rlib/rgc.c', 'rlib/rref.c'], [('unlink on cleanup', 'robject.c: r_object_cleanup'), ('reference count', 'rref.c')], ['destruction callbacks, collector contents, live memory'],
  'model-based property testing with destruction probes and live-memory accounting', TRUST.strip())
P('L06', 'Locks, atomics and references are correct under every thread schedule',
  'Under every interleaving of threads, code between acquiring and releasing a spin lock excludes all other holders and sees their writes, atomic operations lose no update and return the true previous value, and a shared reference-counted object is destroyed exactly once, by the last release. Threads that use separate objects, or match with one shared compiled regular expression, do not interfere.',
  ['schedules', 'programs'], 'all thread programs over locks, atomics, references and private or shared read-only objects, and all schedules',
  'no baseline test starts a second thread',
  ['rlib/rspinlock.c', 'rlib/ratomic.c', 'rlib/rref.c', 'arch/unix/rtypes.h', 'rlib/rmem.c'], [('compare and swap', 'ratomic.c, rtypes.h'), ('lock', 'rspinlock.c')], ['final counters, returned values, ThreadSanitizer reports'],
  'randomised concurrent programs under ThreadSanitizer against sequential expectations', 'Schedules are those the OS produces; happens-before race detection generalises over them.')

P('L07', 'Memory blocks and buffers keep their bytes and every byte is accounted for',
  'Over every history of allocations, zeroed allocations, reallocations and releases, every live block holds exactly the bytes written to it, whatever is done with other blocks; zeroed blocks are zero; growing or shrinking a block keeps the bytes both sizes have; the memory reported in use rises by what a block takes, falls by the same amount when it is released, also when threads do so at once, and is back where it was when everything is released; the highest use reported is the highest that occurred since it was last reset. A buffer holds its initial size in zero bytes followed by everything appended to it, ended by a zero.',
  ['histories'], 'all sequences of allocations, reallocations, releases, copies, and buffer appends, of all sizes',
  'the tests only look at the memory in use at their end; no test uses a buffer',
  ['rlib/rmem.c', 'rlib/rbuffer.c', 'rlib/rspinlock.c'], [('accounting', 'rmem.c: r_dbg_malloc, r_dbg_realloc, r_dbg_free'), ('buffers', 'rbuffer.c: r_buffer_append')], ['r_debug_get_allocmem', 'r_debug_get_maxmem', 'block contents'],
  'model-based testing of allocation histories against byte-exact shadow blocks and an accounting model', 'Memory is compiled with accounting, as in the debug build. Allocation failure is not simulated; the concurrent part runs in L06.')

RPAF = ['rpa/rpadbex.c', 'rpa/rpacompiler.c', 'rpa/rpavm.c', 'rpa/rpastat.c']
P('P01', 'A grammar rule matches exactly the prefix its text describes',
  'For every grammar and every input, matching a rule at a position reports the length of the prefix that direct reading of the grammar gives: branches tried in order, sequences, groups, quantifiers, classes and ranges, `^` and `-` exclusions, references to other rules, and recursion at any depth behind a consumed character. A rule that cannot match, or could match only the empty text, reports no match. Every spelling of the same grammar (quoting, escapes, spacing, comments, separators) means the same.',
  ['inputs', 'programs'], 'all grammars without left recursion in all spellings, times all inputs and start positions',
  'the tests run some forty fixed grammars; grammar operators interact (recursion after a group, optional prefixes, exclusions), and only arbitrary combinations show it',
  RPAF + ['rpa/rpaparser.c', 'rpa/rpaoptimization.c', 'rpa/rpabitmap.c', 'rpa/rpacache.c'],
  [('grammar text to records', 'rpaparser.c'), ('records to code', 'rpadbex.c: rpa_dbex_rh_*'), ('matching instructions', 'rpavm.c, rpastat.c')],
  ['rpa_stat_match'],
  'property-based testing: generated grammar ASTs and inputs derived from them against a reference evaluator', 'Inputs whose evaluation without remembered results would exceed 200,000 steps are left out.' + TRUST)

P('P02', 'Left recursion, direct and indirect, parses left-associatively',
  'A rule that reaches itself before consuming anything, directly or through other rules, matches by repeatedly extending the longest result so far: the first result comes from the branches that do not recur, each next one from a branch that begins with the previous result, until no branch extends it. The reported length is the last result and the parse tree nests the results from left to right, for any number of recursive branches, rules in the cycle, layers of such cycles, brackets back to any layer, groups and exclusions around the recursion, and order of definition. The parse always ends, also when a recursive branch adds nothing.',
  ['inputs', 'programs'], 'all layered left-recursive grammars whose cycles pass through the matched rule, times all inputs',
  'the tests hold a few direct and two-rule recursions on a few inputs; branch order, failed branches and nested layers only break in combination',
  RPAF + ['rpa/rpabitmap.c', 'rpa/rparecord.c'],
  [('cycle detection and inlining', 'rpadbex.c: rpa_parseinfo_loopdetect'), ('growth loop', 'rpacompiler.c: rpa_compiler_loop_begin/end'), ('tree normalisation', 'rpastat.c: rpa_stat_normalizeleftrecursion')],
  ['rpa_stat_match', 'rpa_stat_parse'],
  'property-based testing: generated left-recursive grammars and inputs against a seed-growing reference, lengths and record sequences compared', 'Left references come first in their branch; cycles that avoid the matched rule are a recorded finding.' + TRUST)

P('P03', 'Parse records are the derivation tree of the match',
  'A successful parse appends to the record array exactly the tree of rules used in the final derivation: for every emitted rule a start and an end record, properly nested and in input order, with the rule\'s name and identity and the offset and size of the text it matched; nothing of abandoned attempts remains, and records already in the array are untouched. From any record the navigation steps (counterpart, parent, first and last child, next and previous sibling, subtree size, copy, move and walk) give what the nesting implies; a user type given to either record of a pair is the user type of the pair and of no other.',
  ['inputs', 'programs'], 'all grammars and inputs, start positions and arrays that already hold records; every record and navigation step of every tree',
  'the tests check match lengths; nearly no tree is inspected',
  RPAF + ['rpa/rparecord.c', 'rpa/rpacache.c'],
  [('emit instructions', 'rpavm.c'), ('records restored from the cache', 'rpacache.c'), ('tree navigation', 'rparecord.c')],
  ['rpa_stat_parse', 'rpa_recordtree_*'],
  'property-based testing: records and navigation against the derivation of a reference evaluator', 'Records after a failed parse are not judged.' + TRUST)


P('P05', 'Optimisation settings never change what a grammar means',
  'For every grammar, input and start position, matching, parsing and scanning give the same results, records, tree and error whichever of the speed settings are used: code optimisation on or off, first-character bitmaps on or off, and the memory of earlier results on or off, in every combination. The same holds when a grammar is loaded in one piece or in several, and when the same state object has been used before for other inputs.',
  ['inputs', 'configurations'], 'all grammars (with recursion, directives and exclusions) times inputs times all combinations of settings',
  'the tests run with default settings only',
  RPAF + ['rpa/rpabitmap.c', 'rpa/rpacache.c', 'rpa/rpaoptimization.c'],
  [('first-character sets', 'rpabitmap.c, rpadbex.c: rpa_dbex_buildbitmapinfo'), ('memory of results', 'rpacache.c, rpavm.c'), ('merged branches', 'rpaoptimization.c')],
  ['rpa_stat_match', 'rpa_stat_parse', 'rpa_stat_scan', 'rpa_dbex_cfgset'],
  'metamorphic property testing: every generated grammar and input run under all setting combinations and compared', 'What an aborting rule does inside an exclusion is not judged.' + TRUST)

P('P06', 'Encodings and case folding only change how characters are read',
  'The same text in bytes, UTF-8 or UTF-16LE gives the same match measured in characters, with sizes and offsets in bytes of the encoding, and a scan tests exactly the character boundaries. With case folding on, a character of the grammar matches itself and its case partner, in single characters, strings, ranges and exclusions, and nothing else changes. Malformed or truncated text in any encoding is read one unit at a time and never beyond its end.',
  ['inputs', 'configurations'], 'all grammars over ASCII, Latin, Greek, Cyrillic and supplementary characters, times well-formed and malformed texts in six encodings',
  'the tests use one byte encoding and a few UTF-8 literals; nothing runs UTF-16 or folding over generated text',
  RPAF + ['rlib/rutf.c', 'rlib/rcharconv.c'],
  [('decoding wrappers', 'rpastat.c, rpadbex.c: rpa_stat_utf8_wrapper'), ('case partner', 'rcharconv.c')],
  ['rpa_stat_match', 'rpa_stat_scan', 'rpa_stat_parse'],
  'property-based testing: decoded text through a virtual reference evaluator, compared in byte offsets', 'The special escapes of the pattern language are not folded and not judged under folding.' + TRUST)

P('P04', 'Scanning finds the leftmost match, and matching depends on the text alone',
  'Scanning a text reports the first position at which the rule matches, and there the same length that matching at that position reports; it reports nothing exactly when the rule matches nowhere, and repeating it behind each hit enumerates all non-overlapping matches in order. Matching and parsing at a position give the same length, whatever lies before the position, wherever the caller says the text begins, and whatever follows the end the caller gives. An attempt that an abort directive ends counts as no match there and the scan goes on with the next character.',
  ['inputs', 'programs'], 'all grammars (plain, left-recursive, with aborting rules) and texts with any number of occurrences, all start positions and ends',
  'the tests scan nothing but a few literals',
  RPAF, [('scan loop', 'rpastat.c: rpa_stat_scan'), ('input window', 'rpastat.c: rpa_stat_init, rpa_stat_shift')],
  ['rpa_stat_scan', 'rpa_stat_match', 'rpa_stat_parse'],
  'property-based testing: reference evaluator at every position, repeated scan, moved ends', TRUST.strip())

P('P07', 'Directives select what is emitted, and abort where they say',
  'Directives decide, for the rules defined below them, which rules appear in the records (all, none, one more, one less) and with which user id, and nothing else: the match and the order, nesting and extent of the remaining records are as without them. A rule marked to abort ends the whole attempt with an error as soon as it is tried and fails, and the error names that rule, its user id and the position where it was tried. An expression without a name matches like the body of a rule, and adds no record of its own.',
  ['inputs', 'programs'], 'all grammars with any directives at any place, times all inputs',
  'few tests use a directive and none checks its effect on the records or the error',
  RPAF + ['rpa/rpaparser.c', 'rpa/rpabitmap.c'],
  [('directive handlers', 'rpadbex.c: rpa_dbex_rh_emit, _noemit, _uid, _abort'), ('abort', 'rpavm.c: rpavm_swi_abort')],
  ['rpa_stat_parse', 'rpa_stat_lasterrorinfo'],
  'property-based testing: the reference derivation filtered by the directives, and the first aborting failure of the reference', 'Abort marks on rules tried inside an exclusion are not judged.' + TRUST)

P('P08', 'Grammar text of any kind is loaded or refused with the right diagnosis',
  'Loading any text either accepts all of it or refuses it with a syntax error whose offset lies behind the last good rule and before the offending text, with the matching line; compiling either succeeds or says which symbol is undefined; a database stays usable afterwards, and supplying the missing rule makes it equal to one loaded at once. Calls out of order (not open, not closed, not compiled, unknown rule) fail with the documented code, and names, texts, order and lookup of the loaded rules are those that were loaded. No text, rule or call sequence corrupts or leaks memory, reads outside the buffers, or leads a compiled rule out of its code.',
  ['inputs', 'histories'], 'all byte strings as grammars, all sequences of database calls, all short inputs to the resulting rules',
  'no test loads a wrong grammar or calls anything out of order',
  RPAF + ['rpa/rpaparser.c', 'rpa/rparecord.c', 'rlib/rharray.c'],
  [('load and errors', 'rpadbex.c: rpa_dbex_load, rpa_dbex_compile'), ('rule access', 'rpadbex.c: rpa_dbex_lookup, rpa_dbex_name, rpa_dbex_executableoffset')],
  ['rpa_dbex_load', 'rpa_dbex_compile', 'rpa_dbex_lasterrorinfo', 'rpa_dbex_dump*'],
  'fuzzing with mutated grammars, token soup and bytes under AddressSanitizer; model-based call sequences; differential completion of incomplete grammars', 'Texts nested deeper than the grammar parser can handle in its stack are refused with an execution error.' + TRUST)

P('P09', 'What a parsing state did before does not change what it does next',
  'For every history of calls on one parsing state, each call reports the result, place, records and error that a fresh state reports for the same call. This holds after wrong ranges, unknown rules, exhausted stacks and calls aborted at any point, by the reader of the input or by another thread, when rules are added to the database and compiled in between, and when several states share a database. Records kept from an earlier call stay as they were while others are added, and nothing is leaked or read outside the input.',
  ['histories', 'fault_sequences'], 'all call histories over states of one database, with any abort point and any stack size',
  'the tests use every state for one grammar and one kind of call; leftovers in input stack, cache, records and abort flag show only in sequences',
  RPAF + ['rpa/rpacache.c', 'rvm/rvmcpu.c'],
  [('state reset', 'rpastat.c: rpa_stat_init'), ('cache validity', 'rpacache.c'), ('abort', 'rpastat.c: rpa_stat_abort; rvmcpu.c: rvm_cpu_abort')],
  ['rpa_stat_match', 'rpa_stat_parse', 'rpa_stat_scan', 'rpa_stat_lasterrorinfo'],
  'stateful property-based testing: histories on long-lived states against fresh states, with abort injected at a chosen read of the input (page trap)', 'The trap decides where an abort happens; aborts from another thread happen wherever the schedule puts them and are only judged for their outcome.' + TRUST)

P('P10', 'Threads with a state each may share one compiled grammar',
  'When several threads match, parse and scan at the same time, each with its own state on the same compiled database, every call gives what it gives when running alone, and no two threads race on any memory. This includes creating and destroying the states inside the threads.',
  ['schedules', 'inputs'], 'all grammars, all calls of all threads, all interleavings',
  'no test starts a second thread', RPAF + ['rpa/rpacache.c', 'rvm/rvmcpu.c'],
  [('shared database', 'rpadbex.c: rpa_dbex_executable'), ('per-thread state', 'rpastat.h')],
  ['rpa_stat_create', 'rpa_stat_match', 'rpa_stat_parse', 'rpa_stat_scan'],
  'randomised concurrent programs under ThreadSanitizer against sequential results', 'Schedules are those the OS produces; happens-before race detection generalises over them.')

P('P11', 'rpagrep prints exactly what the given grammar matches',
  'For every grammar, given in pieces or from files, and every input from files, directories, standard input or the command line, rpagrep prints exactly the matches, lines, parse trees or records the selected mode describes, in the selected encoding, and exits with 0 when something matched and 1 when nothing did. A wrong grammar is refused with the offending line. A rule that aborts the parse is reported with its place. Options that only ask for information or change the way of execution do not change this.',
  ['inputs'], 'all grammars, inputs, modes, encodings and ways to pass them',
  'no test runs rpagrep', ['rpagrep/rpagrep.c', 'rpagrep/unix/rpagrep-main.c', 'rpagrep/rpagreputf.c', 'rpa/rparecord.c', 'rlib/rutf.c'],
  [('scanning loops', 'rpagrep.c: rpa_grep_scan, rpa_grep_scan_lines, rpa_grep_match, rpa_grep_parse'), ('options', 'unix/rpagrep-main.c: main')],
  ['rpagrep standard output and exit status'],
  'differential fuzzing of the program against a reference evaluator of grammars and of the output format', 'Bytes that rpagrep masks in its output (control characters, 0x7f to 0xff) are compared as masked; memory held when the program exits is not judged.' + TRUST)

P('P12', 'The shipped ECMAScript grammar accepts programs and records their operations',
  'For every program in the covered part of ECMAScript, parsing with rpagrep/ecma262.rpa accepts the whole text and records every operation, literal, operator and declaration once, in order of evaluation with the precedence and left associativity of the language, each covering its text. Whatever the text, the records are the same with and without optimizations, bitmaps and the cache.',
  ['inputs'], 'all programs of the covered part, all mutations of them, all compiler configurations',
  'no test loads the shipped grammar', ['rpagrep/ecma262.rpa'] + RPAF + ['rpa/rpaoptimization.c', 'rpa/rpabitmap.c', 'rpa/rpacache.c'],
  [('grammar', 'rpagrep/ecma262.rpa'), ('records', 'rpavm.c: rpavm_swi_emitstart, rpavm_swi_emitend')],
  ['rpa_stat_parse records'],
  'grammar-based program generation with an expected operation list as oracle; differential comparison of configurations on broken programs', 'White space after a closing bracket may or may not belong to the span that ends with the bracket.' + TRUST)

JF = ['rexjson/rexjson.c', 'rexjson/rexjson.h', 'rexjson/rexjsondfa.rexcc']
JPP = ['rexjson/rexjson++.cpp', 'rexjson/rexjson++.h', 'rexjson/rexjsondfa.rexcc']
P('J01', 'The JSON record parser accepts exactly JSON and records its exact structure',
  'For every byte string, the C parser accepts exactly those whose first value is well-formed JSON within the nesting limit, and returns the size of that value; the records it fills describe every value once, with type, position, length and member name, properly nested, and parent, child and sibling navigation follow that nesting. A refused text is reported as unexpected at the exact offset of the offending token, as nested too deeply, or as not fitting the records given, and no record outside the room given is touched.',
  ['inputs'], 'all byte strings, all amounts of record room (also holding records of earlier use) and all nesting limits',
  'no test covers the JSON code at all', JF, [('token automaton', 'rexjsondfa.rexcc through rexcc'), ('recursive descent', 'rexjson.c')],
  ['rexjson_parse_buffer', 'rexjson_recordtree_firstchild', 'rexjson_recordtree_next'],
  'differential fuzzing against an independent strict JSON parser with positions: printed values, mutations, token soup', 'Text behind the first value is not judged.' + TRUST)
P('J02', 'The JSON reader builds exactly the value of the text or reports the error place',
  'For every byte string, reading it gives exactly the value a strict JSON parser gives (strings with all escapes decoded to UTF-8, integers and reals apart, the last of equal names), or fails with an error naming line, column and offset of the offending token; the nesting limit is enforced. Whatever the object held before plays no part, and after a failure it can be used again.',
  ['inputs'], 'all byte strings and nesting limits through every reading function',
  'no test covers the JSON code at all', JPP, [('tokens', 'rexjson++.cpp: input::get_token'), ('strings', 'rexjson++.cpp: unescape_str')],
  ['rexjson::value::read', 'rexjson::read', 'rexjson::read_no_throw'],
  'differential fuzzing against an independent strict JSON parser: printed values, mutations, token soup', 'Integers beyond 64 bits and halves of surrogate pairs are not judged.' + TRUST)
P('J03', 'Whatever is written as JSON reads back as the same value',
  'For every value, built or read, the text written in any layout is well-formed JSON that reads back as the same value: the same strings and names byte for byte, integers exactly, reals to the requested number of decimals, numbers that are not finite as null, and null members left out exactly when asked. Layouts differ in spacing only, indentation follows depth, and writing does not change the value.',
  ['inputs'], 'all values, layouts, indentations and precisions', 'no test covers the JSON code at all', JPP, [('writer', 'rexjson++.cpp: output::write_stream, escape_str')],
  ['rexjson::value::write', 'rexjson::output', 'rexjson::write_formatted'],
  'property-based round-trip: generated values against an independent parser and the library\'s own', 'Strings handed to the setters are in JSON notation.' + TRUST)
P('J04', 'JSON values behave as values under any sequence of operations',
  'Values copied, assigned, moved, extended and indexed in any sequence, also from a value to its own child or parent, hold what a simple value model says: copies are independent, sources stay unchanged, and the other values are not affected. Every accessor gives the stored value for its type and refuses every other type; integers of every width are kept exactly; access outside an array is refused.',
  ['histories'], 'all operation sequences over a set of values', 'no test covers the JSON code at all', JPP[:2], [('copying and assignment', 'rexjson++.cpp: value::operator=, value::move')],
  ['rexjson::value'], 'model-based property testing under AddressSanitizer', TRUST.strip())
P('J05', 'The RPC server answers every request with exactly one well-formed answer',
  'For every set of methods and every request (value, text or name and parameters) the answer has exactly a result, an error and the id of the request: the result of the named method called once with the given parameters, or an error with the code for malformed requests, unknown methods, unfit parameters or a failing method and its message, the other being null. Specifications and help of a method match its argument types, and type specifications survive their round trip.',
  ['inputs', 'histories'], 'all registration sequences, all requests well-formed or not, all execution modes', 'no test covers the RPC code at all',
  ['rexjsonrpc/rpcserver.h'] + JPP, [('dispatch', 'rpcserver.h: rpc_server::call'), ('typed wrappers', 'rpcserver.h: rpc_wrapper')],
  ['rexjson::rpc_server'], 'model-based property testing of registration and request sequences', 'The id in answers to requests with malformed parameters is not judged.' + TRUST)
P('J06', 'A property tree reads and writes exactly the variables bound to it',
  'For every tree of bound variables, a path leads to exactly the property it names and a malformed path to an error; reading gives the current value and writing changes exactly that variable, subject to the access rights and the check hook, with the change reported once; a refused write changes nothing and is not reported. Subtrees can be copied, assigned anywhere (also inside themselves) and appended, keep referring to the same variables, and enumeration lists every leaf once under its path.',
  ['inputs', 'histories'], 'all trees, paths, values and operation sequences', 'no test covers the property code at all',
  ['rexjsonrpc/property.h', 'rexjsonrpc/property.cpp'], [('leaves and ranges', 'property.h: property_object, property_range'), ('navigation', 'property.h: property_map, property_array')],
  ['rexjson::property'], 'model-based property testing under AddressSanitizer', 'Numbers that do not fit the variable are not judged.' + TRUST)
P('V01', 'The virtual machine executes every instruction exactly as specified',
  'For every program over the instruction set, from every start of registers, flags, stack and memory, running or stepping the machine leaves the registers, the flags that an instruction defines, the stack and the memory that the description of the instructions prescribes, and makes exactly the described calls out of the machine, in order, with the right operands. Division by zero, stack over- and underflow, memory or calls out of reach, and operations that do not exist end the run with the documented error instead of touching memory outside. Calls are found by the name and table they were registered under. Every way to write an instruction down yields the operation, operands and data it was given.',
  ['programs'], 'all instruction sequences and operand values',
  'the tests run a few fixed programs per instruction with one operand set each',
  ['rvm/rvmcpu.c', 'rvm/rvmcpu.h', 'rvm/rvmreg.h'], [('instruction handlers', 'rvmcpu.c: rvm_op_*'), ('run loop', 'rvmcpu.c: rvm_cpu_exec, rvm_cpu_resume'), ('calls', 'rvmcpu.c: rvm_cpu_addswitable, rvm_cpu_swilookup')],
  ['rvm_cpu_exec', 'rvm_cpu_exec_debug', 'RVM_CPUREG_GETU', 'rvm_cpu_geterror'],
  'property-based testing: generated programs against an independent reference interpreter, under AddressSanitizer',
  'The overflow flag after a subtraction follows the rule pinned by the existing tests; shift counts of 64 and more are not judged.' + TRUST)
P('V02', 'Generated code resolves every label, datum and reference exactly',
  'For every sequence of code generation calls, every reference to a label (by number or by name, before or after its definition, in code, data or memory of the caller, or relative to another label, as a jump, a pointer, a string or a stored value) holds after relocation the place that label has, wherever the code was emitted and however often relocation is repeated; an undefined label is reported by name. Functions emitted in any order, calling each other before or after their definition, with arguments, local variables, recursion and static data, run to the result that direct evaluation gives.',
  ['programs', 'histories'], 'all sequences of emitting calls; all programs of a small language with functions',
  'the tests emit a few fixed programs with one or two labels', ['rvm/rvmcodegen.c', 'rvm/rvmcodemap.c', 'rvm/rvmrelocmap.c', 'rvm/rvmcpu.c'],
  [('labels', 'rvmcodemap.c'), ('relocation', 'rvmrelocmap.c'), ('functions', 'rvmcodegen.c: rvm_codegen_funcstart, rvm_codegen_vargs_funcstart')],
  ['rvm_codegen_relocate', 'rvm_codegen_getcode', 'rvm_cpu_exec'],
  'model-based property testing of call sequences; differential evaluation of generated programs', TRUST.strip())
P('V03', 'Scopes and registers of the virtual machine keep what they were given',
  'Over every sequence of opening and closing scopes and adding variables, a lookup finds the innermost variable of that name (or only that of the current scope when asked), a name added again in a scope takes the new value, and closing a scope restores what was visible before. A typed register holds exactly the type, value and flags it was given, for every type and extreme value; text converts to the number it shows; globals keep their values while others are added and removed. Before objects are collected, the references to them held by containers of registers are taken out, whatever the shape of the references, circular ones too, and nothing else in the containers changes.',
  ['histories', 'inputs'], 'all scope histories; all register values', 'no test opens more than a couple of scopes, none reads registers back by type',
  ['rvm/rvmscope.c', 'rvm/rvmreg.c', 'rvm/rvmreg.h', 'rvm/rvmcpu.c'], [('scopes', 'rvmscope.c'), ('registers', 'rvmreg.c')],
  ['rvm_scope_lookup', 'rvm_scope_tiplookup', 'rvm_reg_gettype', 'rvm_reg_str2num', 'rvm_reg_array_unref_gcdata', 'rvm_cpu_global'],
  'model-based property testing of scope histories and register conversions', 'Numbers in texts are plain decimal ones.' + TRUST)
