CLAIMS={
'C01':{'technique':'symbolic execution of the transpiler (Go SSA) and of the emitted Bash script, compared with a reference semantics by z3','level':'model_checking',
 'note':'For each enumerated program skeleton every int64/bool value of its holes and every path of transpiler and script is decided by the solver; skeletons are bounded (listed families, nesting <=5). Trusts the Bash model (each job replays a path on the real bash) and the reference semantics.'},
}
SEM='symbolic execution of the transpiler (Go SSA) and of the emitted Bash script, compared with a reference semantics by z3'
CLAIMS.update({
'C02':{'technique':SEM,'note':'As C01, for the function skeletons (arity 0..30, all reuses of two names over two functions and the top level, globals in every assignment form, return lists up to 20, call nesting up to 6, random compositions). Bounded by the enumerated skeletons.'},
'C03':{'technique':SEM,'note':'As C01, for slice and string skeletons: symbolic indices, symbolic element values, symbolic strings up to 4 bytes, slices up to 42 elements. Bounded by the enumerated skeletons.'},
'C04':{'technique':SEM,'note':'As C01, for traced calls at every operand position of every statement kind (about 60 traced expressions times statement templates, random compositions). Bounded by the enumerated skeletons.'},
})
CLAIMS['C11']={'technique':'symbolic execution of lexer.Tokenize (Go SSA, standard-library regexp modelled) over source templates with symbolic bytes, token list compared with a symbolic reference scanner by z3','level':'model_checking',
 'note':'Every value of the symbolic bytes (up to 5 per template, up to all 256 values each) is decided; templates are enumerated (token contexts, pairs, keywords, literals, comments). Trusts the reference scanner and the regexp model (sampled natively). Left open: fractions like 1.5, unterminated block comments.'}
CLAIMS['C12']={'technique':'symbolic execution of the whole transpiler (Go SSA) on re-laid-out sources with symbolic blanks, line breaks and comment bytes; script and acceptance compared with the original layout by z3','level':'model_checking',
 'note':'For every listed program and layout template all values of the symbolic layout bytes are decided. Bounded: corpus of programs using every statement form plus rejected programs (thorough: also a ninth of the C01-C04 skeletons), one symbolic gap or break at a time plus whole-file layouts. Admission of a layout relies on the reference tokeniser.'}
CLAIMS['C13']={'technique':'symbolic execution of the whole transpiler (Go SSA, both converters) on sources with symbolic bytes: every path must return exactly one of script and error within a step budget; z3 confirms that the paths cover all byte values','level':'model_checking',
 'note':'Bounded: templates with up to 8 symbolic bytes (single bytes over all 256 values) in every position of a corpus, nesting to 300, import graphs over 4 files, 40 million interpreted instructions per transpilation (a path that exceeds this is replayed natively under a time limit). Long inputs and unbounded nesting lie outside the bounds.'}
CLAIMS['C06']={'technique':'symbolic execution of the whole transpiler (Go SSA, both converters) on programs whose operands, operators, callees and targets are symbolic bytes; acceptance compared with a reference type checker on every value, coverage of the byte space confirmed by z3','level':'model_checking',
 'note':'About 150 statement positions x contexts, every pair of types x operators, return lists x placements, argument lists, one corrupted operand in corpus programs. The reference type checker states the rules; forms it leaves open (printing slices, ordering of strings, comparison of slices, non-string command arguments) are not asserted.'}
CLAIMS['C07']={'technique':'symbolic execution of the whole transpiler (Go SSA, both converters) on block structures whose statements and names are selected by symbolic bytes; acceptance compared with a reference scope checker on every value, coverage of the selector space confirmed by z3','level':'model_checking',
 'note':'About 30 block structures, every pair of slots (and sampled triples) with up to 60 statement alternatives each, symbolic names, 17 imported modules, all placements of break/continue/return/func, every combination of block ends in value-returning functions. Left open: bare return, a variable and a function of the same name, final statements other than return that always return.'}
CLAIMS['C14']={'technique':'symbolic execution of the whole transpiler (Go SSA, both converters) as sequences of transpilations with symbolic map-iteration orders, environment, process id, path names and call order; emitted text compared by z3-decided path equality','level':'model_checking',
 'note':'Every order of each map iteration (up to 4 entries, swaps beyond), environment values and reads of clock/pid/random left open, two locations of the source tree with symbolic directory bytes, sequences of up to 4 transpilations on one or several objects, over a corpus of programs using every statement form. Real fresh processes are sampled for validation.'}
CLAIMS['C19']={'technique':'symbolic execution of the whole command (main of tsh.go, Go SSA) with symbolic option order, option spelling, file-name bytes and an in-memory file system with symbolic failures; exit status and file system compared with the library result by z3','level':'model_checking',
 'note':'All orders of up to 5 option pairs, names with up to 3 symbolic bytes, all single failures of the modelled os calls, accepted and rejected sources. The os package is modelled; sampled paths run the real binary.'}
CLAIMS['C08']={'technique':SEM,'note':'Every source of a string (literal, input, file, command output) x 27 uses x context (top level, function body, parameter), random chains of five stations; symbolic contents of up to 3 bytes over printable ASCII, tab and newline, up to 5 bytes over ten alphabets of metacharacters, and listed longer values. Trusts the Bash model (each job replays a path on the real bash).'}
CLAIMS['C17']={'technique':SEM+'; file systems of both compared','note':'Operation histories as enumerated (listed and random), at top level and in functions; symbolic contents up to 4 bytes and symbolic file names up to 3 bytes. The file system is modelled as a map from names to contents; one path per job is replayed in a real directory.'}
CLAIMS['C18']={'technique':SEM+', with modelled programs that report their arguments','note':'Argument lists up to 12, chains up to 5, captured and uncaptured, symbolic arguments up to 5 bytes, statuses 0..255 as listed. The called programs are fixed scripts, modelled and installed for replays. Left open: the exit status of a script whose last statement is an uncaptured command; programs named like a shell builtin.'}
CLAIMS['C15']={'technique':'symbolic execution of the transpiler (Go SSA) and of the emitted Bash script on programs that call the bundled library with symbolic strings; output compared by z3 with the Go functions','level':'model_checking',
 'note':'All 19 functions, every combination of argument lengths up to 5x3 (x2 replacement bytes, counts -2..5), symbolic bytes over ASCII; Bash target. The oracle is compared with Go\'s package strings on a model of every path. Longer strings lie outside the bounds; strings.Repeat with a negative count has no Go result.'}
CLAIMS['C09']={'technique':SEM+'; content digests of imported files symbolic','note':'Every import graph over 4 files, path spellings, bundled library, every use site of a function (54) x top level/function/chain/imported file, equal names, random modules (300), 97 templates of private, undefined and ill-typed cross-file names (symbolic choices, both targets). Where listed, the first 7 hex digits of the digests are symbolic (one file: all; several: digits 3 to 7 of one kind). Bounded by the enumerated skeletons; only the Bash script is executed.'}
CLAIMS['C10']={'technique':SEM+'; identifiers symbolic','note':'14 programs over all constructs: every identifier symbolic with 1 to 3 bytes over all letters, digits and the underscore (names resolved by the solver when the script looks them up), pairs with 2+1 bytes, and every identifier renamed to every name the script contains or creates (also without its prefixes) and to a quarter (thorough: all) of 320 reserved words. Bounded by these lengths and words; Bash target.'}
CLAIMS['C16']={'technique':'symbolic execution of the transpiler (Go SSA) on program templates whose statements and literal bytes are symbolic; the emitted symbolic scripts are parsed by a Bash and a cmd.exe grammar, forks decided by z3','level':'model_checking',
 'note':'About 3,500 templates: forests of up to 5 (and chains of up to 9 nested or 24 consecutive) constructs with marks that tell where each jump has to lead, empty blocks, every builtin in every place, literals with symbolic bytes in 47 places, templates of C06, C07 and C09 and the programs of all other checks with one symbolic literal byte. For each accepted path: Bash syntax and function definitions; Batch parentheses, labels, call targets, helper use and jumps. Outside: programs named like cmd keywords, control characters other than tab, CR and LF.'}
CLAIMS['C05']={'technique':'symbolic execution of the transpiler (Go SSA) and of the emitted Batch script in a symbolic model of cmd.exe, compared with a reference semantics by z3','level':'model_checking',
 'note':'All skeletons of C01-C04 plus about 540 of its own (every nesting and sequence of two constructs of nine kinds and of three of three kinds with random break/continue/return/panic, in main, functions and calling functions; two-digit indices and labels; symbolic strings of the neutral alphabet). 32-bit integers; INT_MIN as operand of set /A, integer literals beyond 32 bits, strings with one of "%^!&|<> and file, input and command builtins lie outside. No cmd.exe is available: the model follows the documented rules and was calibrated on the programs of the test suite; replays run the natively emitted script in it.'}
