import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
A='cubing_core/src/alg/'; K='cubing_core/src/kpuzzle/packed/'
p('C01','Parsing accepts exactly the alg notation and builds the meant structure',
 "Parsing a string as an alg, a move or a quantum move succeeds exactly when the string is in the documented notation (moves with optional layer or layer-range prefix, amount and prime; `++`/`--`, `1+`/`1-`, `/`; pauses, newlines, `//` comments; repeated groups, `(a, b)` tuples, commutators and conjugates; spaces between neighbours), and otherwise returns an error. On success the structure is the one the notation denotes: every family, layer number, amount and nesting is as written, with omitted amounts 1, primes negating, and numbers outside the integer range rejected rather than wrapped. `from_str`, `try_from` and `parse` agree.",
 ['inputs'],'all strings (well-formed, nearly well-formed and arbitrary) given to the Alg, Move and QuantumMove parsers',
 'The tests parse about sixty fixed strings; the grammar is recursive with many local interactions (prefix dash vs clock minus, crowding, slash vs comment, overflow), so only generated inputs against an independent grammar reach the combinations.',
 [A+'parse.rs',A+'special_notation.rs',A+'quantum_move.rs'],
 [('nom combinators for each node kind',A+'parse.rs'),('crowding check after the fact',A+'parse.rs: parse_alg'),('square-1 tuple alternative',A+'parse.rs: parse_grouping')],
 observe=['Alg/Move/QuantumMove FromStr and TryFrom<&str>; public fields of the result'])
p('C02','Printing an alg is canonical and parses back to the same alg',
 "For every alg obtained from text, by inversion, or built from moves and nodes that text can express, printing succeeds and gives the canonical notation (single spaces, amount 1 omitted, -1 as a prime, the special suffixes where they apply). Parsing the printed text gives an equal alg, except that a line comment gains the newline that ends it, and a once-repeated group holding only a commutator or conjugate is written and read back as that commutator or conjugate. Unless such a redundant group occurs, printing what was read back yields the same text; single moves and quantum moves round-trip exactly. Printing into a sink that refuses part of the text reports the failure, and what arrived is a beginning of the text.",
 ['inputs'],'all algs reachable by parsing, inverting and assembling nodes, including internal-looking family names such as `R_PLUS_`',
 'Tests print about thirty fixed algs; a round trip must hold for every combination of neighbours, nesting and amount.',
 [A+'alg.rs',A+'move.rs',A+'grouping.rs',A+'commutator.rs',A+'conjugate.rs',A+'amount.rs',A+'line_comment.rs',A+'quantum_move.rs'],
 [('Display impls',A+'*.rs'),('space_between',A+'alg.rs'),('fmt_amount',A+'amount.rs')],observe=['to_string() of Alg, AlgNode, Move, QuantumMove'])
p('C03','Inverting an alg gives its notational inverse and undoes itself',
 "The inverse of an alg lists its nodes in reverse order, each inverted: move and group amounts negated (`/` is its own inverse), commutators swapped, conjugates with only the inner part inverted, `(a, b)` tuples with both amounts negated in place, pauses, newlines and comments unchanged. Inverting twice returns an alg equal to the original (a tuple spelled out as a group repeated -1 times returns as an equivalent tuple). The original alg is left unchanged.",
 ['inputs'],'all algs with amounts a text can express',
 'Tests invert six fixed algs; the law quantifies over all nested combinations.',
 [A+'alg.rs',A+'alg_node.rs',A+'move.rs',A+'grouping.rs',A+'commutator.rs',A+'conjugate.rs'],
 [('invert on every node type',A+'*.rs'),('square1_tuple special case',A+'grouping.rs')],observe=['Alg::invert and node inverts'])
p('C04','Any text is answered: no crash, no blow-up, in parsing or afterwards',
 "Whatever the bytes of a string, parsing it as an alg, move or quantum move returns success or an error without panicking or crashing, and everything accepted can be printed, compared, cloned, inverted, serialised and applied to a puzzle (giving a result or an error) without panicking. The work done to parse grows in proportion to the length of the text, also for nested, unbalanced and repeated delimiters.",
 ['inputs'],'all UTF-8 strings, in particular deeply nested, unbalanced, huge-number and non-ASCII ones',
 'Tests contain a dozen rejected strings; absence of a crash is a statement about all strings.',
 [A+'parse.rs',A+'move.rs',A+'alg.rs',K+'kpuzzle.rs'],
 [('Result-returning parsers',A+'parse.rs'),('no backtracking over nested input',A+'parse.rs')],observe=['FromStr results; process survival; allocation count during parsing'])
p('C05','JSON serialisation round-trips and reads the same notation',
 "Algs, moves and quantum moves serialise to JSON as their printed text and deserialise from a string exactly when the text parses, to the same value; non-strings are rejected. Puzzle definitions, pattern data and transformation data survive serialising and deserialising unchanged, using the documented camelCase keys and notation strings as move keys, with absent or null optional parts read as absent.",
 ['inputs'],'all algs, moves, definitions and data values; all JSON strings in their place',
 'No test serialises anything; a few fixed JSON files are deserialised.',
 [A+'alg.rs',A+'move.rs',A+'quantum_move.rs','cubing_core/src/kpuzzle/definition.rs'],
 [('Serialize/Deserialize impls and visitors',A+'alg.rs, move.rs, quantum_move.rs'),('serde derives',"cubing_core/src/kpuzzle/definition.rs")],observe=['serde_json to_string/from_str/to_value'])
p('C06','An alg built from fragments is their concatenation, in order',
 "An alg builder given any sequence of algs and nodes produces exactly the nodes of those fragments, in the order pushed, with nothing flattened, merged, dropped or altered. An initial fragment comes first, an unused builder gives the empty alg, and the fragments themselves are left unchanged.",
 ['histories','inputs'],'all sequences of builder pushes of arbitrary algs and nodes',
 'One test pushes 999 single moves; no test pushes algs or nested nodes or uses an initial fragment.',
 [A+'alg_builder.rs'],[('fragment drain and flat_map',A+'alg_builder.rs')],observe=['AlgBuilder::new/default/push/to_alg'])
p('C07','A puzzle definition is accepted exactly when it is well-founded',
 "Building a puzzle from a definition or its JSON succeeds exactly when no derived move is defined in terms of itself (directly or through others), every move mentioned in a derived move exists, and every orbit has an orientation count the build supports (from 1 up to 107 where all its orientation moduli can be stored); otherwise it returns an error, never a panic. On an accepted puzzle, every alg evaluates or is refused in finite time, and definition, orbit order and sizes are reported as defined.",
 ['configurations','inputs'],'all puzzle definitions with arbitrary graphs of derived moves, orbit sizes and orientation counts',
 'One test builds one recursive definition; the law ranges over all derived-move graphs and orbit shapes.',
 [K+'kpuzzle.rs',K+'derived_moves_validator.rs',K+'lookup_move.rs',K+'orientation_packer.rs'],
 [('DerivedMovesValidator',K+'derived_moves_validator.rs'),('limits in try_new',K+'kpuzzle.rs')],observe=['KPuzzle::try_new, try_from_json, TryFrom; later evaluation'])
p('C08','A move resolves to the definition that names it',
 "A move resolves to its amount's multiple of the once-turned move if the definition has that (directly defined before derived), else to the move defined with exactly that amount, else to the inverse of the move defined with the opposite amount, and otherwise it is refused with an invalid-move error. Family, prefix and amount must match exactly, derived moves mean their alg, and a single-move alg, applying the move, and applying the one-move alg all agree.",
 ['configurations','inputs'],'all definitions (direct, derived, higher-amount and primed keys) and all moves',
 'Tests only use moves defined with amount 1 on two built-in and one custom puzzle.',
 [K+'lookup_move.rs',K+'kpuzzle.rs'],[('lookup_move priority list',K+'lookup_move.rs')],observe=['KPuzzle::transformation_from_move/alg, KPattern::apply_move/apply_alg'])
p('C09','Transformations compose and invert as the puzzle group',
 "Composing transformations follows the definition: position i of the result takes what the first had at the second's source for i, and orientation deltas add modulo the orbit's orientation count. Composition is associative, the identity is neutral on both sides, and a transformation composed with its inverse, on either side, is the identity. This holds for every orbit count, size and orientation count, orbits never affect one another, and operands are left unchanged.",
 ['inputs','configurations'],'all supported orbit shapes (0..255 pieces, all orientation counts, several orbits) and all valid transformations',
 'Tests compose four 3x3x3 turns; edge sizes, large orientation counts and multi-orbit layouts are untouched.',
 [K+'ktransformation.rs',K+'packed_orbit_data.rs',K+'kpuzzle.rs'],
 [('apply_transformation(_into), invert',K+'ktransformation.rs'),('packed byte layout and offsets',K+'kpuzzle.rs: try_new')],
 state=[('packed bytes','per orbit: permutation then orientation bytes',K+'packed_orbit_data.rs')],observe=['KTransformation::apply_transformation, apply_transformation_into, invert, to_data, =='])
p('C10','Repeating a move or group n times equals n applications',
 "A move or group with amount n acts as n-fold application of the once-turned move or of the group's content, for every amount a text can express: zero is the identity, negative amounts repeat the inverse, and amounts differing by a multiple of the order act the same. Amounts add: repeating m times and then n times equals repeating m+n times, and repeating a repetition multiplies.",
 ['inputs'],'all transformations and all amounts in -(2^31-1)..2^31-1, including nested repetitions',
 'Tests use amounts from -2 to 10 on one puzzle; the doubling recursion depends on the bits of the amount.',
 [K+'ktransformation.rs',K+'kpuzzle.rs'],[('self_multiply by repeated doubling',K+'ktransformation.rs')],observe=['transformation_from_move / transformation_from_alg'])
p('C11','Applying an alg equals performing its expansion move by move',
 "The effect of an alg is the effect of its moves in order after expansion: groups repeat, `[A, B]` is A B A' B', `[A: B]` is A B A', tuples perform both turns, and pauses, newlines and comments do nothing. Concatenated algs act as the composition of their effects. An alg is refused with an error exactly when it mentions, at any depth, a move the puzzle does not define.",
 ['inputs','configurations'],'all algs over all accepted puzzles',
 'Tests apply about fifteen fixed algs, one commutator-free nesting level deep.',
 [K+'kpuzzle.rs'],[('transformation_from_alg(_node)',K+'kpuzzle.rs')],observe=['KPuzzle::transformation_from_alg, KPattern::apply_alg'])
p('C12','The inverse of an alg undoes the alg on any puzzle',
 "For every alg a puzzle accepts, performing the alg and then its inverse (or the inverse first) restores every pattern exactly, and the inverse alg's effect is the inverse of the alg's effect. This assumes the notation's own conventions: `/` is an involution and the two turns of a tuple commute on that puzzle.",
 ['inputs','configurations'],'all algs over all accepted puzzles following those conventions',
 'Tests never apply an inverted alg to a puzzle other than through one group with amount -1.',
 [A+'alg.rs',A+'grouping.rs',A+'move.rs',K+'ktransformation.rs'],[('Alg::invert, KTransformation::invert',A+'alg.rs; '+K+'ktransformation.rs')],observe=['apply_alg of alg and inverse'])
p('C13','Applying a transformation to a pattern moves and twists every piece',
 "After applying a transformation, each position holds the piece from the transformation's source position, and its orientation is the old one plus the delta modulo the piece's own orientation modulus (the orbit's orientation count where that is 0), the modulus travelling with the piece. Applying two transformations in turn equals applying their composition, the identity changes nothing, and the original pattern and transformation are unchanged.",
 ['inputs','configurations'],'all patterns (repeated pieces, any piece labels, any orientation moduli) and transformations on all supported orbit shapes',
 'Two tests apply a handful of turns to two patterns.',
 [K+'kpattern.rs',K+'orientation_packer.rs'],[('apply_transformation(_into)',K+'kpattern.rs'),('orientation lookup tables',K+'orientation_packer.rs')],observe=['KPattern::apply_transformation, apply_transformation_into, to_data'])
p('C14','Every orientation and modulus is stored and turned faithfully',
 "For every supported orientation count, every valid modulus and every orientation below it, a pattern stores that pair at a position and reports it back unchanged, and turning it by any delta gives the orientation plus the delta modulo its modulus with the modulus kept. Distinct pairs stay distinct.",
 ['inputs','configurations'],'the whole finite space: orientation count x modulus x orientation x delta',
 'One test uses one orientation count with two moduli; lookup tables have one entry per combination.',
 [K+'orientation_packer.rs',K+'kpattern.rs'],[('packing, unpacking and transformation tables',K+'orientation_packer.rs')],observe=['set_orientation_with_mod, get_orientation_with_mod, apply_transformation'])
p('C15','Data conversion, equality and hashing agree',
 "A pattern or transformation built from data reports back that data (a missing modulus list reads back as zeros), and building from the reported data gives an equal value, whether through data values or JSON. Two patterns or transformations of one puzzle are equal exactly when their data are equal, equal patterns hash alike, and a puzzle's default pattern is its definition's default data.",
 ['inputs','configurations'],'all valid pattern and transformation data over all supported puzzles',
 'Tests build two patterns from data and never convert back.',
 [K+'kpattern.rs',K+'ktransformation.rs',K+'packed_orbit_data.rs'],[('try_from_data/to_data',K+'kpattern.rs; '+K+'ktransformation.rs'),('byte comparison and hash',K+'packed_orbit_data.rs')],observe=['try_from_data, try_from_json, to_data, ==, Hash, default_pattern'])
p('C16','Malformed pattern or transformation data is refused with an error',
 "Building a pattern from data or JSON returns an error exactly when an orbit is missing, a list is too short, a modulus does not divide the orbit's orientation count, or an orientation is not below its modulus; building a transformation returns an error exactly when an orbit is missing, a list is too short, the indices are not a permutation of the orbit, or a delta is not below the orientation count. Unparseable JSON is an error too, the error says which kind of data was bad, and no input panics or yields a value that later misbehaves.",
 ['inputs'],'all data values and byte strings, for all puzzles',
 'No test feeds malformed data.',
 [K+'kpattern.rs',K+'ktransformation.rs',K+'errors.rs'],[('checks in try_from_data',K+'kpattern.rs; '+K+'ktransformation.rs')],observe=['try_from_data/try_from_json results'])
p('C17','Values behave like values across any history of operations',
 "Over any history of creating, cloning, composing, inverting, applying (into new or existing targets), editing, buffering, converting and dropping patterns and transformations of one or several puzzles, every value equals what a plain model of that history predicts, and an operation changes only its target. In particular clones are independent, in-place application overwrites its whole target whatever it held, and a buffer's current value is the sequential application of everything fed to it, whatever was read or compared in between.",
 ['histories'],'all operation histories over a pool of values of several puzzles',
 'No test mutates a clone, reuses a target, or uses either buffer type.',
 [K+'kpattern.rs',K+'ktransformation.rs',K+'packed_orbit_data.rs'],[('double buffers',K+'kpattern.rs; '+K+'ktransformation.rs'),('Clone of packed bytes',K+'packed_orbit_data.rs')],
 state=[('a_is_current','which half of the buffer is live',K+'kpattern.rs'),('bytes','owned raw allocation',K+'packed_orbit_data.rs')],observe=['all public operations on KPattern, KTransformation and their buffers'])
p('C18','Safe operations stay inside initialised, owned memory',
 "No history of safe operations on patterns, transformations and buffers (each operation using values of one puzzle), including refused ones, reads or writes outside a value's own memory, uses it after release, depends on uninitialised memory, releases it twice or with the wrong size, requests a zero-sized allocation, or leaks it.",
 ['histories'],'all operation histories including out-of-range arguments, malformed data, empty puzzles and drops in any order',
 'Tests run without memory instrumentation and exercise no edge sizes.',
 [K+'packed_orbit_data.rs',K+'kpattern.rs',K+'ktransformation.rs',K+'kpuzzle.rs'],[('manual alloc/dealloc and raw offsets',K+'packed_orbit_data.rs'),('index assertions',K+'kpattern.rs; '+K+'ktransformation.rs')],
 observe=['a checking global allocator with guard pages and poisoned fresh memory'])
p('C19','The built-in puzzles turn like the physical cubes',
 "On the built-in 3x3x3 and 2x2x2, every supported move (face turns, rotations, slices, wide turns in each spelling, with any amount and prefix offered) and hence every alg permutes and twists the pieces exactly as a physical cube does, in the standard piece order. Two algs give equal 3x3x3 transformations exactly when they have the same effect on a cube whose centre twists are visible; default patterns are the solved cubes, with 3x3x3 centre twists ignored in patterns.",
 ['inputs'],'all algs over all supported moves of both built-in puzzles',
 'Tests compare four alg pairs on the 3x3x3 and two on the 2x2x2; most moves are never applied.',
 ['cubing_core/src/puzzles/3x3x3.kpuzzle.json','cubing_core/src/puzzles/2x2x2.kpuzzle.json','cubing_core/src/puzzles/lib.rs'],
 [('puzzle definition data','cubing_core/src/puzzles/*.json'),('static loaders','cubing_core/src/puzzles/lib.rs')],observe=['cube3x3x3_kpuzzle(), cube2x2x2_kpuzzle() and evaluation'])
p('C20','Shared values give the same answers from every thread',
 "Puzzles, algs, patterns and transformations may be shared by reference, cloned and moved between threads, created, used and dropped concurrently, and every thread observes the results a single thread would; static puzzles are initialised once and every caller gets the same instance.",
 ['schedules','histories'],'all interleavings of per-thread operation sequences over shared values',
 'Three tests move one value to one thread and back; nothing is used concurrently.',
 [K+'packed_orbit_data.rs',K+'kpuzzle.rs','cubing_core/src/kpuzzle/json_macros.rs',A+'special_notation.rs'],[('unsafe Send/Sync',K+'packed_orbit_data.rs'),('OnceLock initialisation','cubing_core/src/kpuzzle/json_macros.rs; '+A+'special_notation.rs')],observe=['per-thread results vs sequential results'])
p('C21','The alg command line tool answers as the library does',
 "For text input, `alg parse` exits 0 exactly when its input is a valid alg and 1 otherwise; `alg invert` prints exactly the inverse's notation and a newline and exits 0, or exits 1 printing nothing on standard output when the input is invalid. The argument and `--stdin` forms give the same answer; giving both or neither is a usage error.",
 ['inputs'],'all input texts through either input channel',
 'The tool has no tests.',
 ['alg_cli/main.rs'],[('main match on subcommand','alg_cli/main.rs')],observe=['exit status, stdout, stderr'])
p('C22','Compile-time macros mean what run-time parsing means',
 "`parse_alg!` and `parse_move!` compile exactly when their literal is a valid alg or move, and evaluate to the value that parsing the literal at run time gives, including any layer prefix. The JSON file macros define functions returning the value the file describes, the same instance on every call, and need no crate other than this one.",
 ['programs','inputs'],'all programs invoking the macros with string literals or JSON files',
 'Tests invoke the macros on three valid literals and never check rejection or prefixes.',
 ['cubing_macros/src/lib.rs','cubing_core/src/kpuzzle/json_macros.rs'],[('proc macros','cubing_macros/src/lib.rs'),('macro_rules loaders','cubing_core/src/kpuzzle/json_macros.rs')],observe=['compile success and diagnostics per line; values at run time'])
p('C23','Errors identify their cause and can be walked to the end',
 "An operation that fails reports the error kind matching its cause: bad syntax, a move the puzzle lacks, an invalid definition, bad pattern data or bad transformation data, each with a non-empty message that displaying and debugging the error includes, and which names the offending move or orbit where there is one. Walking an error's chain of sources always ends.",
 ['inputs'],'all failing parses, definitions, lookups and conversions',
 'One test checks one message prefix; error kinds and source chains are never inspected.',
 [K+'errors.rs',K+'kpuzzle.rs',A+'parse.rs'],[('error enums and From impls',K+'kpuzzle.rs; '+K+'errors.rs')],observe=['returned error values, Display, Error::source'])
p('C24','Element access is bounds-checked and touches only its target',
 "Reading a position returns what was last set there. Setting a piece, orientation, permutation index or delta changes that one entry and nothing else, in any orbit. A position outside the orbit, an orientation not below its modulus, a modulus that does not divide the orientation count, or a delta or index out of range is refused by panicking, with the value left as it was.",
 ['inputs','histories'],'all orbits, positions and values, valid or not, over all supported puzzles',
 'Tests read about ten positions and never write or go out of range.',
 [K+'kpattern.rs',K+'ktransformation.rs'],[('assert_lt! guards',K+'kpattern.rs; '+K+'ktransformation.rs'),('byte offsets',K+'packed_orbit_data.rs')],observe=['get_*/set_* on KPattern and KTransformation'])
p('C25','Equality and hashing of algs and moves follow their structure',
 "Two algs, nodes, moves, quantum moves or prefixes compare equal exactly when they have the same structure: the same nodes in the same order and of the same kind, with the same families, prefixes, layer numbers, amounts and comment texts. How a value came about (parsed, built, inverted twice, read from JSON, edited and restored, sharing parts with another) plays no role; `!=` is the negation of `==`, equality is symmetric, a clone equals its original, and equal moves hash alike, so that maps and sets keyed by moves hold exactly the moves put in.",
 ['inputs','histories'],'all pairs of algs or moves, however produced, and all sequences of insertions, look-ups and removals with moves as keys',
 'Tests compare parsed algs with themselves or with unrelated ones; no test compares values that differ in one place, and none uses moves as keys.',
 [A+'alg.rs',A+'alg_node.rs',A+'move.rs',A+'quantum_move.rs',A+'grouping.rs',A+'commutator.rs',A+'conjugate.rs',A+'line_comment.rs'],
 [('derived PartialEq, Eq and Hash',A+'*.rs')],observe=['==, !=, Hash, HashMap and HashSet behaviour'])
p('C26','Unchecked and raw access within bounds equals checked access',
 "At positions and with values inside an orbit's range, the unchecked and raw readers and writers of patterns and transformations do what the checked ones do: a read gives the entry, a write changes that entry and no other, in any orbit of any puzzle. The bytes of two values of a puzzle are equal exactly when the values are and number the same for all of them, the packed data clones, compares and hashes as the value does, and an orbit's orientation table packs every orientation and modulus to a value of its own, unpacks it to the same pair and turns it by every delta as the pair turns.",
 ['inputs','histories'],'all sequences of unchecked and raw accesses at valid positions over all supported puzzles',
 'Tests call none of the unchecked or raw accessors and read the bytes of one pattern.',
 [K+'packed_orbit_data.rs',K+'kpattern.rs',K+'ktransformation.rs',K+'orientation_packer.rs'],
 [('raw readers and writers',K+'packed_orbit_data.rs'),('*_unchecked accessors',K+'kpattern.rs; '+K+'ktransformation.rs'),('pack, unpack, transform',K+'orientation_packer.rs')],observe=['*_unchecked, packed_orbit_data(_mut), byte_slice, orbit_info.orientation_packer'])
p('C27','Evaluating costs by the size of the notation, not by the moves it stands for',
 "Evaluating an alg or move, and applying it to a pattern, takes work in proportion to the alg's nodes, each counted once at every place it is written (derived moves spelled out), with amounts counting by the number of their digits: neither an amount of two thousand million nor groups, commutators or conjugates nested in one another multiply the work, nor does it grow with the other moves the puzzle defines. Inverting, cloning, comparing and printing an alg, and accepting a definition whose derived moves build on one another, likewise cost by size. Composing, inverting or applying one transformation costs one value.",
 ['inputs','configurations'],'all algs, amounts and nestings over all puzzles, and all definitions with layered derived moves',
 'Tests evaluate algs of a few moves with amounts below ten thousand and no nesting, where any strategy is fast enough.',
 [K+'kpuzzle.rs',K+'ktransformation.rs',K+'derived_moves_validator.rs',A+'grouping.rs',A+'commutator.rs',A+'conjugate.rs'],
 [('transformation_from_alg_node: parts evaluated once',K+'kpuzzle.rs'),('self_multiply by halving',K+'ktransformation.rs'),('visit statuses',K+'derived_moves_validator.rs'),('inversion sharing parts',A+'*.rs')],observe=['allocations and bytes during transformation_from_alg/move, apply_alg/move, KPuzzle::try_new, invert, to_string; time'])
p('C28','Values built or edited by hand are those their fields say',
 "Constructing layers, ranges, prefixes, quantum moves, comments, nodes and orbit names by any constructor, conversion or default gives the value with exactly those parts; a line comment is refused exactly when it contains a line feed. Every node prints, inverts and wraps alone as it does within an alg. After any of an alg's public fields is edited, everything derived from it (text, inverse, JSON, equality) is that of an alg built with the new parts, while earlier clones stay as they were. Data values are equal exactly when all their lists are, and debug output of data and values shows their entries and their puzzle's name.",
 ['inputs','histories'],'all parts and texts, all nodes, and all sequences of edits of public fields interleaved with uses of the value',
 'Tests construct values by parsing almost exclusively and never edit one.',
 [A+'quantum_move.rs',A+'line_comment.rs',A+'alg_node.rs',A+'pause.rs',A+'newline.rs',A+'grouping.rs','cubing_core/src/kpuzzle/definition.rs',K+'kpattern.rs',K+'ktransformation.rs'],
 [('constructors and From impls',A+'quantum_move.rs; '+A+'alg_node.rs'),('LineComment::try_new',A+'line_comment.rs'),('public fields without caches',A+'*.rs'),('Debug impls','cubing_core/src/kpuzzle/definition.rs')],observe=['public fields, Display, Debug, ==, invert, serde'])
p('C29','Completions, help and usage of the command line tool match what it accepts',
 "The completion script printed for a shell binds to the command `alg` and, at every point of a command line, offers exactly the commands, options and shells the tool accepts there that begin with what has been typed; it is the same whatever stands on standard input and from run to run. Help, in every way of asking for it, and the version are printed with exit code 0 and mention every command, option or shell concerned; a missing command or an unknown shell is a usage error with exit code 2 and no output.",
 ['inputs'],'all shells, all beginnings of command lines, all ways of asking for help',
 'No test runs the tool.',
 ['alg_cli/main.rs'],[('clap derive types and completions_for_shell','alg_cli/main.rs')],observe=['standard output and exit code of the tool; what bash completes after sourcing the script'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
