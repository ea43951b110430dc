import json,subprocess
V='/verif/'
ids=[json.loads(l)['id'] for l in open(V+'properties.jsonl')]
have=set(subprocess.check_output([V+'target/build/debug/vp','list'],text=True).split())
T=dict(
C01=('grammar-based generation + exhaustive small strings, differential against a reference parser','Independent reference parser agrees on every generated text; all strings up to 5 (quick) / 6 (thorough) symbols over 16 symbols are enumerated. Trusts the reference parser as the statement of the notation.'),
C02=('random syntax trees, round-trip and differential against a canonical printer','Printing, reading back and re-printing agree with an independent printer on all generated algs and on a complete grid of special moves in context.'),
C03=('random syntax trees, differential against a reference inverter and double-inversion relation','Independent inverter agrees on all generated algs; the original is re-read after inversion.'),
C04=('fuzzing with arbitrary, long and nested text under allocation-count work bounds and crash containment','No crash or panic and work linear in the text on everything generated; nesting deep enough to overflow the stack is a known finding.'),
C05=('random values, round-trip and differential against hand-written JSON','serde output compared with independently written JSON, and read back.'),
C06=('random fragment sequences against list concatenation','Builder result equals concatenation for all generated sequences.'),
C07=('random definitions (cyclic, dangling, unsupported orbits, malformed JSON) against a model of well-foundedness','Acceptance and evaluation compared with an independent model on every generated definition, each built several times under different hash orders.'),
C08=('random puzzles with overlapping move definitions against a reference resolver','Lookup result compared with an independent resolver, through every entry point.'),
C09=('random transformations over random orbit shapes against a reference group model, plus group laws','Composition, inverse, identity and associativity against an independent model.'),
C10=('random moves and groups with amounts over the whole i32 range against cycle-wise powers, plus additive and multiplicative laws','Powers compared with an independent cycle-by-cycle computation.'),
C11=('random puzzles and algs against move-by-move expansion','Alg effect compared with performing the expanded move list on a pattern, and refusal with presence of unknown moves.'),
C12=('random puzzles, algs and patterns: alg followed by its inverse is the identity (metamorphic)','Holds on all generated puzzles following the notation conventions.'),
C13=('random patterns and transformations against a reference model, plus action laws','Pattern action compared with an independent model.'),
C14=('complete enumeration of orientation counts, moduli, orientations and deltas','Every supported combination is enumerated, through data, setters and transformations.'),
C15=('random data, round-trips and equality/hash relations','Conversion, equality and hashing compared on equal, near-equal and edited data.'),
C16=('structure-aware corruption of valid data and JSON against a validity model','Acceptance compared with an independent validity model; accepted values are exercised.'),
C17=('stateful model-based testing of operation histories over several puzzles','Every live value is compared with a plain model after operations of random histories.'),
C18=('stateful histories under an electric-fence allocator with poisoned fills, release checks and leak counting','Out-of-bounds, use after release, double or mismatched release, zero-size requests, leaks and dependence on uninitialised bytes are detected at page or byte granularity, in the debug and the optimised build.'),
C19=('random and enumerated moves and algs against a geometric sticker model of the cubes','All move spellings and random algs compared with rotations of stickers in space.'),
C20=('randomised concurrent programs compared with sequential results, type-level Send/Sync probes, initialisation races in fresh processes','Sampled schedules only, of real threads.'),
C21=('random command lines and inputs to the built tool, compared with the reference parser and inverter','The real binary is run on each generated input.'),
C22=('batches of generated literals compiled with the macros in a generated crate, compared with run-time parsing','Valid literals are evaluated, invalid ones must be diagnosed line by line by the compiler.'),
C23=('random failing operations against the expected error kind, message and finite source chain','Error values inspected for every generated failure.'),
C24=('random and boundary element accesses against a model, refused accesses included','Every generated access compared with the model, value re-read in full afterwards.'),
C25=('random pairs of algs and moves differing in one place, produced in different ways, against equality of model trees','Equality, inequality, hashing and use as keys compared with an independent tree on every generated pair.'),
C26=('random sequences of unchecked and raw accesses against a model; enumeration of the packing table','Every access compared with the model, value and bytes re-read in full afterwards; all orientation counts enumerated.'),
C27=('random heavy algs and layered definitions under allocation-count and byte bounds, with a time limit per case','Bounds are a fixed multiple of an independent step count, several times what the current tree needs; work without allocation is only bounded by the time limit.'),
C28=('random parts, nodes and edit histories against model trees and texts','Constructors, conversions, edits in place and debug output compared with the model.'),
C29=('random beginnings of command lines completed by bash with the printed script, against a table of what the tool accepts','What bash offers is compared exactly; the scripts of shells that are not installed are checked as text.'),
)
checks=[]
for i in ids:
    if i not in have: continue
    t,n=T[i]
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',evidence_file=f'evidence/{i}.json',technique=t,level='exploration',level_note=n))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=[dict(property=i,reason='The check is still being built.') for i in ids if i not in have],
 notes='No hooks in /repo: everything is reached through the public API. Known findings and repairs are listed in KNOWN_FINDINGS.md.')
json.dump(m,open(V+'MANIFEST.json','w'),indent=1,ensure_ascii=False); open(V+'MANIFEST.json','a').write('\n')
try:
    import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json'))); print('valid',len(checks))
except ImportError: print('written',len(checks))
