T = 'model checking: '
COMMON = ' Assumes the evaluator of generated code is right (C15 compares it with rustc on every construct it meets).'
LEX = 'bounded exhaustive exploration of the real lexan crate: every analyser of an enumerated definition space is run on every text up to a length and compared, element by element, with '
GRAM = 'bounded exhaustive enumeration of grammars and of all texts up to a length; the real generators and the real runtimes are executed on each and compared with '
CHECKS = {
 'C01': dict(technique=T + LEX + 'tokenisation by definition (reference backtracking matcher)', note='Exhaustive within the definition pools and text lengths in evidence.'),
 'C02': dict(technique=T + LEX + 'the obligation to cover every byte; non termination detected by a step bound', note='Exhaustive within the definition pools and text lengths in evidence; termination is observed within a step bound proportional to the text.'),
 'C03': dict(technique=T + LEX + 'locations computed from byte positions', note='Exhaustive over texts up to the length over an alphabet with LF, CR, multi byte characters and tabs.'),
 'C04': dict(technique=T + 'exhaustive exploration of all operation histories (advance, inject) up to a depth on real token streams, against a stack model replayed step by step', note='Every history up to the depth; each abstract step is compared with the real stream.'),
 'C05': dict(technique=T + 'exhaustive enumeration of definition lists over small pools of tags and patterns; the real constructor against the validity rule', note='Exhaustive within the pools.'),
 'C06': dict(technique=T + 'exhaustive exploration of all interleavings of operation scripts on streams and parsers sharing an analyser, each compared with its solo run', note='All interleavings of the scripts in evidence; single threaded interleavings (the types are not shared between threads).' + COMMON),
 'C07': dict(technique=T + GRAM + 'a least fixed point language model', note='Exhaustive within the stated grammar spaces and text lengths; larger grammars only through the scaled families.' + COMMON),
 'C08': dict(technique=T + GRAM + 'derivation trees', note='Exhaustive within the stated grammar spaces and sentence lengths.' + COMMON),
 'C09': dict(technique=T + 'bounded exhaustive enumeration of grammars, declared counts and ignore options; the real generators against an explicitly constructed LALR(1) automaton (cross checked against merged canonical LR(1))', note='Exhaustive within the stated grammar spaces.'),
 'C10': dict(technique=T + 'exhaustive enumeration of precedence/associativity assignments over a pool of grammars and of all texts up to a length; real generators and runtimes against a reference parser and precedence climbing', note='Exhaustive over assignments for the pool and texts up to the bound plus texts covering every transition.' + COMMON),
 'C11': dict(technique=T + GRAM + 'the sets of viable prefixes of the language model and a reference automaton', note='Exhaustive within the stated grammar spaces and text lengths.' + COMMON),
 'C12': dict(technique=T + GRAM + 'a reference parser with error recovery whose configurations are tracked for livelocks', note='Exhaustive within the stated spaces of grammars with %error and texts; termination is required of grammars without conflicts and unproductive symbols only.' + COMMON),
}
SPEC = 'bounded exhaustive exploration of the real generators on specification texts: '
CHECKS.update({
 'C13': dict(technique=T + 'exhaustive enumeration of injecting grammars, injected texts and host texts; the real runtime against the reference parser run on the text with the injections spliced in place', note='Exhaustive within the pools and text lengths in evidence.' + COMMON),
 'C14': dict(technique=T + 'exhaustive enumeration of predicate placements and of predicate valuations (every history of true/false answers) over a pool of ambiguous grammars and all texts up to a length; the real alalr1 runtime against a reference selection rule', note='Exhaustive over valuations and texts within the bounds.' + COMMON),
 'C16': dict(technique=T + SPEC + 'every text up to a length over an alphabet of tokens, every prefix, and every single (thorough: pairs of) token or character edit of seed specifications, each under panic, output and step monitors', note='Exhaustive within the edit distance and lengths stated; termination is observed through a time bound per case.'),
 'C17': dict(technique=T + SPEC + 'a catalogue of mistakes planted at every applicable place of seed specifications, and every pair of mistakes, against the expected diagnostics with their locations', note='Exhaustive over the catalogue, the places and pairs; mistakes which damage each other are excluded by a stated rule.'),
 'C22': dict(technique=T + GRAM + 'the tables of the generated parser: the state report is parsed and compared state by state and token by token with the tables extracted from the generated code', note='Exhaustive over the grammar spaces in evidence.' + COMMON),
 'C23': dict(technique=T + SPEC + 'every place and extent at which a part of a seed specification can be moved to an injected file (also nested and repeated), compared with the inlined text: generated code, reports and diagnostics with their labels and locations', note='Exhaustive over the places and extents for the pool.'),
 'C24': dict(technique=T + GRAM + 'each other: the tables both generators produce are explored as a product automaton and both runtimes run on the same texts', note='Exhaustive over the grammar spaces and text lengths.' + COMMON),
 'C26': dict(technique=T + 'bounded exhaustive enumeration of grammars, token definitions and all texts up to a length on the real runtimes; every message against its parts, and the standard error of the same parse with the default report against the messages in order', note='Exhaustive within the pools and text lengths in evidence; runs of blanks and brackets in messages are not compared.' + COMMON),
 'C27': dict(technique=T + 'bounded exhaustive enumeration of grammars; every line of the report about precedences, first sets, look ahead sets and conflicts against a reference LALR(1) automaton, and refusals for conflicts against the report', note='Exhaustive within the grammar spaces in evidence; grammars with unproductive symbols are excluded.' + COMMON),
 'C28': dict(technique=T + 'exhaustive enumeration of operation sequences on the real type against a sorted list, of all pairs of sets, and sizes up to a thousand', note='Exhaustive for sequences of up to 7 (8) insertions of 5 (6) elements and pairs of subsets of 8 (10).'),
 'C25': dict(technique=T + SPEC + 'an enumerated space of token and skip definitions; the definitions extracted from the generated code and the real analyser built from them against the definitions as written', note='Exhaustive over the definition pools and texts.' + COMMON),
})
CHECKS.update({
 'C18': dict(technique=T + 'exhaustive exploration of all histories of generator operations up to a depth, each in a process of its own, and of all interleavings of the phases of two generations (one thread, two threads under a controlled schedule): the real libraries and tools, byte equality with fresh processes', note='Every history up to the depth over the pool of specifications; every phase interleaving of each pair. Hash seeds and address layouts vary over processes but cannot be enumerated.'),
 'C19': dict(technique=T + 'exhaustive exploration of the configuration space of the command line tools (specification kinds x paths x outputs x existing files x options; every read and open made to fail), each executed in a scratch directory and compared with a model of the contract', note='Exhaustive over the product in evidence.'),
 'C20': dict(technique=T + 'exhaustive fault injection: every write and open of each output x every fault (and pairs), every byte position as the end of the disk, on the real libraries and tools; the verdict reported against the files left behind', note='Faults at the C library boundary (LD_PRELOAD) and by the kernel file size limit; quick tier: every byte position for one specification, in steps for the others.'),
 'C21': dict(technique=T + 'product exploration of the automaton generated from the library\'s grammar file and the committed one; every access string extended by every one and two tokens, every short token and character string, and every single edit, replayed on the real library', note='Access strings are for contexts of several stack states; the committed parser\'s tables join the exploration only where the evaluator understands them.' + COMMON),
})
CHECKS.update({
 'C15': dict(technique=T + 'exhaustive enumeration of families of specifications (actions of every form for every production length and every $n, names, preambles, definitions, predicates on every small subset, grammars); each is compiled with rustc and its complete state space dumped (every action in every state for every token and predicate answer, all tables, actions on symbolic attributes, whole parses) and compared with the evaluated tables and an oracle for the actions', note='Exhaustive within the families in evidence. This is also the conformance check of the evaluator the other checks use.'),
})
NOT_APPLICABLE = {}
