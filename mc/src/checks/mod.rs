use crate::ctx::CheckDef;
pub mod c06;
pub mod c07;
pub mod c15;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod common;
pub mod g1;
pub mod g2;
pub mod g3;
pub mod lex;
pub mod msgs;
pub mod oset;
pub mod specs;

const EVAL: &str = "the generated tables are obtained by evaluating the generated code; the evaluator is validated against rustc by C15";
const RE: &str = "the regular expressions used are of a kind the reference backtracking matcher knows (characters, classes, groups, alternation, greedy and lazy repetition)";

pub fn defs() -> Vec<CheckDef> {
    let d = |id, rule, assumptions, run| CheckDef {
        id,
        level: "model_checking",
        rule,
        assumptions,
        hang: if id == "C15" { 300 } else { 60 },
        run,
    };
    vec![
        d(
            "C01",
            "every lexicon of the enumerated spaces (subsets of literals x ordered selections of regular expressions x skip lists) is built and its stream compared, element by element, with tokenisation by definition on every text up to the length",
            &[RE],
            lex::c01,
        ),
        d(
            "C02",
            "every lexicon of the enumerated spaces (with patterns that can match nothing, multi byte characters) is run on every text up to the length plus awkward characters and long runs; termination, no panic, and every byte accounted for",
            &[RE],
            lex::c02,
        ),
        d(
            "C03",
            "six lexicons with multi line tokens, errors and skips on every text over {a b blank LF CR e-acute tab} up to the length; all labels; large line numbers",
            &[RE],
            lex::c03,
        ),
        d(
            "C04",
            "every sequence of operations up to the depth on streams of every text, with a stack model; fronts and emptiness observed (twice) after each operation",
            &[RE],
            lex::c04,
        ),
        d(
            "C05",
            "every list of up to two literals, two regular expressions and two skips over small tags and patterns with each end marker; every position of a defect in longer lists; what is accepted is then compared with the reference on small texts",
            &[RE],
            lex::c05,
        ),
        d(
            "C06",
            "every interleaving of every pair/triple of operation scripts on streams sharing an analyser compared with each running alone; every sequence of parses (and parses nested in a semantic action of another) compared with fresh parsers",
            &[EVAL],
            c06::run,
        ),
        d(
            "C07",
            "every grammar of the enumerated spaces without LALR(1) conflicts (decided by a reference construction) is generated by both generators and every token string up to the bound is parsed; membership is decided by a least fixed point over string sets (Earley for the size families)",
            &[EVAL],
            c07::run,
        ),
        d(
            "C08",
            "every conflict free grammar of the enumerated spaces, each sentence up to the length: the start symbol's attribute must be a derivation tree of the text and the actions its post order; then with subsets of productions lacking actions and with permuted references",
            &[EVAL],
            g1::c08,
        ),
        d(
            "C09",
            "every grammar of the enumerated spaces in which all symbols are productive: conflict counts of a reference automaton against what the generators accept and report; full product of declared counts and ignore options on a pool",
            &[],
            g1::c09,
        ),
        d(
            "C10",
            "every assignment of levels and associativities (and %prec) to the tokens and a tag of a pool of grammars: counts, and complete event sequences of all texts up to the length and texts covering every transition, against a reference parser; operator grammars against precedence climbing",
            &[EVAL],
            g1::c10,
        ),
        d(
            "C11",
            "every conflict free productive grammar of the enumerated spaces and every text (also with unexpected text at each place): place, token, expected set and number of reports, from the language alone and from the reference automaton",
            &[EVAL],
            g1::c11,
        ),
        d(
            "C12",
            "every grammar with %error of the enumerated spaces and every text up to the length (with unexpected text): event sequences against a reference parser with recovery; livelock detection",
            &[EVAL],
            g1::c12,
        ),
        d(
            "C13",
            "every pool grammar x one or two productions injecting every small text (empty, blank, tokens, unexpected text, several lines, two texts) x every text up to the length: event sequences against a reference parser that splices the injected text in",
            &[EVAL],
            g2::c13,
        ),
        d(
            "C14",
            "every pool grammar x every subset of productions (up to a size) with predicates x every truth assignment over (predicate, look ahead), (predicate, attributes) and both x every text up to the length, against a reference parser; conflict counts",
            &[EVAL],
            g2::c14,
        ),
        d(
            "C15",
            "every specification of the families (actions of every length and form, names, types, preambles, definitions, predicates and subsets of them, grammars) is generated, compiled with rustc and run: everything the compiled parser says (every action in every state for every token and every answer of predicates, go to, production data, expected sets, recovery, semantic actions on symbolic attributes, whole parses) against the evaluator's tables and an oracle for the actions",
            &[],
            c15::run_check,
        ),
        d(
            "C16",
            "every single edit (by token: insert, replace, delete, duplicate, swap, truncate; by character likewise) of two specifications, every pair of token edits of a small one, every short sequence of tokens, every small grammar whether productive or not, code fragments, sizes, every graph of files injecting each other: no panic, no hang, code can be written if accepted",
            &[],
            specs::c16,
        ),
        d(
            "C17",
            "every mistake of a catalogue at every place, and every combination of up to two (three) of them: the exact set of places of the errors printed and the exact count returned; correct specifications with the exact set of warnings",
            &[],
            specs::c17,
        ),
        d(
            "C18",
            "every history of operations (two generators x specifications x ways of carrying one out) up to the depth, each in a process of its own, and every interleaving of the phases of two generations on one thread and on two: byte equality with what fresh processes and the tools produce",
            &[],
            c18::run,
        ),
        d(
            "C19",
            "the product of kinds of specification, forms of its path, output arguments, what exists already and options for both tools, each run in a scratch directory: status, message, and every file below the directory afterwards against the contract; every read and open of the specification made to fail",
            &[],
            c19::run,
        ),
        d(
            "C20",
            "every write and open of every output of both libraries and tools gets every fault (errors once or for good, nothing written, short, interrupted, pairs), every byte position is made the end of the files, and unwritable places: success only with complete files",
            &["faults are injected at the C library's write, writev, pwrite and open, and by the kernel's file size limit"],
            c20::run,
        ),
        d(
            "C21",
            "the parser generated from each library's own grammar file (actions left out) is run beside the library on: an access string of every state in every context of some states, followed by every one and two tokens; every short token string at four places; every single edit of two specifications; every short string of awkward characters at three places: same verdict, same error, place and expected tokens",
            &[EVAL],
            c21::run,
        ),
        d(
            "C22",
            "every grammar of the enumerated spaces with conflicts waived, precedences, %error and predicates: every line of the state report parsed and compared with the generated tables; items with those of the reference automaton",
            &[EVAL],
            g3::c22,
        ),
        d(
            "C23",
            "every choice of one or two (three) stretches of items of 24 specifications, disjoint or nested, put into injected files: byte equality of code and report with the inlined specification; every mistake of the catalogue inside injected files: place and label",
            &[],
            specs::c23,
        ),
        d(
            "C24",
            "every grammar of the enumerated spaces, every combination of waivers, every defective and damaged specification: same verdict and counts, bisimulation of the two parsers with productions, expected sets, recovery and actions",
            &[EVAL],
            g3::c24,
        ),
        d(
            "C25",
            "every selection of literals, regular expressions and skips from pools of awkward ones (and all at once in rotated orders): the lexer definitions evaluated from the generated code against the specification's",
            &[EVAL],
            g3::c25,
        ),
        d(
            "C26",
            "every grammar of the pools with five kinds of token definitions (also overlapping, multi line and awkward ones) and every text up to the length over their pieces and unexpected text: what each error says against its parts, and what a parser with the default report prints (and how it ends) against the messages, in order",
            &[EVAL],
            msgs::c26,
        ),
        d(
            "C27",
            "every grammar of the enumerated spaces with conflicts waived, precedences, %error and predicates, in which all symbols are productive: the report's precedences, first sets, look ahead sets after resolution and every conflict line compared with a reference automaton; what refusals for either kind of conflict say compared with the report of the states concerned",
            &[],
            g3::c27,
        ),
        d(
            "C28",
            "every sequence of insertions up to the length (with everything that can be observed after each, copies and collected sets) against a sorted list; every pair of sets; sizes up to a thousand in five orders",
            &[],
            oset::c28,
        ),
    ]
}
