import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
LX=["lexan/src/lib.rs","lexan/src/analyzer.rs","lexan/src/lexicon.rs","lexan/src/matcher.rs"]
RT=["lalr1/src/lib.rs","alalr1/src/lib.rs"]
GEN=["lalr1_lib/src/grammar.rs","lalr1_lib/src/state.rs","lalr1_lib/src/production.rs","lalr1_lib/src/symbol.rs","alalr1_lib/src/grammar.rs","alalr1_lib/src/state.rs","alalr1_lib/src/production.rs","alalr1_lib/src/symbol.rs"]
SPEC=["lalr1_lib/src/parser.laps","lalr1_lib/src/parser.rs","alalr1_lib/src/parser.alaps","alalr1_lib/src/parser.rs"]
p("C01","Tokenisation is maximal munch with literals preferred on ties",
 "At every position, after skippable text has been passed over, the token delivered is the longest one any definition matches there (for a regular expression: its own leftmost-first, non-empty match anchored at that position); a literal wins over regular expressions of the same length. If two or more regular expressions share the longest length and no literal reaches it, exactly those definitions are reported, in definition order, as an ambiguous match over that text; if nothing matches, the text up to the next position where some literal, regular expression or skip pattern matches is reported as unexpected.",
 ["inputs","configurations"],"every set of literal, regular expression and skip definitions and every text",
 "Seven unit tests run one lexicon on two texts; the rule quantifies over definition sets (shared prefixes, overlaps, ties, alternations) and texts.",
 LX,[("longest_match / longest_matches","lexan/src/matcher.rs"),("BasicTokenStream::next","lexan/src/analyzer.rs"),("distance_to_next_valid_byte","lexan/src/lexicon.rs")],
 obs=["LexicalAnalyzer::token_stream","TokenStream::front/advance"])
p("C02","Lexical analysis is total, lossless and always progresses",
 "For any definitions that the analyser accepts and any UTF-8 text, the analysis neither panics nor hangs: it ends after finitely many steps with the end marker. The delivered lexemes and unexpected/ambiguous pieces are non-empty, appear in text order without overlapping, and everything between them (and before the first and after the last) is skippable text, so no input byte is lost or invented.",
 ["inputs","configurations"],"every accepted definition set (including patterns that can match nothing) and every UTF-8 text, including empty, all-skippable and multi-byte text",
 "The tests use ASCII text and patterns that cannot match the empty string; termination and losslessness are statements about all texts.",
 LX,[("BasicTokenStream::next","lexan/src/analyzer.rs"),("skippable_count","lexan/src/matcher.rs"),("distance_to_next_valid_byte","lexan/src/lexicon.rs")],
 obs=["TokenStream"])
p("C03","Reported locations are exact",
 "Every token, lexical error and end marker carries the label of the text it came from, its 1-based line (one more than the number of newlines before it in that text) and its 1-based byte offset within that line, whatever mixture of LF and CRLF line endings, multi-byte characters, skipped text and multi-line tokens precedes it. When displayed the location is label:line:offset, with the label quoted if it contains a blank and omitted (with its colon) if it is empty.",
 ["inputs","configurations"],"every text, label and definition set",
 "Tests check a handful of locations in LF-only ASCII text.",
 LX,[("incr_index_and_location","lexan/src/analyzer.rs"),("Display for Location","lexan/src/analyzer.rs")],
 state=[("location","line and offset of the next unread byte","lexan/src/analyzer.rs")],obs=["Token::location","Error locations","Location Display"])
p("C04","Injecting text into a token stream behaves as a stack",
 "At any point of a stream's life, injecting text makes its tokens come next, followed by exactly the tokens (with their own labels and locations) that would have come without the injection, starting with the one that was at the front; injections nest to any depth and injecting text without tokens changes nothing. When everything is exhausted the end marker is presented once, located at the end of the text exhausted last, the stream says it is empty, and each further advance yields an 'advanced when empty' error at that place until something is injected.",
 ["histories","inputs"],"every sequence of front, advance, front-and-advance, advance-and-front and inject operations, for every mixture of injected texts",
 "One unit test follows one fixed history with three injections.",
 LX[:2],[("TokenStream::inject/advance","lexan/src/analyzer.rs")],state=[("token_stream_stack","texts being read, innermost last","lexan/src/analyzer.rs"),("front","what the next front() returns","lexan/src/analyzer.rs")],obs=["TokenStream"])
p("C05","Lexical definitions are validated before use",
 "Construction of a lexical analyser succeeds exactly when all tags (including the end marker) are distinct, no pattern string is used twice among literals, regular expressions and skips, no pattern is empty and every regular expression is valid. Otherwise construction fails naming a defect that is really present, and no analyser with a silently dropped or shadowed definition is ever produced.",
 ["configurations"],"every list of literal, regular expression and skip definitions and end marker",
 "Unit tests try five fixed bad definition lists.",
 LX,[("Lexicon::new","lexan/src/lexicon.rs"),("LiteralMatcher::new / RegexMatcher::new / SkipMatcher::new","lexan/src/matcher.rs")],obs=["LexicalAnalyzer::new"])
p("C06","Analysers and parsers are reusable and do not leak state",
 "Any number of token streams taken from one analyser and any number of parsers and parses may be active in any interleaving or order (including after failed parses); each one behaves exactly as it does when it is the only one ever run.",
 ["schedules","histories"],"every interleaving of operations on streams sharing an analyser and every sequence of parses by one parser or by several parsers of a process",
 "Each test parses a few texts in one fixed order.",
 LX+RT,[("LexicalAnalyzer::token_stream","lexan/src/lib.rs"),("Parser::parse_text","lalr1/src/lib.rs, alalr1/src/lib.rs")],obs=["TokenStream","Parser::parse_text"])
p("C07","A generated parser accepts exactly the language of its grammar",
 "If a specification without precedences or predicates has no LALR(1) conflicts (and does not use %error), generation succeeds with no expected conflicts declared, and the generated parser, run by the runtime library, parses a text successfully if and only if its token sequence is derivable from the first production group's symbol. This includes the empty text, nullable, left/right/mutually recursive symbols, and grammars of any size.",
 ["programs","inputs"],"every conflict free specification and every text, for both generators and runtimes",
 "The tests contain two hand generated calculator parsers and a few sentences; nothing runs the generators.",
 GEN+RT,[("closure, state construction and look ahead merging","lalr1_lib/src/grammar.rs, alalr1_lib/src/grammar.rs"),("first sets","*/src/symbol/non_terminal.rs, */src/symbol/terminal.rs"),("parse_text","lalr1/src/lib.rs, alalr1/src/lib.rs")],obs=["Parser::parse_text result"])
p("C08","Semantic actions run bottom up, once each, with the right attributes",
 "For an accepted text the semantic actions run are exactly those of the productions in its derivation tree, once per node, children before parents and left to right (the reverse of the rightmost derivation). Action code of the n-th production receives as $1..$k the attributes of that production's k symbols in order - the token itself for a terminal, the value its own action produced for a non terminal - and $$ becomes the attribute of the left hand side.",
 ["programs","inputs"],"every accepted specification and every accepted text, for both generators and runtimes",
 "The calculator tests see only a final number for a few inputs.",
 GEN+RT,[("write_semantic_action_code / expanded_action","*/src/grammar.rs, */src/production.rs"),("pop_n / push_non_terminal","lalr1/src/lib.rs, alalr1/src/lib.rs")],obs=["Parser::do_semantic_action"])
p("C09","Conflicts are counted exactly and gate generation",
 "For a specification without precedences and %error in which every symbol is productive, the shift/reduce count is the number of (state, token, completed item) clashes with a shift and the reduce/reduce count the number of per-state pairs of completed items that still share look ahead tokens, in the grammar's LALR(1) automaton. Generation succeeds exactly when both counts equal the numbers the specification declares (zero by default), each comparison being waived by its ignore option, and a refusal reports the actual and the declared count.",
 ["programs","configurations"],"every specification, every declared pair of expected counts and every setting of the ignore options",
 "No test runs a generator, let alone one with conflicts.",
 GEN,[("resolve_shift_reduce_conflicts / resolve_reduce_reduce_conflicts","*/src/state.rs"),("Grammar::try_from","*/src/grammar.rs")],obs=["Grammar::try_from","ParserGenerator","exit status of the generators"])
p("C10","Conflicts are resolved by the declared policy",
 "A shift/reduce clash is decided by comparing the token's precedence level with the production's (its %prec tag if any, otherwise its first terminal; later declared levels are higher and undeclared is lowest): the higher one wins, and on equal levels left means reduce and right means shift, none of these counting as conflicts. Otherwise a production ending in %error gives way silently, else shift wins over reduce and the earlier declared production over the later one, and these count; whatever is decided, the resulting parser never accepts a text outside the grammar's language.",
 ["programs","configurations","inputs"],"every specification with any assignment of %left, %right, %nonassoc levels and %prec overrides, and every text",
 "The calculator tests exercise one precedence table and only through final values.",
 GEN,[("resolve_shift_reduce_conflicts / resolve_reduce_reduce_conflicts","*/src/state.rs"),("rhs_associated_precedence, set_precedences","*/src/production.rs, */src/symbol.rs")],obs=["parse trees of generated parsers","Grammar::try_from"])
p("C11","Syntax errors are detected at once and reported precisely",
 "When a text is not in the language the first error is reported before any further token is consumed, at the first token (possibly the end marker) that cannot continue a sentence, as a syntax error carrying that token, or as a lexical error if the piece of text is not a token; the parse then returns an error. The expected set reported with it is exactly the set of tokens on which the automaton can move in the state in which the error was found: never the offending one, and every token that can legally come next unless reductions on the offending token came first; valid texts cause no report.",
 ["programs","inputs"],"every conflict free specification in which every symbol derives some text, and every text",
 "Tests check one error in one grammar.",
 GEN+RT,[("write_look_ahead_set_code","*/src/grammar.rs"),("parse_text","lalr1/src/lib.rs, alalr1/src/lib.rs")],obs=["ReportError::report_error","Parser::parse_text result"])
p("C12","Error recovery follows the %error productions and terminates",
 "After an error the parser skips tokens until one is found that can follow a completed '... %error' production startable in some state on the parse stack (other than the state last recovered at), drops the stack down to the nearest such state, and continues from there with the error as the attribute of %error; if the text runs out first the parse ends. Every error met on the way is reported exactly once, the parse of any text terminates (if the grammar has no conflicts and only productive symbols), and its result is an error if anything was reported (the last one) and success otherwise.",
 ["programs","inputs"],"every specification using %error and every text with any number of errors",
 "Two calculator tests recover from one or two errors in one grammar.",
 GEN+RT,[("distance_to_viable_state / recover_from_error","lalr1/src/lib.rs, alalr1/src/lib.rs"),("write_error_recovery_code / is_recovery_state_for_token","*/src/grammar.rs, */src/state.rs")],
 state=[("last_error_state","state last recovered at","lalr1/src/lib.rs"),("states/attributes","parse stack","lalr1/src/lib.rs")],obs=["ReportError::report_error","Parser::parse_text result","semantic actions"])
p("C13","Text injected by a semantic action is parsed next, in place",
 "When a semantic action injects text, parsing continues as if that text had been written immediately before the token that is next (the look ahead that triggered the action); injected text may trigger further injections, several texts injected by one action are read last-injected first, and errors in injected text carry its label. Parsing afterwards resumes with the enclosing text exactly where it was, including when the next token is the end of the text.",
 ["programs","inputs","histories"],"every grammar, every choice of injecting productions and injected texts, and every text",
 "The tests inject nothing from parser actions.",
 RT+LX[:2],[("parse_text passing inject to do_semantic_action","lalr1/src/lib.rs, alalr1/src/lib.rs"),("TokenStream::inject","lexan/src/analyzer.rs")],obs=["Parser::parse_text result and actions"])
p("C14","Predicates select among competing reductions in declaration order",
 "In augmented grammars, when several productions can be reduced on the same token the first in declaration order whose predicate holds is chosen, a production without predicate always being eligible, and it is a syntax error if none is; a production with a predicate never counts as conflicting with later ones. The predicate's $n denotes the attribute of the n-th symbol of its own production and $? the look ahead tag, evaluated at the moment of the decision; a production without competitors is subject to its predicate too.",
 ["programs","inputs"],"every augmented specification, every text and every truth assignment of the predicates",
 "One augmented calculator with two predicates is tested on a few sentences.",
 ["alalr1_lib/src/state.rs","alalr1_lib/src/production.rs","alalr1_lib/src/grammar.rs","alalr1/src/lib.rs"],[("write_next_action_code / expanded_predicate","alalr1_lib/src/state.rs, alalr1_lib/src/production.rs"),("at_len_minus_n","alalr1/src/lib.rs")],obs=["next_action of generated parsers","Parser::parse_text"])
p("C15","Generated code compiles and embeds the user's code faithfully",
 "For every accepted specification whose names are usable as Rust names and whose code sections are valid Rust, the emitted file, placed in a module providing the named attribute and target types, compiles; it contains the preamble verbatim, implements the runtime's parser trait for the target type with the attribute type, and runs each production's action with $$, $n and $INJECT denoting the left hand side attribute, the n-th right hand side attribute and the injector. A production without an action leaves the first symbol's attribute (or the default value if it has none) as its own.",
 ["programs"],"every accepted specification: shapes of productions, numbers and kinds of tokens, presence or absence of actions, preamble, %error, predicates and injections",
 "Nothing in the test suite compiles freshly generated code; the build of one example does.",
 GEN,[("write_parser_code_to_file and the write_*_code family","*/src/grammar.rs"),("expanded_action / expanded_predicate","*/src/production.rs")],obs=["rustc on emitted code","behaviour of the compiled parser"])
p("C16","No specification text crashes or hangs a generator",
 "Whatever the text of a specification - truncated, misspelt, with unknown, duplicate or wrongly placed items, recursive in any way, in any UTF-8 - the generator library returns a parser or an error in bounded time; it never panics, overflows the stack or loops. If it returns a parser, that parser's code can be written.",
 ["inputs","programs"],"every specification text (that does not inject itself)",
 "Tests never feed a specification to a generator.",
 SPEC+GEN+["lalr1_lib/src/attributes.rs","alalr1_lib/src/attributes.rs"],[("semantic actions of the specification parser","lalr1_lib/src/parser.rs, alalr1_lib/src/parser.rs"),("extend_firsts_data, closure","*/src/symbol/non_terminal.rs, */src/grammar.rs")],obs=["Specification::new","Grammar::try_from","ParserGenerator"])
p("C17","Specification mistakes are all diagnosed, at the right place",
 "Generation is refused for, and an error naming the place is printed about, every undefined symbol, unknown literal or %prec tag, repeated token name, token definition or skip rule, empty literal, malformed regular expression, token used as a left hand side, precedence declared again in a later declaration, and unreadable number; all of them are found in one run and counted exactly. Correct specifications are not refused, and merely unused tokens, tags and symbols and reserved token names only cause warnings.",
 ["inputs","programs"],"every combination of such mistakes at every place in a specification",
 "No test checks any diagnostic of the generators.",
 SPEC+GEN,[("semantic actions of the specification parser","lalr1_lib/src/parser.rs, alalr1_lib/src/parser.rs"),("SymbolTable","*/src/symbol.rs"),("Grammar::try_from","*/src/grammar.rs")],obs=["stderr","Grammar::try_from","Specification::error_count"])
p("C18","Generation is deterministic and independent of history",
 "The same specification text always yields byte for byte the same parser code and state report, whatever was generated before in the same process, in whatever order, in another process, and whether through the library or the command line tool.",
 ["histories","configurations"],"every order of generating any set of specifications in one process, compared with fresh processes",
 "Nothing generates twice in one process.",
 GEN,[("production and state numbering","*/src/production.rs, */src/grammar.rs")],obs=["emitted files"])
p("C19","The command line tools honour their contract",
 "A generator exits with status 0 exactly when it has written the complete parser file (to the -o path, or to the specification's path with its last extension replaced by rs) and the state report beside it (same name, extension states). An output file that exists is never changed unless force is given; that refusal, like unreadable, erroneous or unexpectedly conflicting specifications, ends in a non-zero status and an error message with the output file neither created nor changed.",
 ["configurations","inputs"],"every combination of options, existing files and kinds of specification",
 "The tools are never run by the tests.",
 ["lalr1_gen/src/main.rs","alalr1_gen/src/main.rs"],[("main","lalr1_gen/src/main.rs, alalr1_gen/src/main.rs")],obs=["exit status, files, stderr"])
p("C20","A failed write is never reported as success",
 "If writing the parser code or the state report fails at any point, the library call returns an error and the command line tool exits with a non-zero status and an error message; success is only ever reported when the files on disk are complete.",
 ["fault_sequences","crash_points"],"every byte position at which writing either output file can start to fail, and unwritable paths",
 "The tests never make a write fail.",
 GEN[:1]+["alalr1_lib/src/grammar.rs","lalr1_gen/src/main.rs","alalr1_gen/src/main.rs"],[("write_parser_code_to_file / write_description","*/src/grammar.rs"),("main","*_gen/src/main.rs")],obs=["exit status, files"])
p("C21","Each generator's own front end matches its grammar file",
 "The specification parser built into each generator library accepts the same token sequences, and reports the same first error with the same expected tokens, as the parser the generator produces from the library's own grammar file (parser.laps / parser.alaps).",
 ["inputs","programs"],"every token sequence of the specification language (all states and look aheads of its automaton)",
 "The committed parsers are generated by hand and nothing compares them with their sources.",
 SPEC,[("committed tables","lalr1_lib/src/parser.rs, alalr1_lib/src/parser.rs"),("build.rs regeneration","lalr1_lib/build.rs, alalr1_lib/build.rs")],obs=["Specification::new","emitted tables"])
p("C22","The state report describes the parser that was generated",
 "For every accepted specification the state report lists the same states, shifts, reductions, gotos and error recovery states as the generated parser uses, and every production with its precedence and associativity.",
 ["programs"],"every accepted specification",
 "Nothing reads the report.",
 ["lalr1_lib/src/state.rs","lalr1_lib/src/grammar.rs","alalr1_lib/src/state.rs","alalr1_lib/src/grammar.rs"],[("write_description / description","*/src/grammar.rs, */src/state.rs, */src/symbol.rs")],obs=["*.states file"])
p("C23","Injected specification files are equivalent to inlined text",
 "A specification in which a stretch of complete items, at a place where the specification language allows an injection (around the preamble, between configuration items, next to definitions and production groups; not directly after a sole conflict count or a sole token definition), is replaced by %inject of a file holding that stretch (including nested injection) generates the same parser as the specification with the text in place. Diagnostics about injected text name the injected file and the place in it, and a missing, empty, unreadable or recursively injected file is an error.",
 ["inputs","configurations"],"every split of a specification into nested injected files at the permitted places",
 "No test injects a file into a specification.",
 SPEC+RT+LX[:2],[("InjectionHead / Injection productions","lalr1_lib/src/parser.laps, alalr1_lib/src/parser.alaps")],obs=["Specification::new","emitted code"])
p("C24","Both generators agree on grammars without predicates",
 "For a specification without predicates the plain and the augmented generator accept or refuse alike (with the same conflict counts), and their parsers have the same automaton: the same moves, expected sets, recovery states and actions in corresponding states.",
 ["programs"],"every specification without predicates",
 "The two libraries are separate copies of the code and nothing compares them.",
 GEN,[("parallel copies of the generator","lalr1_lib/src, alalr1_lib/src")],obs=["emitted tables","Grammar::try_from"])
p("C25","Token and skip definitions reach the generated lexer unaltered",
 "The lexical analyser of a generated parser is built from exactly the specification's definitions: every literal token with the text between its quotes, every regular expression token and skip rule with the pattern as written, and nothing else, each associated with the token of that name; literal tokens are displayed by their quoted text and other tokens by their name.",
 ["programs","inputs"],"every set of token and skip definitions (quotes and backslashes in literals aside)",
 "The tests contain two fixed, already generated lexers.",
 GEN[:1]+["alalr1_lib/src/grammar.rs","lalr1_lib/src/symbol.rs","alalr1_lib/src/symbol.rs","lalr1_lib/src/symbol/terminal.rs","alalr1_lib/src/symbol/terminal.rs"],[("write_lexical_analyzer_code / write_symbol_enum_code","*/src/grammar.rs")],obs=["emitted code","tokens seen by a generated parser"])
p("C26","Error messages say what was found, where and what was expected",
 "The message of every error a parser reports names its kind (syntax or lexical), what was found - the offending token as NAME(TEXT), the unexpected text, or the ambiguous text with the definitions that match it - 'at' its location, and, after 'expected', every token of the expected set by its displayed name, in order and separated by ', '. The default report writes exactly that message to standard error, once per error and in the order of occurrence, does not influence the parse, and panics with the message if the error is an ambiguous match.",
 ["inputs","configurations"],"every grammar, set of token definitions, text and label",
 "No test looks at a message: the runtime tests replace the report or ignore what it prints.",
 RT+["lexan/src/analyzer.rs"],[("Display for Error / OrderedSet, ReportError::report_error","lalr1/src/lib.rs, alalr1/src/lib.rs"),("Display for Error, List, Token, Location","lexan/src/analyzer.rs")],obs=["Error::to_string","standard error of a parser with the default ReportError"])
p("C27","Conflict reports and the analysis behind them are exact",
 "For every specification whose symbols are all productive: the state report lists every token and tag with its associativity and precedence, every used non terminal with the tokens it can start with and whether it can be empty, for every state each item with its look ahead set after resolution of conflicts, and exactly the unresolved conflicts that are counted - a shift/reduce conflict with its token, the state shifted to and the production with its look ahead set before resolution, a reduce/reduce conflict with the shared tokens and the two items - each on lines of its own. A refusal because of unexpected conflicts describes exactly the states that have unresolved conflicts of the refused kind, as the state report does.",
 ["programs"],"every specification in which all symbols are productive",
 "Nothing reads the report or a refusal.",
 ["lalr1_lib/src/state.rs","lalr1_lib/src/grammar.rs","alalr1_lib/src/state.rs","alalr1_lib/src/grammar.rs","lalr1_lib/src/symbol.rs","alalr1_lib/src/symbol.rs"],[("description, describe_sr_conflict_states, describe_rr_conflict_states","*/src/state.rs, */src/grammar.rs, */src/symbol.rs"),("resolve_shift_reduce_conflicts / resolve_reduce_reduce_conflicts","*/src/state.rs")],obs=["*.states file","grammar::Error::UnexpectedSRConflicts / UnexpectedRRConflicts"])
p("C28","The ordered set behaves as a set",
 "After any sequence of insertions, or when collected from any sequence, an OrderedSet contains exactly the elements inserted, each once; insert says whether the element is new; len, is_empty and contains agree with that; both iterations yield the elements in ascending order; it is displayed as their displayed forms in that order separated by ', '. Copies are independent of the original, and sets are equal (and hash alike, and compare as equal) exactly if they have the same elements, however they were built.",
 ["inputs","histories"],"every sequence of operations",
 "No test uses the set on its own.",
 ["lalr1/src/lib.rs"],[("OrderedSet","lalr1/src/lib.rs")],obs=["lalr1::OrderedSet"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
import re
for d in P:
    n=len(re.findall(r'[.](?:\s|$)',d['statement'])); print(d['id'],n,len(d['statement']))
