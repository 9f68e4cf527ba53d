import json
P=[]
L="pango-lexer/src/"; G="pango-parser/src/"
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
LEXOBS=["the lexer builder's result for each pattern","the items returned by successive calls of the lexer iterator"]
PAROBS=["whether the parser constructor returns or panics","the Ok/Err verdict of parse","the Debug rendering of the returned syntax tree"]
p("C01","A pattern matches exactly the strings its regular expression denotes",
 "For every accepted pattern and every input, a lexer holding only that pattern returns, on its first call, the longest non-empty prefix of the input that belongs to the language the pattern denotes under ordinary regular-expression semantics (concatenation, alternation, grouping, literals, character sets, and the quantifiers *, + and ? applied to a single item or a group, nested to any depth, including groups that can match the empty string). If no non-empty prefix belongs to that language, the first call returns no token.",
 ["programs","inputs"],"every accepted pattern x every input string",
 "The unit tests sample 9 patterns with a few strings each; none nests quantifiers, quantifies a group that starts with a quantified item, or quantifies a nullable group. The state space is patterns x strings.",
 [L+"fsm/nfa/compiler.rs",L+"fsm/nfa/sim.rs",L+"fsm/nfa/model.rs",L+"regex/parser.rs",L+"regex/ast.rs"],
 [("compilation of the syntax tree into an NFA with quantifier states",L+"fsm/nfa/compiler.rs: Compiler::expr"),("simulation of all runs with per-state visit counters",L+"fsm/nfa/sim.rs: feed, eps_closure, take_transition"),("quantifier test",L+"regex/tokenizer.rs: QuantifierKind::is_satisfied")],
 LEXOBS,[("runs","set of (state, visit counters) the simulation is in",L+"fsm/nfa/sim.rs")])
p("C02","Counted repetition bounds are honoured exactly",
 "An item or group followed by {n}, {n,} or {n,m} matches exactly the strings made of n, at least n, or between n and m consecutive matches of it, for all bounds, including zero, an empty interval (n > m, which matches nothing), nested counted groups, groups that can match the empty string, and groups whose body begins with another quantified item; every entry into a counted group counts afresh. A bound that does not fit in 32 bits is rejected when the pattern is added.",
 ["programs","inputs"],"every pattern with counted quantifiers x every input",
 "The tests try {3}, {2}, {2,}, {2,4} and {3,4} on flat groups only. Counting bugs show at particular bounds, nestings and repetition counts.",
 [L+"fsm/nfa/sim.rs",L+"fsm/nfa/compiler.rs",L+"regex/tokenizer.rs"],
 [("visit counters, incremented when a state is left and reset when its quantified transition is taken",L+"fsm/nfa/sim.rs: Run::take_transition"),("bounds test",L+"regex/tokenizer.rs: QuantifierKind::is_satisfied"),("decimal conversion with overflow detection",L+"regex/tokenizer.rs: take_next_decimals_and_convert_to_u32")],
 LEXOBS)
p("C03","Pattern syntax: exactly the documented grammar is accepted, never a panic",
 "Adding a token pattern returns success exactly when the whole pattern is derivable from the documented regular-expression grammar (empty pattern and empty bracket groups allowed; every alternative and every parenthesised group must contain at least one item; parentheses and brackets balanced; a quantifier only directly after an item or group). In every other case it returns an error value; it never panics, never hangs and never silently ignores part of the pattern.",
 ["inputs"],"every string used as a pattern",
 "The proptest only renders patterns from valid syntax trees and checks that they parse; no test gives the parser an invalid pattern, and the space of strings is infinite.",
 [L+"regex/parser.rs",L+"regex/tokenizer.rs",L+"lexer/mod.rs",L+"fsm/nfa/compiler.rs"],
 [("recursive descent over the token stream",L+"regex/parser.rs: Parser"),("tokenizer marks malformed lexemes as invalid",L+"regex/tokenizer.rs: Tokenizer::next")],
 ["the builder's Ok/Err result for a pattern, or a panic"])
p("C04","Escapes, classes and bracket groups denote exactly the documented characters",
 "Over every Unicode scalar value: an unescaped ordinary character, each escape (\\f \\n \\r \\t \\v \\0, escaped punctuation, \\cX, \\xHH with exactly two hexadecimal digits, \\uHHHH with exactly four, \\u{...} with four or five) denotes exactly one documented character and consumes exactly the documented digits; '.', \\d, \\D, \\s, \\S, \\w, \\W denote every character, the ASCII digits, Unicode white space, Unicode alphabetic characters, and their complements. A bracket group denotes the union of its members (inclusive ranges included), or the exact complement of that union when negated.",
 ["inputs","programs"],"every Unicode scalar value x every escape, class and bracket group",
 "Tests probe about a dozen characters out of 1,112,064 and only escape strings that are followed by another escape.",
 [L+"regex/tokenizer.rs",L+"regex/ast.rs",L+"regex/parser.rs"],
 [("escape decoding",L+"regex/tokenizer.rs: handle_escape_sequence, handle_unicode_escape_sequence"),("class membership",L+"regex/tokenizer.rs: ClassKind::contains"),("bracket group membership",L+"regex/ast.rs: LiteralKind::contains, GroupedLiteralKind::contains")],
 LEXOBS)
p("C05","Maximal munch: every token is the longest match at its position",
 "Whenever some declared pattern matches a non-empty prefix of the remaining input, the next call returns a token, and its length is the greatest length that any declared pattern matches there. This holds no matter how far the lexer had to look ahead before falling back, how often it falls back, and whether the look-ahead ran into the end of the input.",
 ["programs","inputs","histories"],"every list of patterns x every input x every call of the iterator",
 "One test with one input; it never needs more than one character of look-ahead, never falls back twice in a row, and never falls back at the end of the input.",
 [L+"lexer/mod.rs",L+"lexer/input.rs",L+"fsm/nfa/sim.rs"],
 [("feed until the machine is stuck, remembering the last accepting position",L+"lexer/mod.rs: Lexer::next"),("unaccepted look-ahead is pushed back",L+"lexer/input.rs: consume_token, accept_suffix")],
 LEXOBS,[("token_suffix","characters read but not accepted",L+"lexer/input.rs"),("prev_characters_iter","pushed-back characters",L+"lexer/input.rs")])
p("C06","The first declared matching pattern decides the token kind",
 "Every returned token carries the kind of the earliest declared pattern that matches the token's whole text, whichever way the kinds were declared and however many patterns there are. For a pattern declared with a mapping function, the kind is that function applied to the token's complete text.",
 ["programs","inputs"],"every ordered list of patterns x every input",
 "One test with seven patterns and one input; ties are exercised once.",
 [L+"lexer/mod.rs",L+"fsm/nfa/compiler.rs",L+"fsm/nfa/sim.rs"],
 [("one final state per pattern, numbered in declaration order; the lowest one wins",L+"lexer/mod.rs: Lexer::next, add_token; "+L+"fsm/nfa/sim.rs: get_current_final_states")],
 LEXOBS)
p("C07","Tokens tile the input: contiguous, faithful, nothing lost or duplicated",
 "The tokens returned by a lexer are non-empty, appear in input order and are contiguous: the first starts at character 0, each next one starts where the previous one ended, and each token's text is exactly the characters of the input between its start and end positions, counted in characters. Concatenating the texts therefore gives a prefix of the input.",
 ["inputs","programs","histories"],"every list of patterns x every input, including multi-byte characters",
 "One ASCII input in the tests, without any multi-character push-back.",
 [L+"lexer/input.rs",L+"lexer/mod.rs"],
 [("positions are taken from the enumerated characters",L+"lexer/input.rs: accept_suffix"),("push-back of unaccepted characters",L+"lexer/input.rs: consume_token")],
 LEXOBS)
p("C08","The token stream ends only at the end of input or at an unlexable position",
 "A lexer reports the end of its token stream exactly when no declared pattern matches a non-empty prefix of what remains, that is at the end of the input or at the first position where lexing is impossible. Once it has reported the end, every further call reports the end again; no call panics.",
 ["inputs","programs","histories"],"every list of patterns x every input x every number of further calls",
 "Tests zip the token stream against an expected list and never look at the end of the stream.",
 [L+"lexer/mod.rs",L+"lexer/input.rs"],
 [("end of stream",L+"lexer/mod.rs: Lexer::next"),("restoring unread characters",L+"lexer/input.rs")],
 LEXOBS)
p("C09","Lexing terminates for every pattern set, without state explosion",
 "For every list of accepted patterns and every finite input, each call of the lexer returns after finitely many steps, and the number of simulation states kept while lexing depends on the patterns only, not exponentially on the number of characters read. This includes nested quantifiers over groups that can match the empty string and alternatives that overlap.",
 ["programs","inputs"],"every pattern list x every input, in particular nullable quantified groups and overlapping alternatives",
 "No test quantifies a nullable group or has overlapping alternatives under a quantifier; non-termination shows only there.",
 [L+"fsm/nfa/sim.rs",L+"fsm/nfa/compiler.rs"],
 [("epsilon closure over runs",L+"fsm/nfa/sim.rs: eps_closure"),("set of current runs",L+"fsm/nfa/sim.rs: feed")],
 ["whether a call of the lexer returns within a time and memory budget"])
p("C10","A grammar is built exactly when it is complete",
 "Building a grammar succeeds exactly when a start variable has been set and the start variable and every variable used in any rule body has at least one rule; otherwise building panics. The grammar has the last start variable set and exactly the rules that were added, whatever the order, grouping or repetition of the builder calls; a rule with an empty body means the empty string. Adding a single rule reports whether it was new.",
 ["histories","programs"],"every sequence of builder calls",
 "Five fixed builder sequences are tested; the property ranges over all call sequences.",
 [G+"grammar.rs"],
 [("runtime checks in the builder",G+"grammar.rs: GrammarBuilder::build"),("rule sets, empty body normalised to epsilon",G+"grammar.rs: add_rule")],
 ["whether build returns or panics","the behaviour of a parser and the state machine constructed from the grammar","the boolean returned when adding a rule"])
p("C11","The state machine is the canonical LR(0) collection of the grammar",
 "The canonical finite-state machine of a grammar has exactly one state per reachable LR(0) item set, its start state is the closure of the start variable's rules, every state's item set is closed, and from every state there is exactly one transition for each symbol that follows a bullet, leading to the state of the advanced item set. Its rendering shows exactly these states, items and transitions.",
 ["programs"],"every well-formed grammar",
 "One grammar is constructed in the tests and nothing about the result is asserted.",
 [G+"cfsm/mod.rs",G+"cfsm/item.rs",G+"cfsm/state.rs",G+"cfsm/dot.rs"],
 [("work-list construction",G+"cfsm/mod.rs: Cfsm::from_grammar"),("closure",G+"cfsm/item.rs: ItemSet::from_incomplete_map"),("advance",G+"cfsm/item.rs: ItemBody::advance"),("rendering",G+"cfsm/dot.rs")],
 ["Cfsm::to_dot"])
p("C12","A parser is constructed exactly for SLR(1) grammars",
 "Constructing a parser succeeds exactly when the grammar is SLR(1): in the LR(0) automaton of the grammar extended with an end marker no state has two different actions for the same look-ahead, where reductions are restricted to the FOLLOW set of the reduced variable. Every other grammar is refused by a panic; items that agree on their action are not a conflict, and construction always terminates.",
 ["programs"],"every well-formed grammar",
 "One grammar is constructed in the tests; no conflicting grammar is ever tried, and FOLLOW is tested on one grammar.",
 [G+"parser/table.rs",G+"grammar.rs",G+"cfsm/mod.rs"],
 [("conflict detection on insertion",G+"parser/table.rs: insert_action, new_slr"),("FIRST and FOLLOW fixpoints",G+"grammar.rs: first_bodies, follow_set")],
 PAROBS)
p("C13","Parser soundness: a returned tree derives exactly the input",
 "If parsing succeeds, the input's token sequence is a sentence of the grammar and the returned tree is a derivation of it: the root is the start variable, each inner node with its children (listed right to left) is a rule of the grammar, and the leaves read right to left are exactly the tokens of the whole input. Hence no input outside the language is ever accepted, in particular no proper prefix of a sentence and no sentence followed by further tokens.",
 ["programs","inputs"],"every SLR(1) grammar x every token sequence",
 "One grammar and one sentence are tested; no rejected input, no nested start variable, no second variable.",
 [G+"parser/slr.rs",G+"parser/table.rs"],
 [("shift/reduce loop over a stack of tree nodes",G+"parser/slr.rs: parse, handle_token"),("accept action",G+"parser/table.rs: new_slr")],
 PAROBS,[("stack","tree nodes with the state reached after them",G+"parser/slr.rs")])
p("C14","Parser completeness: every sentence of the grammar is accepted",
 "For every SLR(1) grammar and every token sequence derivable from its start variable, parsing succeeds and returns the (unique) derivation tree of that sequence. This includes the empty sentence, variables at the end of rules, variables that derive the empty string, and arbitrarily deep recursion on either side.",
 ["programs","inputs"],"every SLR(1) grammar x every sentence",
 "One grammar whose only rules end in terminals; end-of-input reductions of other variables and empty rules are never exercised.",
 [G+"parser/slr.rs",G+"parser/table.rs",G+"grammar.rs",G+"cfsm/mod.rs"],
 [("reduce on look-ahead in FOLLOW or end of input",G+"parser/table.rs: new_slr"),("FOLLOW fixpoint",G+"grammar.rs: follow_set")],
 PAROBS)
p("C15","Parsing always returns a verdict: no panic, no endless loop",
 "For every SLR(1) grammar in which every variable derives some terminal string, and for every lexer over its terminals and every input, parsing returns Ok or Err after a number of steps bounded by the input; it never panics. This also holds for inputs that stop in the middle of a rule, for empty inputs, for tokens that the grammar does not use, and for inputs of any length: neither parsing nor dropping its result exhausts the stack, however deep the tree is.",
 ["programs","inputs"],"every reduced SLR(1) grammar x every token sequence",
 "The single parser test gives a valid sentence of one grammar.",
 [G+"parser/slr.rs",G+"parser/table.rs"],
 [("look-up failures become Err",G+"parser/slr.rs: handle_token")],
 PAROBS)
p("C16","Terminals match by kind and leaves keep the actual token",
 "A token matches a grammar terminal exactly when the user's terminal equality says so, whatever payload the token carries and whatever payload the grammar wrote. Each leaf of the returned tree is the very token value produced by the lexer at that position, payload included, never the placeholder written in the grammar.",
 ["inputs","programs"],"every grammar x every assignment of payloads to tokens",
 "One sentence with payloads in the tests.",
 [G+"parser/table.rs",G+"parser/slr.rs",G+"parser/traits.rs"],
 [("look-up through terminal equality and hash",G+"parser/table.rs: Terminal"),("shifting moves the token into the leaf",G+"parser/slr.rs: handle_token")],
 PAROBS)
p("C17","Results do not depend on hash order, declaration order or reuse",
 "The state machine (up to numbering), the decision whether a parser can be constructed, and the verdict and tree for each input are functions of the grammar (as a set of rules with a start variable) and the input alone. They are the same for every construction of the same grammar, for every order in which its rules were declared, for every hash seed, after the parser value has been moved, and for every repeated use of one parser.",
 ["programs","histories","configurations"],"every grammar x every declaration order x every hash seed x every sequence of parses with one parser",
 "Tests construct each grammar once per run, in one order, and parse once.",
 [G+"cfsm/mod.rs",G+"cfsm/item.rs",G+"grammar.rs",G+"parser/table.rs",G+"parser/slr.rs"],
 [("work-list algorithms over hash maps must be confluent",G+"cfsm/mod.rs: from_grammar; "+G+"grammar.rs: first_bodies, follow_set")],
 PAROBS+["Cfsm::to_dot"])
p("C18","Input that cannot be lexed is never parsed successfully",
 "If the lexer given to the parser stops before the end of its input because no pattern matches there, parsing returns an error, even if the tokens before that position form a sentence. If the whole input can be lexed, the verdict depends on the token sequence only.",
 ["inputs","programs"],"every grammar and lexer x every input with an unlexable position",
 "No test gives the parser an input that cannot be lexed.",
 [G+"parser/slr.rs",L+"lexer/mod.rs",L+"lexer/input.rs"],
 [("end-of-input handling",G+"parser/slr.rs: Slr::parse")],
 PAROBS)
p("C19","A rejected pattern is reported with a located error",
 "When a pattern is rejected, the error value renders at least one error message, and each message carries a non-empty span (start < end) of character positions that lies inside the pattern.",
 ["inputs"],"every rejected pattern",
 "No test looks at an error or at the position of an invalid token.",
 [L+"regex/parser.rs",L+"regex/tokenizer.rs",L+"iter/peekable.rs"],
 [("position of the current token",L+"regex/parser.rs: get_current_token_position"),("end position of a token",L+"regex/tokenizer.rs: get_token_end_cursor_pos"),("last item read",L+"iter/peekable.rs: CachedPeekable::current")],
 ["Display of the error returned by the builder"])
p("C20","The empty-string symbol is transparent in rule bodies",
 "Inserting the explicit empty-string symbol any number of times at any position of any rule body changes nothing observable: the same grammars yield a parser, the same inputs are accepted, and the same trees are returned (a rule that derives the empty string yields a node without children).",
 ["programs","inputs"],"every grammar x every insertion of empty-string symbols x every input",
 "Two unit tests look at item bodies with epsilon; no parser is ever run on a grammar containing one.",
 [G+"cfsm/item.rs",G+"grammar.rs",G+"parser/table.rs"],
 [("bullet skips epsilon",G+"cfsm/item.rs: ItemBody::from, advance"),("epsilon in FIRST",G+"grammar.rs: first_bodies"),("number of popped nodes",G+"parser/table.rs: new_slr")],
 PAROBS)
import os
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
