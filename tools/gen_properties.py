#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
G="src/grammar/context_free_grammar.rs"; GP="src/grammar/context_free_grammar_production.rs"
FF="src/grammar/first_follow_symbols.rs"; TR="src/parser/recursive_descent_parser_transitions.rs"
RD="src/parser/recursive_descent_parser.rs"; SES="src/parser/syntax_error_solver.rs"
TK="src/token/token.rs"; AN="src/ast/abstract_syntax_node.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Grammar construction accepts exactly the well-formed production lists",
 "Building a grammar panics if and only if some production has the epsilon symbol as its input, or has an empty output, or has an output of more than one symbol that contains the epsilon symbol. Every other production list (including the empty list, duplicate productions, unused or undefined symbols and recursive symbols) is accepted.",
 ["inputs"],"for every epsilon symbol, initial symbol and list of productions, wherever in the list (and in which symbol's productions) the offending one is",
 "Four hand-written grammars are tested, each with a single production; the position of the offending production, and of epsilon within an output, is never varied.",
 [G],[("new_check_productions_map","ContextFreeGrammar::new_check_productions_map in "+G)],["ContextFreeGrammar::new"])
p("C02","Grammar classifies symbols exactly and keeps every production in order",
 "In a built grammar the non-terminals are exactly the production inputs and the terminals exactly the other symbols that occur in outputs (epsilon counts as a terminal when it occurs), and the membership predicates and the symbol lists agree and repeat nothing. For every non-terminal the grammar returns exactly the productions declared for it, complete and in declaration order, and nothing for any other symbol. The epsilon and initial symbols are returned as given.",
 ["inputs"],"for every accepted production list and every queried symbol, declared or not",
 "No existing test looks at the symbol sets or at the stored productions of a grammar at all.",
 [G,GP],[("build_terminal_symbols_set","ContextFreeGrammar in "+G),("new_process_productions_map","ContextFreeGrammar in "+G)],
 ["is_terminal / is_non_terminal / get_terminal_symbols / get_non_terminal_symbols / get_productions"])
p("C03","FIRST sets are exactly the textbook FIRST sets",
 "For every non-terminal the FIRST set contains exactly the terminals that can begin a string derived from it, plus epsilon exactly when it can derive the empty string (the least solution of the textbook rules, so unproductive recursion contributes nothing). The FIRST set of a terminal (or of epsilon) is itself alone, and a symbol that is not in the grammar has none.",
 ["inputs"],"for every grammar, including left-recursive, mutually recursive, nullable-chain and unproductive ones",
 "Ten hand-written grammars sample the rules; a fixpoint over an arbitrary production graph (chains of nullable symbols, mutual recursion, symbols declared in any order) is not reached by samples.",
 [FF],[("inner_get_first_symbols","FirstFollowSymbols in "+FF),("converge","FirstFollowSymbols::converge in "+FF)],["FirstFollowSymbols::from, get_first_symbols"])
p("C04","FOLLOW sets are exactly the textbook FOLLOW sets",
 "For every non-terminal the FOLLOW set contains exactly the terminals that the textbook FOLLOW rules give (end of input being an ordinary terminal of the grammar), including what follows across nullable symbols, at the end of a production and between two adjacent occurrences of the same symbol. It never contains epsilon, and terminals and unknown symbols have no FOLLOW set.",
 ["inputs"],"for every grammar, including ones where a symbol is followed by itself, by nullable chains or by its own ancestors",
 "Five hand-written grammars, none with a repeated adjacent symbol; the rules interact across productions, so any sample leaves combinations untested.",
 [FF],[("inner_get_follow_symbols","FirstFollowSymbols in "+FF)],["FirstFollowSymbols::from, get_follow_symbols"])
p("C05","The prediction table holds exactly the productions a lookahead can start",
 "For a non-terminal A and a terminal t the table lists exactly the productions of A whose output can begin with t, or whose output can derive the empty string while t is in FOLLOW(A). Each such declared production appears exactly once and they are listed in declaration order. Any other pair of symbols yields no production.",
 ["inputs"],"for every grammar and every pair of symbols",
 "Four grammars are tested and only one cell of each table is looked at.",
 [TR],[("inner_from_get_production_first_symbols","RecursiveDescentParserTransitions in "+TR),("inner_from_process_productions","RecursiveDescentParserTransitions in "+TR)],
 ["RecursiveDescentParserTransitions::from, get_productions"])
p("C06","Every accepted tree is a genuine derivation of the input",
 "When parsing succeeds, the tree's root is the initial symbol and every inner node together with its children is one of the grammar's productions for that node's symbol. Its non-epsilon leaves, from left to right, are the first tokens of the input, each exactly once, in order and with its own type and lexeme; inner nodes and epsilon leaves carry no lexeme.",
 ["inputs"],"for every grammar without left recursion, conflicting or not, and every token sequence",
 "The tests compare five trees for four tiny grammars, with an equality on tokens that ignores lexemes, so a swapped or lost lexeme is invisible to them.",
 [RD,AN,TK],[("inner_parse_from_tokens_production","RecursiveDescentParser in "+RD),("inner_parse_from_tokens_production_build_node","RecursiveDescentParser in "+RD),("inner_parse_non_epsilon_terminal_symbol","RecursiveDescentParser in "+RD)],["RecursiveDescentParser::parse_from_tokens"])
p("C07","LL(1) grammars are recognised exactly",
 "For every LL(1) grammar whose initial symbol occurs in no output and whose initial symbol has at least one production, all of them ending in an end-marker terminal that occurs nowhere else, parsing succeeds if and only if the tokens up to and including the first end marker form a sentence of the grammar.",
 ["inputs"],"for every end-marked LL(1) grammar (nullable symbols and right or central recursion included) and every non-empty token sequence",
 "Acceptance is tested on nine token sequences; that no sentence is lost and no non-sentence accepted is a statement about all grammars and all inputs.",
 [RD,TR,FF],[("inner_parse_from_tokens","RecursiveDescentParser in "+RD),("inner_from_get_production_first_symbols","RecursiveDescentParserTransitions in "+TR)],["RecursiveDescentParser::parse_from_tokens"])
p("C08","On conflicting grammars alternatives are tried in order with sibling retry",
 "When several productions of a symbol fit the next token they are tried in declaration order; when a later symbol of the same production fails, the untried alternatives of the symbols already parsed in that production are tried, last parsed symbol first, each from where that symbol started, and parsing goes on after the one that matches. Parsing succeeds exactly when this search succeeds, and the tree is the one the search finds first.",
 ["inputs"],"for every grammar without left recursion, with any FIRST/FIRST or FIRST/FOLLOW conflicts, and every token sequence",
 "Two tests backtrack once, over a single sibling; multi-step retries over several siblings, retries at a moved position and exhausted retries are not reached.",
 [RD],[("inner_parse_pop_states","RecursiveDescentParser in "+RD),("inner_parse_from_tokens_try_parse_productions","RecursiveDescentParser in "+RD)],["RecursiveDescentParser::parse_from_tokens"],
 [("states","symbols parsed so far in the production being tried, with their untried alternatives","inner_parse_from_tokens_production in "+RD)])
p("C09","Parsing any non-empty input terminates and never panics",
 "For every grammar without left recursion, parsing any non-empty token sequence returns a result without panicking: truncated and over-long inputs, tokens that are unknown to the grammar, an initial symbol with no productions, and an error solver that answers finitely often or always moves forward included. Only the empty token sequence is rejected, by a panic.",
 ["inputs","histories"],"for every grammar without left recursion, every token sequence cut at every point, and every finite sequence of error-solver answers",
 "The tests never end the input where a non-terminal is still expected and never use a solver that answers.",
 [RD],[("inner_parse_from_tokens_production_non_terminal","RecursiveDescentParser in "+RD),("parse_from_tokens","RecursiveDescentParser in "+RD)],["RecursiveDescentParser::parse_from_tokens"])
p("C10","A failure report accounts for the whole attempted derivation",
 "When parsing fails, the report names the symbol that failed and has one entry per production of it that fits the lookahead, in declaration order; in each entry the parsed symbols, the failed symbol and the pending symbols together are exactly the production's output. The parsed parts are genuine derivations of consecutive tokens starting where the symbol started, each of their productions fitting the token it starts at, and the failed symbol is reported in the same way at the position they end; a terminal is only reported as failed where the token is another one or the input has ended.",
 ["inputs"],"for every grammar without left recursion and every rejected token sequence",
 "Four failures are tested, all with terminals only: no test has a parsed non-terminal before the failing symbol.",
 [RD,"src/parser/failed_production.rs","src/parser/failed_symbol.rs"],[("inner_parse_from_tokens_production_build_failed_symbol","RecursiveDescentParser in "+RD),("inner_parse_pop_states","RecursiveDescentParser in "+RD)],["ParseResult::Err of parse_from_tokens"])
p("C11","On LL(1) grammars the failure is reported at the first offending token",
 "For an end-marked LL(1) grammar in which every symbol is reachable and productive, when parsing fails the tokens recorded as parsed along the report are exactly the longest prefix of the input that some sentence of the grammar starts with, in order.",
 ["inputs"],"for every such grammar and every rejected token sequence",
 "Depends on the prediction table being neither too wide nor too narrow for every grammar; tests check the position of four failures, without non-terminals.",
 [RD,TR],[("inner_parse_from_tokens_production_build_failed_symbol","RecursiveDescentParser in "+RD)],["ParseResult::Err of parse_from_tokens"])
p("C12","The error solver is a last resort and declining it changes nothing",
 "An error solver is never consulted for an input that the parser without a solver accepts, and that input yields the same tree. When the solver declines every request, the result (tree or failure report) is the same as without a solver.",
 ["inputs","histories"],"for every grammar without left recursion, every token sequence and every solver, eager or declining",
 "The tests never construct a parser with a solver.",
 [RD,SES],[("inner_parse_from_tokens_try_fix_productions","RecursiveDescentParser in "+RD),("parse_from_tokens","RecursiveDescentParser in "+RD)],["calls seen by a SyntaxErrorSolver; ParseResult"])
p("C13","The error solver is consulted as its contract documents",
 "A solver is consulted only about a symbol all of whose fitting productions failed and whose every ancestor has a single fitting production, never about the retry of a symbol that had parsed; inner symbols are consulted before the symbols around them. A symbol with a single fitting production is presented through the single-production call with that production's failure, any other through the multiple-production call with the failures of all its fitting productions in order; the tokens are those of the input and the position is where the symbol starts.",
 ["inputs","histories"],"for every grammar without left recursion, every rejected token sequence and every sequence of solver answers",
 "No test uses a solver that observes or answers anything.",
 [RD,SES],[("inner_parse_from_tokens_try_fix_productions","RecursiveDescentParser in "+RD),("is_child_single_path","RecursiveDescentParser in "+RD)],["calls seen by a SyntaxErrorSolver"])
p("C14","A solver's fix is spliced in faithfully and parsing resumes after it",
 "When the solver supplies a fix, the fixed symbol in the result is the one it was asked about and holds exactly the supplied parts, and the next symbol is parsed from the token position the solver gave. A result that contains a fix is reported as fixed: every production around it lists one part per symbol of the production, in order, the parts that parsed normally being genuine derivations of the tokens in between and the fixed ones nested fixes. When parsing still fails after a fix, the failure report shows the fixed symbol among the parsed symbols in the same way.",
 ["inputs","histories"],"for every grammar without left recursion, every token sequence and every sequence of solver answers, with any resume position",
 "No existing test produces a fix.",
 [RD,"src/parser/fixed_symbol.rs","src/parser/fixed_production.rs","src/parser/fixed_production_part.rs","src/parser/fix_result.rs"],[("inner_parse_from_tokens_fix_option_to_parse_symbol_result","RecursiveDescentParser in "+RD),("inner_parse_from_tokens_production_build_node","RecursiveDescentParser in "+RD)],["ParseResult::Fix of parse_from_tokens"])
p("C15","Results depend only on the grammar and the tokens",
 "The analyses and parse results do not depend on hash seeds or on how the caller's symbol type hashes, on how the productions of different symbols are interleaved in the declaration list, on which of the equivalent constructors built the parser, on what kind of iterator the tokens come from, or on other parses with the same parser, earlier ones or ones made while its tokens are being read.",
 ["inputs","histories","configurations"],"for every grammar, every interleaving of different symbols' productions, every hash function of the symbols, every hash seed and every earlier parse",
 "Each test builds one grammar in one order and parses at most twice; the iteration order of the hash collections is whatever the run happened to draw.",
 [FF,TR,RD,G],[("converge","FirstFollowSymbols::converge in "+FF),("inner_from_process_productions","RecursiveDescentParserTransitions in "+TR)],["FirstFollowSymbols, RecursiveDescentParserTransitions, RecursiveDescentParser"])
p("C16","Tokens compare by type alone and lexemes are carried, never consulted",
 "Two tokens are equal exactly when their types are equal, and unequal exactly otherwise, whatever their lexemes; a clone has the same type and the same lexeme. No analysis or parse decision depends on a lexeme.",
 ["inputs"],"for every pair of tokens with any lexeme, present or absent, and every parse",
 "No test compares tokens with different lexemes or looks at a lexeme after parsing.",
 [TK,RD],[("PartialEq for Token","impl PartialEq for Token in "+TK),("Clone for Token","impl Clone for Token in "+TK)],["Token ==, !=, clone; parse_from_tokens"])
p("C17","Grammar analysis is total",
 "For every accepted grammar, left-recursive, cyclic, unproductive, unreachable or empty ones included, computing the FIRST and FOLLOW sets and building the prediction table and the parser terminates without panicking.",
 ["inputs"],"for every accepted grammar",
 "Two left-recursive grammars are tested; the fixpoints must converge and every internal lookup must succeed for all grammars.",
 [FF,TR],[("converge","FirstFollowSymbols::converge in "+FF),("inner_from_initial_table","RecursiveDescentParserTransitions in "+TR)],["FirstFollowSymbols::from, RecursiveDescentParserTransitions::from, RecursiveDescentParser::from_grammar"])
p("C18","Supplied FIRST and FOLLOW sets are used exactly as given",
 "Sets built from supplied FIRST and FOLLOW maps are returned as supplied. The table built from a grammar and supplied sets (a FIRST set for every symbol of the grammar, of its terminals and epsilon; a FOLLOW set for every non-terminal, of its terminals) lists under A and t exactly the productions of A, each once and in declaration order, whose output has a symbol with t (not epsilon) in its supplied FIRST set and epsilon in those of all symbols before it, or whose output symbols all have epsilon in theirs while t is in the supplied FOLLOW set of A. A parser built from supplied sets accepts, and builds trees, by that table.",
 ["inputs","configurations"],"for every grammar and all supplied sets, whether or not they are the ones the library would compute",
 "The tests supply sets for five hand-written grammars, always the correct ones, and look at one cell of each table.",
 [FF,TR,RD],[("inner_from_get_production_first_symbols","RecursiveDescentParserTransitions in "+TR),("FirstFollowSymbols::new",FF),("from_grammar_and_first_follow_symbols","RecursiveDescentParser in "+RD)],
 ["FirstFollowSymbols::new, get_first_symbols, get_follow_symbols; RecursiveDescentParserTransitions::from; RecursiveDescentParser::from_grammar_and_first_follow_symbols"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
