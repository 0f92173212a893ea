#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,title)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

LEX=["src/lexeme/pattern.rs","src/lexeme/punctuation.rs","src/lexeme/constants.rs","src/lexeme/mapper.rs","src/lexeme/middleware.rs","src/lexeme/mixin.rs","src/tokenization.rs","src/field_tree.rs"]
NT=["src/production/non_terminals/concat.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs"]
WR=["src/production/wrappers/"+x+".rs" for x in "cache hidden list look_ahead node non_structural nullable separated_list structural validated".split()]
TM=["src/production/terminals/"+x+".rs" for x in "constant_field eof null punctuation regex_field token_field".split()]

p("C01","A successful tokenization is a gap-free cover of the input ending in one EOF",
 "For every tokenizer built from the shipped lexemes and every byte string (the empty one included), a successful tokenization returns non-empty tokens that start at byte 0, follow each other without gap or overlap and end at the last byte, followed by exactly one zero-width end-of-file token at the input length. Tokenization fails only when, at some position, no active lexeme yields a token, and then the error's pointer is exactly that position, which is where the longest possible gap-free cover ends, and its message names the line and column of it.",
 ["inputs","configurations"],"all tokenizers (both kinds, any lexeme mix incl. state changing and discarding lexemes) x all byte inputs",
 "The unit tests tokenize about a dozen fixed strings with fixed lexers and print the result; gaps, overlaps, lost tails and wrong failure positions depend on the combination of lexemes and input.",
 LEX,[("consume loop, pointer advance, EOF append","src/tokenization.rs"),("lexeme extents","src/lexeme/*.rs")])
p("C02","At each position the first lexeme in list order that matches wins",
 "For every tokenizer without state changes, the produced tokens are those of the reference procedure: at each position try the lexemes in the order they were given and take the token and extent of the first that matches there. A regular-expression lexeme matches the extent its expression matches at exactly that position in the remaining bytes, and never matches emptily.",
 ["inputs","configurations"],"all ordered lexeme lists x all inputs, compared token by token with an independent reference tokenizer",
 "Tests fix one lexeme order and inputs without conflicts between lexemes.",
 ["src/tokenization.rs","src/lexeme/pattern.rs"],[("find_map over lexemes","src/tokenization.rs"),("Pattern::consume","src/lexeme/pattern.rs")])
p("C03","Literal sets always take the longest listed literal that the input starts with",
 "A set of literal spellings, whether used as a lexeme (punctuation or constant sets) or as a lexerless terminal (punctuation or constant fields), matches at a position if and only if the remaining input starts with one of its spellings, and then it consumes exactly the longest such spelling and yields the token or node registered for it. This holds whatever the order of registration and also when one spelling is a prefix of another and the input continues only part of the way towards the longer one.",
 ["inputs","configurations"],"all sets of spellings (prefix-related, shared prefixes, non-ASCII) x all remaining inputs",
 "Tests use one JavaScript-like punctuation table on inputs that never stop half-way to a longer spelling.",
 ["src/field_tree.rs","src/lexeme/punctuation.rs","src/lexeme/constants.rs","src/production/terminals/punctuation.rs","src/production/terminals/constant_field.rs"],[("prefix tree insert/find","src/field_tree.rs"),("length-sorted scan","src/lexeme/constants.rs, src/production/terminals/constant_field.rs")])
p("C04","Lexeme decorators change only what they promise",
 "A keyword mapping replaces a token's kind exactly when the token's whole text equals a mapped spelling; a functional mapping replaces it exactly by the function's answer; a guard suppresses its lexeme, with any state change it would make, exactly when the guard function says no. In every case the token's extent is that of the wrapped lexeme, the supplied functions see the whole source text and exactly the tokens already produced, and decorators compose in any nesting order.",
 ["inputs","configurations"],"all nestings of decorators over all base lexemes x all inputs x generated decision functions over (text, previous tokens)",
 "Each decorator has a single fixed example; nesting and dependence on the token history are never varied.",
 ["src/lexeme/mapper.rs","src/lexeme/middleware.rs","src/lexeme/mixin.rs","src/lexeme/builder.rs"],[("Mapper/ThunkMapper::consume","src/lexeme/mapper.rs"),("Middleware::consume","src/lexeme/middleware.rs")])
p("C05","State-based tokenization follows a stack machine",
 "A tokenizer with states behaves as a stack machine: the active lexeme set is the one registered for the top of the state stack, or the default set when the stack is empty. When a lexeme's token triggers an action, append pushes, remove pops, switch replaces the top (or pushes on an empty stack) and none leaves the stack alone; a discarded match keeps that stack effect but yields no token, so the next lexeme of the same set is tried at the same position, and the new active set applies from the next token on. Removing from an empty stack makes that match fail instead of aborting.",
 ["inputs","histories","configurations"],"all state tables, lexeme sets and action tables x all inputs (histories of pushes and pops)",
 "Tests cover one template-string lexer and one input; nesting depth, switch on empty stack, discard interplay and unbalanced input are not sampled.",
 ["src/tokenization.rs","src/lexeme/mixin.rs","src/lexeme/action.rs"],[("state stack and analyzer lookup","src/tokenization.rs"),("perform_state_action","src/lexeme/mixin.rs")],state=[("state stack","active lexing states","src/tokenization.rs")])
p("C06","A one-state combined tokenizer equals the plain tokenizer",
 "Giving the same lexemes to the plain tokenizer and, as the only state, to the state-based tokenizer yields identical token lists on every input, and identical failure positions. Registering further states that are never entered, in any order, changes nothing.",
 ["inputs","configurations"],"all lexeme lists without state actions x all inputs x registration orders of unused states",
 "The two tokenizers are tested separately on different inputs and never compared.",
 ["src/tokenization.rs"],[("two consume loops","src/tokenization.rs"),("add_state ordering","src/tokenization.rs")])
p("C07","Lexeme constructors reject ill-formed definitions and accept all others",
 "Building a lexeme reports an error, rather than succeeding or panicking, when its regular expression is invalid or can match the empty string, when a punctuation set contains an empty or repeated spelling, or when a keyword mapping repeats a spelling; every other definition is accepted. Consequently tokenization with any accepted set of lexemes terminates on every input, consuming at least one byte per token.",
 ["inputs","configurations"],"all lexeme definitions (expressions, spelling tables, mappings) x inputs",
 "Tests only construct well-formed lexemes.",
 ["src/lexeme/pattern.rs","src/lexeme/punctuation.rs","src/lexeme/mapper.rs","src/lexeme/constants.rs","src/field_tree.rs"],[("constructor checks","src/lexeme/*.rs"),("FieldTree::insert duplicate detection","src/field_tree.rs")])
p("C08","Lexerless parsing computes exactly the PEG meaning of the grammar",
 "For every grammar of the supported constructs that passes validation and every byte input, the lexerless parser succeeds exactly when the grammar's parsing-expression (ordered choice, greedy repetition, backtracking) semantics succeeds from offset 0, and the returned tree list equals the one that semantics prescribes: node values, nesting, order and byte extents. Otherwise it returns an error of the kind the semantics prescribes.",
 ["inputs","programs"],"all validated grammars over literal, literal-set, regex, EOF and null terminals and all combinators x all byte inputs",
 "Tests parse a handful of JSON-like samples with one hand-written grammar and mostly print the tree.",
 NT+WR+TM+["src/parsing.rs"],[("advance_ptr of every production","src/production/**"),("LexerlessParser::parse","src/parsing.rs")])
p("C09","Tokenized parsing computes exactly the PEG meaning over structural tokens",
 "For every tokenizer and every validated grammar over its tokens, the tokenized parser succeeds on an input exactly when the grammar's parsing-expression semantics over the stream of structural tokens does, with the look-behind into skipped tokens only where the grammar asks for it. The returned tree list equals the prescribed one: values, nesting, order, byte extents and token bounds; otherwise an error of the prescribed kind is returned.",
 ["inputs","programs","configurations"],"all tokenizers x all validated grammars x all inputs, compared with an independent reference interpreter",
 "Tests parse a few tutorial grammars on one input each.",
 NT+WR+TM+["src/parsing.rs","src/filtered_stream.rs"],[("advance_fltr_ptr of every production","src/production/**"),("DefaultParser::parse","src/parsing.rs"),("TokenStream::from","src/filtered_stream.rs")])
p("C10","Choice is ordered: the first alternative that parses wins, whatever the lookup",
 "An alternation yields exactly the result of its first alternative, in list order, that parses at the current position, and fails only when all fail. Pre-selecting alternatives by the next token never changes this outcome: not with optional or empty alternatives, lookaheads, shared first tokens, or alternatives that look at skipped tokens.",
 ["inputs","programs"],"all alternations (overlapping first tokens, nullable, zero-width, skipped-token alternatives) x token contexts, tokenized and lexerless",
 "The union tests have alternatives with distinct first tokens, so the preselection and its fall-backs are never in conflict with list order.",
 ["src/production/non_terminals/union.rs","src/production/non_terminals/mod.rs"]+WR,[("first-set dispatch","src/production/non_terminals/union.rs"),("impl_first_set / is_nullable","src/production/**")])
p("C11","Repetition is greedy, needs one element, and always terminates",
 "A repetition matches one or more consecutive elements greedily and stops without consuming at the first failing element. A separated repetition matches elements with a separator between each two, keeps a trailing separator exactly when configured to and otherwise leaves it unconsumed; neither ever loops when an element or separator matches emptily, and all element and separator nodes appear in input order.",
 ["inputs","programs"],"all element/separator productions (multi-token, nullable, backtracking) x flags x inputs",
 "Tests use a single-token element and separator with well-formed lists.",
 ["src/production/wrappers/list.rs","src/production/wrappers/separated_list.rs"],[("List::consume","src/production/wrappers/list.rs"),("SeparatedList::consume","src/production/wrappers/separated_list.rs")])
p("C12","Suffixes factor out a common left part without changing the language",
 "A left part with a list of suffixes parses like the ordered choice of 'left suffix_i' wrapped as the node given for i, then (only if allowed to stand alone) 'left' unwrapped: the first suffix that parses after the left part decides the node, and the node spans from the start of the left part to the end of the suffix. The children are those of the left part followed by those of the suffix.",
 ["inputs","programs"],"all left parts and suffix lists (nullable, overlapping, skipped-token suffixes) x standalone flag x inputs; also metamorphic comparison with the expanded choice",
 "The one suffix test is an expression grammar on one input.",
 ["src/production/non_terminals/suffixes.rs"],[("Suffixes::advance_*","src/production/non_terminals/suffixes.rs"),("suffix first-set dispatch","src/production/non_terminals/suffixes.rs")])
p("C13","Optional, null, hidden, node and lookahead constructs have exact effects",
 "An optional construct yields its content's result or, if that fails, exactly one zero-width null node (none when hidden) without consuming; a hidden construct yields no nodes but consumes the same; a node construct wraps the children in one node spanning the consumed range; a lookahead succeeds exactly when its content does, consumes nothing and yields at most its one zero-width node. Failures inside any of them leave no trace in the tree.",
 ["inputs","programs"],"all nestings of these constructs over all contents x inputs, tokenized and lexerless",
 "Each wrapper has one example whose printed tree is not asserted.",
 ["src/production/wrappers/nullable.rs","src/production/wrappers/hidden.rs","src/production/wrappers/node.rs","src/production/wrappers/look_ahead.rs","src/production/terminals/null.rs","src/production/terminals/eof.rs"],[("advance_* of each wrapper","src/production/wrappers/*.rs")])
p("C14","Every returned tree is well nested, ordered and consistent with the tokens",
 "In every tree returned by a parser for a grammar without skipped-token constructs, a node's extent lies within the input and has start not after end, children lie inside their parent's extent in input order without overlap. With a tokenizer every node, also one of a skipped-token construct, carries a token range whose ends point at existing tokens and whose first and last token boundaries are the node's byte extents, so leaf nodes cover exactly the tokens they were built from.",
 ["inputs","programs"],"all validated grammars without skipped-token constructs x all accepted inputs",
 "Tests print trees; no test checks extents or token ranges.",
 ["src/ast_node.rs","src/filtered_stream.rs"]+NT+["src/production/wrappers/node.rs","src/production/terminals/token_field.rs"],[("node construction","src/production/**"),("bounds","src/filtered_stream.rs create_node")])
p("C15","A validation error ends the parse and is reported verbatim",
 "When a user validation function that is asked rejects a parsed part with a validation error, parsing stops at once: no alternative, optional, repetition, lookahead or cached construct around it may recover, and the parser returns an error carrying exactly the pointer given by the function and its message. When the function answers 'not parsed' instead, the part simply fails and ordinary backtracking goes on; the function always receives exactly the nodes of that part and the whole source.",
 ["inputs","programs","fault_sequences"],"all placements of validators in grammars x all rejection decisions x inputs",
 "One validation test with one validator at one place.",
 ["src/production/wrappers/validated.rs"]+NT+["src/production/wrappers/list.rs","src/production/wrappers/separated_list.rs","src/production/wrappers/nullable.rs","src/production/wrappers/cache.rs","src/cache.rs"],[("is_invalid propagation in every combinator","src/production/**"),("create_error","src/cache.rs")])
p("C16","Syntax errors point at the furthest failure and describe it correctly",
 "When no alternative parses the input, the error's pointer is the place where the parse could not get further: for lexerless parsing the furthest byte reached by any matched terminal, for tokenized parsing the start of the first structural token at or after the end of the furthest matched token. The message is valid text that names the line and column of that pointer and quotes the offending character or token, or says end of file exactly when the pointer is at the end of input.",
 ["inputs","programs"],"all validated grammars x all rejected inputs (incl. non-ASCII and adjacent tokens)",
 "Error paths are almost untested; no test looks at the pointer.",
 ["src/cache.rs","src/code.rs","src/position.rs","src/error.rs"]+TM,[("max_parsed_point tracking","src/cache.rs, terminals"),("create_error","src/cache.rs")],state=[("max_parsed_point","furthest end of a matched terminal","src/cache.rs")])
p("C17","Any bytes given to a validated parser end in a result, never a panic or hang",
 "For every grammar and tokenizer accepted by the constructors (caching used outside skipped-token constructs, every state named by an action registered) and every byte string, including invalid UTF-8, control bytes and deeply nested or very long inputs within the stack, tokenizing and parsing return a result or an error after a bounded number of steps. They never panic, overflow, index out of range or loop, and the error text is always valid UTF-8.",
 ["inputs","programs"],"all byte strings x all validated grammars and tokenizers (debug assertions and overflow checks on)",
 "All tests use well-formed ASCII inputs.",
 LEX+NT+WR+TM+["src/cache.rs","src/code.rs","src/parsing.rs"],[("progress guards and bounds","src/production/**, src/tokenization.rs"),("error construction","src/cache.rs")])
p("C18","Grammar validation rejects exactly left-recursive or unfinished grammars",
 "Constructing a parser succeeds if and only if every reachable rule has been given its symbols and no rule can reach itself again without consuming input; otherwise an error is returned. Order and sharing of rules and the constructs in between (optional, repeated, separated, lookahead, suffix, hidden, cached) do not matter, so no accepted grammar can recurse forever. The error names a rule that is left-recursive or unfinished.",
 ["programs"],"all rule graphs over all constructs, including unreachable-at-first, mutually recursive and nullable-prefix recursion",
 "Two tests check two fixed left-recursive grammars (both fail on the original tree).",
 ["src/production/non_terminals/mod.rs"]+NT+["src/production/wrappers/separated_list.rs","src/production/wrappers/look_ahead.rs","src/production/wrappers/non_structural.rs","src/parsing.rs"],[("validate / has_visited / obtain_nullability","src/production/non_terminals/*.rs")])
p("C19","Caching a production never changes what a parse returns",
 "Wrapping any productions of a grammar (outside skipped-token constructs) in the cache construct leaves every parse outcome unchanged: same trees, same error kind and same error position, on every input. A cached production is evaluated at most once per position within a parse, and nothing is carried over to the next parse.",
 ["inputs","programs","histories"],"all grammars x all subsets of productions cached x inputs x sequences of parses",
 "No test uses the cache construct (its key cannot be built publicly).",
 ["src/production/wrappers/cache.rs","src/cache.rs"],[("Cacheable::advance_*","src/production/wrappers/cache.rs"),("Cache::find/insert","src/cache.rs")],hook="constructor for the cache key (cfg verif_hooks)",state=[("parsed_result_cache","memo table","src/cache.rs")])
p("C20","Skipped tokens never influence a purely structural parse",
 "If a grammar has no construct that looks at skipped (non-structural) tokens and no validation function, inserting, deleting or changing such tokens between structural tokens changes neither acceptance nor tree shape nor node values. Each node still starts at its first structural token, and positions move exactly with the tokens.",
 ["inputs","programs"],"all structural grammars x inputs x all ways of interspersing trivia",
 "Tests contain one layout per sample.",
 ["src/filtered_stream.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs","src/production/terminals/token_field.rs"],[("filtered stream","src/filtered_stream.rs")])
p("C21","Skipped-token constructs see exactly the skipped tokens before the position",
 "A construct that parses skipped tokens is applied to the raw tokens directly following the previously consumed structural token (or the very first tokens of the input when nothing has been consumed), and never consumes structural tokens: parsing continues at the same structural token. With the fill-range flag it succeeds only if its content ends exactly at the next structural token; inside alternations and suffixes it is considered in its listed order.",
 ["inputs","programs"],"all contents and placements of such constructs x all trivia layouts incl. start of input",
 "One example (line-break statement terminator) on one input.",
 ["src/production/wrappers/non_structural.rs","src/production/wrappers/structural.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs","src/filtered_stream.rs"],[("NonStructural::advance_fltr_ptr","src/production/wrappers/non_structural.rs"),("adjacent-token dispatch","src/production/non_terminals/union.rs")])
p("C22","Parsers are reusable: results do not depend on earlier use",
 "Parsing is a function of the input alone: after any history of parses, failed parses, tokenizations, debug parses, grammar print-outs or validations on the same parser, each input gives the same outcome as with a freshly built parser, and repeating it gives the same outcome again.",
 ["histories","inputs","programs"],"all sequences of operations on one parser vs. fresh parsers",
 "Every test builds a parser and uses it once.",
 ["src/parsing.rs","src/cache.rs","src/production/non_terminals/union.rs","src/production/non_terminals/suffixes.rs"],[("per-parse cache","src/parsing.rs"),("lazily built first sets and nullability","src/production/non_terminals/*.rs")],state=[("lazy cells","first sets, nullability","src/production/mod.rs")])
p("C23","Logging and build profile do not affect results",
 "Attaching debug logs of any level to any productions, lexemes or tokenizers changes neither results nor errors. Builds with and without debug assertions return the same tokens, trees, error kinds and error positions on every input for validated grammars.",
 ["configurations","inputs","programs"],"all placements and levels of logs x grammars x inputs; debug vs. release build",
 "Logs are only ever printed in tests; tests run in one profile.",
 ["src/logger.rs","src/production/mod.rs","src/lexeme/mod.rs"]+NT+WR,[("log_* helpers, cfg(debug_assertions) blocks","src/production/mod.rs, src/lexeme/mod.rs")])
p("C24","Line and column of a byte offset are exact",
 "For every byte string and every offset up to its length, the reported line is one plus the number of newline bytes before the offset and the column is one plus the number of bytes since the last newline before it. The position computed from the text before an offset is the same, repeated or interleaved queries on one source agree, the list of line breaks is the list of newline bytes, and a printed position names its line and column.",
 ["inputs","histories"],"all byte strings x all offsets x query orders",
 "Positions are only printed, never asserted, in tests.",
 ["src/code.rs","src/position.rs"],[("obtain_line_breaks / obtain_position","src/code.rs"),("Position::from","src/position.rs")])
p("C25","The shipped JSON grammars accept exactly their language, and agree",
 "Both shipped JSON parsers (with and without tokenizer) accept every well-formed JSON text with non-negative numbers, and accept exactly the language of their documented rules on all other inputs; they return trees with one node per object, array, member, key and scalar in document order whose text is the scalar's exact source slice. On inputs both accept, the two trees have the same shape and values.",
 ["inputs"],"generated JSON documents with arbitrary layout and nesting, and mutations of them",
 "Tests parse three fixed documents.",
 ["src/examples/json/tokenized.rs","src/examples/json/lexerless.rs"],[("json grammars","src/examples/json")])
p("C26","The same grammar gives the same parse with and without a tokenizer",
 "If every token of a grammar is a fixed spelling that no other token's spelling can be confused with, and there are no skipped tokens, then, on every input made of such spellings, the tokenized and the lexerless parser built from the same rules agree in acceptance and return trees with equal node values, nesting and byte extents.",
 ["inputs","programs"],"all grammars over unambiguous literal tokens x all inputs",
 "No test relates the two parsers.",
 NT+WR+["src/production/terminals/token_field.rs","src/production/terminals/constant_field.rs","src/parsing.rs"],[("three advance modes per production","src/production/**")])
p("C27","Debug parsing at an offset equals parsing that rule from there",
 "Running a registered production at a byte offset returns exactly what that production yields when the parser reaches that offset (for tokenized parsing: the first structural token at or after it), independent of the text before it. Failures report the same kind and position rules as a full parse, and an unregistered name is an error naming it, not a panic.",
 ["inputs","programs"],"all registered rules x all offsets within the input x inputs",
 "Two debug tests per JSON grammar at offset 0.",
 ["src/parsing.rs","src/cache.rs"],[("debug_production_at / debug_parser_at","src/parsing.rs")])
p("C28","The printed grammar is complete",
 "The textual grammar of a parser contains one definition for every rule (and every named terminal) reachable from the root, exactly once and ended by a semicolon, and every symbol mentioned in a definition's alternatives appears there in order, so no referenced rule is left undefined. A tokenizer's printed form lists every lexeme's token with its pattern or spelling; printing always succeeds and terminates, also for recursive grammars.",
 ["programs","configurations"],"all validated grammars and tokenizers",
 "Printed grammars are never asserted on.",
 NT+WR+TM+["src/tokenization.rs","src/parsing.rs"],[("impl_grammar / build_grammar / Display","src/production/**, src/tokenization.rs")])
p("C29","Tree queries agree with a plain pre-order traversal",
 "For every tree, the search helpers return what a pre-order walk defines: the first match including the node itself, all matches in pre-order, the first direct child of a kind, membership anywhere in the tree, and for a path of kinds the successive first matches. Query results refer to nodes of the tree itself. The text a tree prints as names kind, start and end of every node in pre-order.",
 ["inputs"],"all trees x all predicates, kinds and kind paths",
 "Only one helper is used in one test.",
 ["src/ast_node.rs"],[("find_tree*, list_tree*, get_child, contains","src/ast_node.rs")])
p("C30","Token stream accessors agree with the token list",
 "For every token list, the stream of structural tokens contains exactly the structural tokens in order, and each accessor (by structural index, by raw index, by byte offset, lengths, iterators and ranges, index conversions) returns what the list defines. Look-ups by offset report an exact hit only when a token starts there, and otherwise the next token. A node created over structural positions has their extents and token range, and pointers print, compare, add and subtract like the numbers they stand for.",
 ["inputs"],"all token lists from tokenizing generated inputs x all indices and offsets within range",
 "Accessors are exercised only indirectly.",
 ["src/filtered_stream.rs"],[("TokenStream accessors","src/filtered_stream.rs")])
p("C31","Builder shorthands and deferred definitions equal direct construction",
 "Every builder shorthand on lexemes and productions yields something that behaves identically, on every input, to constructing the same thing directly, and assigning symbols or suffixes after creation behaves like giving them at creation. Assigning twice is refused and leaves the first definition in force.",
 ["programs","inputs"],"all grammars built by both routes x inputs",
 "Tests use either route but never compare them.",
 ["src/production/builder.rs","src/lexeme/builder.rs"]+NT,[("into_* / builder methods","src/production/builder.rs, src/lexeme/builder.rs"),("init + set_symbols","src/production/non_terminals/*.rs")])
p("C32","A supplied token list alone decides the outcome of a tokenized parse",
 "For every list of tokens in source order that ends with the end-of-file token (gaps between tokens allowed), and every choice of which of them, the last one included, are structural, parsing that stream gives exactly the trees, extents, token ranges and error offsets that the ordered-choice semantics prescribes over those tokens: structural constructs see only the chosen tokens, skipped-token constructs see the others, and neither re-reads the source to decide what a token is. Parsing with the default choice is the same as parsing with the choice the token type declares, and a tokenizer written by the user that returns the list gives the same outcome as passing the list by hand.",
 ["inputs","programs","configurations"],"all grammars x all sources x all token lists over them x all structural choices",
 "Tests only parse streams produced by one fixed tokenizer with the default choice of structural tokens.",
 NT+WR+TM+["src/filtered_stream.rs","src/parsing.rs"],[("DefaultParser::parse_stream / parse","src/parsing.rs"),("TokenStream::new / From<&Vec<Lex>>","src/filtered_stream.rs"),("advance_fltr_ptr / advance_token_ptr","src/production/**")])
p("C33","Outcomes do not depend on which types represent tokens and nodes",
 "For every grammar, tokenizer and input, replacing the token type, the node type and the tokenizer's state type by other types that stand for the same kinds gives the same tokens, trees, extents and error offsets, up to that replacement. This covers the integer types for which the library itself provides token and node implementations (the largest value is the end of file, negative values are not structural, zero is the null node), enumerations, and types whose order, hash or debug text is unhelpful: only equality, the declared end-of-file value, the declared structural predicate and the declared null node may matter.",
 ["programs","inputs","configurations"],"all grammars and tokenizers x all inputs x all implementations of the token, node and state traits",
 "Tests use one token and one node enumeration per grammar; the provided integer implementations are used by lexerless tests only, where no token exists.",
 ["src/impl_default.rs"]+NT+WR+TM+["src/tokenization.rs","src/lexeme/**","src/filtered_stream.rs"],[("TokenImpl / NodeImpl","src/lib.rs"),("provided implementations","src/impl_default.rs"),("generic parameters TToken, TNode, TState","src/**")])
p("C34","Productions called at any position report exactly what they consume",
 "For every grammar, any of its productions can be called directly at any position: at any byte of the source, at any structural token, or at any token whatsoever, and in any order with one shared result cache. Each call gives the nodes and the position after the consumed part that the ordered-choice semantics prescribes for that production at that position, or reports 'not parsed', or the validation error that was raised. Earlier calls never change the answer of later ones; they only move the furthest position reached, which never moves back and is where an error built from the cache points.",
 ["programs","inputs","histories"],"all grammars x all inputs x all sequences of (production, position, kind of position)",
 "Tests call productions from the first position of a fresh cache and mostly look at the nodes only.",
 NT+WR+TM+["src/cache.rs","src/success_data.rs","src/wrapper_index.rs"],[("IProduction::advance_ptr / advance_fltr_ptr / advance_token_ptr","src/production/**"),("SuccessData","src/success_data.rs"),("Cache::get_index / update_index / create_error","src/cache.rs")])
p("C35","Nullability and first tokens cover everything a production can match",
 "A production that can succeed without consuming anything, at any position of any input, says that it is nullable, by either of the two ways to ask. A production that says it is not nullable and succeeds at some position of a token stream lists, in its first set, the token found there (the next structural token, or a skipped token in front of it). The answers do not depend on the order in which productions are asked, before or after parsing.",
 ["programs","inputs"],"all grammars x all positions of all inputs, as bytes, structural tokens and all tokens",
 "Tests never ask productions for these; parsing only shows mistakes when a choice is decided by them.",
 NT+WR+TM,[("IProduction::is_nullable / obtain_nullability / impl_first_set","src/production/**")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
