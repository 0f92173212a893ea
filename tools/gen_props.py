#!/usr/bin/env python3
"""Writes harness/src/props.rs: per property the run counts, the rule, the assumptions."""
import json,os
R=[]
def q(id,run,quick,rule,assume=(),mult=12): R.append((id,run,quick,quick*mult,rule,list(assume)))
K=1000; M=1000*K
PAT="regular expressions start with ^, as the documentation asks"
STATES="every state named by an action is registered, each once (an unregistered state is refused by a panic in the library)"
PURE="user supplied functions are pure functions of their arguments"
NEST="no skipped-token construct is nested inside another one"
CACHE="the cache construct is not used inside skipped-token constructs (the library refuses that by a panic in debug builds)"
GRAM="a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random"
LEXR="a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes"
q("C01","p_lex::c01",800*K,LEXR+", states and discarding lexemes included; non-trivial: some input gave at least three tokens, or failed after at least three bytes",[PAT,STATES,PURE])
q("C02","p_lex::c02",1*M,LEXR+"; non-trivial: an accepted input with at least three tokens on which a lexeme other than the first one won somewhere",[PAT,PURE])
q("C03","p_lex::c03",6*M,"a random set of prefix-related spellings, used as lexeme and as terminal, and inputs that follow a spelling part of the way; non-trivial: at some position a listed literal matched while a longer listed literal shares it as a prefix",["the spellings of one set are distinct and not empty"])
q("C04","p_lex::c04",1*M,LEXR+", with nested decorators whose decisions are random functions of text and token history; non-trivial: the tokenizer has a decorated lexeme and an accepted input has at least three tokens",[PAT,PURE])
q("C05","p_lex::c05",700*K,LEXR+", with 1-4 states and random action tables; non-trivial: an input with at least two stack changes and a non-empty stack on the way",[PAT,STATES,PURE,"an action list names each token once"])
q("C06","p_lex::c06",450*K,LEXR+", built as plain and as state-based tokenizer with further unused states in random order; non-trivial: further states are registered and an accepted input has at least three tokens",[PAT,PURE])
q("C07","p_lex::c07",1*M,"random lexeme definitions, ill-formed ones included (broken or empty-matching expressions, empty or repeated spellings); non-trivial: the case contains an ill-formed and a well-formed definition",["patterns without look-around assertions other than the leading ^"])
q("C24","p_lex::c24",8*M,"random bytes with many newlines, all offsets in random order; non-trivial: source with at least two newlines and five bytes")
q("C30","p_lex::c30",8*M,"a random token list (gaps, long lists and lists without end-of-file token included) and random queries; non-trivial: at least two skipped and three structural tokens",["the tokens of a list are in source order and do not overlap"])
q("C08","p_gram::c08",1500*K,GRAM+"; non-trivial: an accepted input with at least two bytes consumed and three nodes",[PURE])
q("C09","p_gram::c09",1*M,GRAM+", over a fixed or a random tokenizer (of the harness or of the library); non-trivial: an accepted input with at least two structural tokens consumed and three nodes",[PURE,NEST])
q("C10","p_gram::c10",1500*K,GRAM+", biased to alternations; non-trivial: an accepted input with at least two units consumed, three nodes, and an alternation resolved by a later alternative",[PURE,NEST])
q("C11","p_gram::c11",1200*K,GRAM+", biased to repetitions; non-trivial: an accepted input with at least two units consumed, three nodes, and a repetition that matched",[PURE,NEST])
q("C12","p_gram::c12",1400*K,GRAM+", biased to suffixes; non-trivial: an accepted input with at least two units consumed, three nodes, and a suffix that matched",[PURE,NEST])
q("C13","p_gram::c13",1500*K,GRAM+", biased to optional, null, hidden, node and lookahead constructs; non-trivial: an accepted input with at least two units consumed, three nodes, and such a construct that took part",[PURE,NEST])
q("C14","p_gram::c14",1200*K,GRAM+"; non-trivial: an accepted input whose tree has at least four nodes and a nested one",["grammars without skipped-token constructs"])
q("C15","p_gram::c15",1500*K,GRAM+", with validation functions whose answers are random functions of nodes and source; non-trivial: a parse of more than four steps ended by a validation error, or an accepted input on which some function answered 'not parsed'",[PURE,"tokenized grammars: a function whose part can be empty is not required to be called (its alternative may be skipped by the next token)"])
q("C16","p_gram::c16",1400*K,GRAM+", rejected inputs with non-ASCII text; non-trivial: a syntax error strictly inside the input, after more than one byte and three evaluation steps")
q("C18","p_gram::c18",3*M,"a random rule graph, with unfinished rules and left recursion through any construct; non-trivial: at least two rules are reachable",[NEST,"a skipped-token construct whose content returns to structural tokens and reaches the rule itself again is a recorded finding and not generated"])
q("C19","p_gram::c19",1*M,GRAM+", every subset of productions cached, several parses; non-trivial: a parse of more than five steps that uses some cached production twice at one position",[PURE,CACHE])
q("C20","p_gram::c20",900*K,GRAM+", two token layouts of one input; non-trivial: an accepted input with at least three nodes whose two versions differ in the number of tokens",["grammars without skipped-token constructs and without validation functions"])
q("C21","p_gram::c21",1200*K,GRAM+", biased to skipped-token constructs; non-trivial: an accepted input with skipped tokens, at least two structural tokens consumed, three nodes, and a skipped-token construct that matched",[PURE,NEST])
q("C22","p_gram::c22",650*K,GRAM+", a random history of operations (parse, tokenize, debug parse, print, validate) on one parser; non-trivial: a history with at least three different answers",[PURE])
q("C23","p_gram::c23",300*K,GRAM+", logs of random levels attached, and every case run again in a build without debug assertions; non-trivial: an accepted input with two units and three nodes, or a syntax error after more than one byte",[PURE,CACHE])
q("C26","p_gram::c26",2500*K,"a random grammar over fixed, unambiguous spellings built as tokenized and as lexerless parser; non-trivial: an accepted input with at least two bytes consumed and three nodes",["inputs are sequences of the tokens' spellings"])
q("C27","p_gram::c27",900*K,GRAM+", all rules registered, random offsets, plus debug parses of the shipped JSON parsers; non-trivial: a debug parse at an offset above 0 that consumed something and gave two nodes, or failed after its start",[PURE])
q("C31","p_gram::c31",700*K,GRAM+" (or a random tokenizer) built by two routes; non-trivial: an accepted input with two units and three nodes, or a syntax error after more than two bytes",[PURE])
q("C32","p_gram::c32",700*K,"a random grammar, and token lists made from its inputs by renaming kinds, dropping, shortening and joining tokens, and changing which of them are structural; non-trivial: an accepted list with gaps or with a structural choice other than the default one, at least two structural tokens consumed and three nodes",[PURE,NEST,"token lists are in source order, every token but the last is not empty, and the last one is the only end-of-file token, at the end of the source and always structural"])
q("C33","p_gram::c33",700*K,GRAM+" (tokenized by the library or by the harness, or lexerless), built with one of nine other choices of token, node and tokenizer state types: the integer types of the library, an enumeration, and types that are ordered backwards, hash to one value or print as nothing; non-trivial: an accepted input with at least two units consumed and three nodes",[PURE,NEST])
q("C34","p_gram::c34",500*K,GRAM+", and a random history of rules called at random positions (byte, structural token, any token) with one result cache; non-trivial: at least two calls behind the first position that consume two or more units and give a node",[PURE,NEST,CACHE])
q("C35","p_gram::c35",600*K,GRAM+", every rule asked for its nullability and first tokens in random order, and matched at every position of three inputs; non-trivial: at least four matches that consume something and an empty one",[PURE,NEST])
q("C17","p_more::c17",200*K,"arbitrary bytes (invalid UTF-8, control bytes, near-grammar text) for random tokenizers and grammars, one case in some deeply nested or very long; non-trivial: a parse of more than three steps of an input that is not UTF-8, tokenizing more than eight bytes that are not UTF-8, a nested or long parse (over 60 levels or 300 steps), or over 20 bytes given to the shipped JSON parsers",[PURE,STATES,CACHE])
q("C25","p_json::c25",3*M,"a random JSON document in a random layout, possibly mutated, compared with an independent recognizer and builder of the documented rules; non-trivial: an accepted document with at least four nodes",["the documented rules of the examples are those of their grammar comments and lexeme patterns"])
q("C28","p_more::c28",800*K,"a random grammar with random rule names, and a random tokenizer; non-trivial: at least three definitions are printed",[NEST])
q("C29","p_more::c29",3*M,"a random tree and random queries; non-trivial: a tree of at least four nodes and a query with several matches")
reg=set()
src=open(os.path.join(os.path.dirname(__file__),"../harness/src/regress.rs")).read() if os.path.exists(os.path.join(os.path.dirname(__file__),"../harness/src/regress.rs")) else ""
with open(os.path.join(os.path.dirname(__file__),"../harness/src/props.rs"),"w") as f:
    f.write("//! The table of properties (written by tools/gen_props.py).\nuse crate::engine::Prop;\nuse crate::*;\n\npub static ALL: &[Prop] = &[\n")
    for id,run,a,b,rule,ass in R:
        r="regress::%s"%id if "pub static %s:"%id in src else "&[]"
        f.write("    Prop {\n        id: %s,\n        quick: %d,\n        thorough: %d,\n        rule: %s,\n        assumptions: &[%s],\n        run: %s,\n        regress: %s,\n    },\n"%(json.dumps(id),a,b,json.dumps(rule),", ".join(json.dumps(x) for x in ass),run,r))
    f.write("];\n")
