//! The table of properties (written by tools/gen_props.py).
use crate::engine::Prop;
use crate::*;

pub static ALL: &[Prop] = &[
    Prop {
        id: "C01",
        quick: 800000,
        thorough: 9600000,
        rule: "a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes, states and discarding lexemes included; non-trivial: some input gave at least three tokens, or failed after at least three bytes",
        assumptions: &["regular expressions start with ^, as the documentation asks", "every state named by an action is registered, each once (an unregistered state is refused by a panic in the library)", "user supplied functions are pure functions of their arguments"],
        run: p_lex::c01,
        regress: regress::C01,
    },
    Prop {
        id: "C02",
        quick: 1000000,
        thorough: 12000000,
        rule: "a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes; non-trivial: an accepted input with at least three tokens on which a lexeme other than the first one won somewhere",
        assumptions: &["regular expressions start with ^, as the documentation asks", "user supplied functions are pure functions of their arguments"],
        run: p_lex::c02,
        regress: &[],
    },
    Prop {
        id: "C03",
        quick: 6000000,
        thorough: 72000000,
        rule: "a random set of prefix-related spellings, used as lexeme and as terminal, and inputs that follow a spelling part of the way; non-trivial: at some position a listed literal matched while a longer listed literal shares it as a prefix",
        assumptions: &["the spellings of one set are distinct and not empty"],
        run: p_lex::c03,
        regress: regress::C03,
    },
    Prop {
        id: "C04",
        quick: 1000000,
        thorough: 12000000,
        rule: "a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes, with nested decorators whose decisions are random functions of text and token history; non-trivial: the tokenizer has a decorated lexeme and an accepted input has at least three tokens",
        assumptions: &["regular expressions start with ^, as the documentation asks", "user supplied functions are pure functions of their arguments"],
        run: p_lex::c04,
        regress: &[],
    },
    Prop {
        id: "C05",
        quick: 700000,
        thorough: 8400000,
        rule: "a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes, with 1-4 states and random action tables; non-trivial: an input with at least two stack changes and a non-empty stack on the way",
        assumptions: &["regular expressions start with ^, as the documentation asks", "every state named by an action is registered, each once (an unregistered state is refused by a panic in the library)", "user supplied functions are pure functions of their arguments", "an action list names each token once"],
        run: p_lex::c05,
        regress: regress::C05,
    },
    Prop {
        id: "C06",
        quick: 450000,
        thorough: 5400000,
        rule: "a random tokenizer (patterns, literal sets, constants, decorators) and inputs spelled from its own lexemes, mutated, or random bytes, built as plain and as state-based tokenizer with further unused states in random order; non-trivial: further states are registered and an accepted input has at least three tokens",
        assumptions: &["regular expressions start with ^, as the documentation asks", "user supplied functions are pure functions of their arguments"],
        run: p_lex::c06,
        regress: &[],
    },
    Prop {
        id: "C07",
        quick: 1000000,
        thorough: 12000000,
        rule: "random lexeme definitions, ill-formed ones included (broken or empty-matching expressions, empty or repeated spellings); non-trivial: the case contains an ill-formed and a well-formed definition",
        assumptions: &["patterns without look-around assertions other than the leading ^"],
        run: p_lex::c07,
        regress: regress::C07,
    },
    Prop {
        id: "C24",
        quick: 8000000,
        thorough: 96000000,
        rule: "random bytes with many newlines, all offsets in random order; non-trivial: source with at least two newlines and five bytes",
        assumptions: &[],
        run: p_lex::c24,
        regress: regress::C24,
    },
    Prop {
        id: "C30",
        quick: 8000000,
        thorough: 96000000,
        rule: "a random token list (gaps, long lists and lists without end-of-file token included) and random queries; non-trivial: at least two skipped and three structural tokens",
        assumptions: &["the tokens of a list are in source order and do not overlap"],
        run: p_lex::c30,
        regress: regress::C30,
    },
    Prop {
        id: "C08",
        quick: 1500000,
        thorough: 18000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random; non-trivial: an accepted input with at least two bytes consumed and three nodes",
        assumptions: &["user supplied functions are pure functions of their arguments"],
        run: p_gram::c08,
        regress: &[],
    },
    Prop {
        id: "C09",
        quick: 1000000,
        thorough: 12000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, over a fixed or a random tokenizer (of the harness or of the library); non-trivial: an accepted input with at least two structural tokens consumed and three nodes",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c09,
        regress: &[],
    },
    Prop {
        id: "C10",
        quick: 1500000,
        thorough: 18000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, biased to alternations; non-trivial: an accepted input with at least two units consumed, three nodes, and an alternation resolved by a later alternative",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c10,
        regress: regress::C10,
    },
    Prop {
        id: "C11",
        quick: 1200000,
        thorough: 14400000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, biased to repetitions; non-trivial: an accepted input with at least two units consumed, three nodes, and a repetition that matched",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c11,
        regress: regress::C11,
    },
    Prop {
        id: "C12",
        quick: 1400000,
        thorough: 16800000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, biased to suffixes; non-trivial: an accepted input with at least two units consumed, three nodes, and a suffix that matched",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c12,
        regress: regress::C12,
    },
    Prop {
        id: "C13",
        quick: 1500000,
        thorough: 18000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, biased to optional, null, hidden, node and lookahead constructs; non-trivial: an accepted input with at least two units consumed, three nodes, and such a construct that took part",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c13,
        regress: &[],
    },
    Prop {
        id: "C14",
        quick: 1200000,
        thorough: 14400000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random; non-trivial: an accepted input whose tree has at least four nodes and a nested one",
        assumptions: &["grammars without skipped-token constructs"],
        run: p_gram::c14,
        regress: &[],
    },
    Prop {
        id: "C15",
        quick: 1500000,
        thorough: 18000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, with validation functions whose answers are random functions of nodes and source; non-trivial: a parse of more than four steps ended by a validation error, or an accepted input on which some function answered 'not parsed'",
        assumptions: &["user supplied functions are pure functions of their arguments", "tokenized grammars: a function whose part can be empty is not required to be called (its alternative may be skipped by the next token)"],
        run: p_gram::c15,
        regress: &[],
    },
    Prop {
        id: "C16",
        quick: 1400000,
        thorough: 16800000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, rejected inputs with non-ASCII text; non-trivial: a syntax error strictly inside the input, after more than one byte and three evaluation steps",
        assumptions: &[],
        run: p_gram::c16,
        regress: regress::C16,
    },
    Prop {
        id: "C18",
        quick: 3000000,
        thorough: 36000000,
        rule: "a random rule graph, with unfinished rules and left recursion through any construct; non-trivial: at least two rules are reachable",
        assumptions: &["no skipped-token construct is nested inside another one", "a skipped-token construct whose content returns to structural tokens and reaches the rule itself again is a recorded finding and not generated"],
        run: p_gram::c18,
        regress: regress::C18,
    },
    Prop {
        id: "C19",
        quick: 1000000,
        thorough: 12000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, every subset of productions cached, several parses; non-trivial: a parse of more than five steps that uses some cached production twice at one position",
        assumptions: &["user supplied functions are pure functions of their arguments", "the cache construct is not used inside skipped-token constructs (the library refuses that by a panic in debug builds)"],
        run: p_gram::c19,
        regress: &[],
    },
    Prop {
        id: "C20",
        quick: 900000,
        thorough: 10800000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, two token layouts of one input; non-trivial: an accepted input with at least three nodes whose two versions differ in the number of tokens",
        assumptions: &["grammars without skipped-token constructs and without validation functions"],
        run: p_gram::c20,
        regress: &[],
    },
    Prop {
        id: "C21",
        quick: 1200000,
        thorough: 14400000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, biased to skipped-token constructs; non-trivial: an accepted input with skipped tokens, at least two structural tokens consumed, three nodes, and a skipped-token construct that matched",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c21,
        regress: regress::C21,
    },
    Prop {
        id: "C22",
        quick: 650000,
        thorough: 7800000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, a random history of operations (parse, tokenize, debug parse, print, validate) on one parser; non-trivial: a history with at least three different answers",
        assumptions: &["user supplied functions are pure functions of their arguments"],
        run: p_gram::c22,
        regress: &[],
    },
    Prop {
        id: "C23",
        quick: 300000,
        thorough: 3600000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, logs of random levels attached, and every case run again in a build without debug assertions; non-trivial: an accepted input with two units and three nodes, or a syntax error after more than one byte",
        assumptions: &["user supplied functions are pure functions of their arguments", "the cache construct is not used inside skipped-token constructs (the library refuses that by a panic in debug builds)"],
        run: p_gram::c23,
        regress: &[],
    },
    Prop {
        id: "C26",
        quick: 2500000,
        thorough: 30000000,
        rule: "a random grammar over fixed, unambiguous spellings built as tokenized and as lexerless parser; non-trivial: an accepted input with at least two bytes consumed and three nodes",
        assumptions: &["inputs are sequences of the tokens' spellings"],
        run: p_gram::c26,
        regress: &[],
    },
    Prop {
        id: "C27",
        quick: 900000,
        thorough: 10800000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, all rules registered, random offsets, plus debug parses of the shipped JSON parsers; non-trivial: a debug parse at an offset above 0 that consumed something and gave two nodes, or failed after its start",
        assumptions: &["user supplied functions are pure functions of their arguments"],
        run: p_gram::c27,
        regress: &[],
    },
    Prop {
        id: "C31",
        quick: 700000,
        thorough: 8400000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random (or a random tokenizer) built by two routes; non-trivial: an accepted input with two units and three nodes, or a syntax error after more than two bytes",
        assumptions: &["user supplied functions are pure functions of their arguments"],
        run: p_gram::c31,
        regress: &[],
    },
    Prop {
        id: "C32",
        quick: 700000,
        thorough: 8400000,
        rule: "a random grammar, and token lists made from its inputs by renaming kinds, dropping, shortening and joining tokens, and changing which of them are structural; non-trivial: an accepted list with gaps or with a structural choice other than the default one, at least two structural tokens consumed and three nodes",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one", "token lists are in source order, every token but the last is not empty, and the last one is the only end-of-file token, at the end of the source and always structural"],
        run: p_gram::c32,
        regress: &[],
    },
    Prop {
        id: "C33",
        quick: 700000,
        thorough: 8400000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random (tokenized by the library or by the harness, or lexerless), built with one of nine other choices of token, node and tokenizer state types: the integer types of the library, an enumeration, and types that are ordered backwards, hash to one value or print as nothing; non-trivial: an accepted input with at least two units consumed and three nodes",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c33,
        regress: &[],
    },
    Prop {
        id: "C34",
        quick: 500000,
        thorough: 6000000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, and a random history of rules called at random positions (byte, structural token, any token) with one result cache; non-trivial: at least two calls behind the first position that consume two or more units and give a node",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one", "the cache construct is not used inside skipped-token constructs (the library refuses that by a panic in debug builds)"],
        run: p_gram::c34,
        regress: &[],
    },
    Prop {
        id: "C35",
        quick: 600000,
        thorough: 7200000,
        rule: "a random grammar of 1-5 rules (depth <= 4) over every construct, its inputs derived from the grammar and then mutated, or random, every rule asked for its nullability and first tokens in random order, and matched at every position of three inputs; non-trivial: at least four matches that consume something and an empty one",
        assumptions: &["user supplied functions are pure functions of their arguments", "no skipped-token construct is nested inside another one"],
        run: p_gram::c35,
        regress: &[],
    },
    Prop {
        id: "C17",
        quick: 200000,
        thorough: 2400000,
        rule: "arbitrary bytes (invalid UTF-8, control bytes, near-grammar text) for random tokenizers and grammars, one case in some deeply nested or very long; non-trivial: a parse of more than three steps of an input that is not UTF-8, tokenizing more than eight bytes that are not UTF-8, a nested or long parse (over 60 levels or 300 steps), or over 20 bytes given to the shipped JSON parsers",
        assumptions: &["user supplied functions are pure functions of their arguments", "every state named by an action is registered, each once (an unregistered state is refused by a panic in the library)", "the cache construct is not used inside skipped-token constructs (the library refuses that by a panic in debug builds)"],
        run: p_more::c17,
        regress: &[],
    },
    Prop {
        id: "C25",
        quick: 3000000,
        thorough: 36000000,
        rule: "a random JSON document in a random layout, possibly mutated, compared with an independent recognizer and builder of the documented rules; non-trivial: an accepted document with at least four nodes",
        assumptions: &["the documented rules of the examples are those of their grammar comments and lexeme patterns"],
        run: p_json::c25,
        regress: &[],
    },
    Prop {
        id: "C28",
        quick: 800000,
        thorough: 9600000,
        rule: "a random grammar with random rule names, and a random tokenizer; non-trivial: at least three definitions are printed",
        assumptions: &["no skipped-token construct is nested inside another one"],
        run: p_more::c28,
        regress: regress::C28,
    },
    Prop {
        id: "C29",
        quick: 3000000,
        thorough: 36000000,
        rule: "a random tree and random queries; non-trivial: a tree of at least four nodes and a query with several matches",
        assumptions: &[],
        run: p_more::c29,
        regress: &[],
    },
];
