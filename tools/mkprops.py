#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json
PRE = ("Grammars are augmented (the start rule has one production and occurs in no body, the end marker is fresh) and have no empty bodies; ")
def p(id, title, statement, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None))
T, C, S, L, D, P_, G, PO, LI = ("src/tabler.rs", "src/clr.rs", "src/slr.rs", "src/lalr.rs", "src/dfa.rs", "src/parser.rs", "src/grammar.rs", "src/pos.rs", "src/lib.rs")
SIX = "The tests run six fixed grammars and compare a few tables or accept a few inputs; "
out = [
p("C01", "FIRST sets are exact",
  "For every grammar, building the tables ends, and the FIRST set recorded for each nonterminal holds exactly the terminals that can begin a string derived from it. There is an entry for every nonterminal and no nonterminal is left inside a set.",
  ["inputs"], PRE + "all of them, including left-recursive, mutually recursive and cyclic ones, whatever the order of the symbols.",
  SIX + "none has nonterminals that begin with each other in a cycle.", [T, G],
  [("fixed point of the one-step expansion", T+":proc_first"), ("first table", T+":gen_first")], ["Tabler::new(g).first"]),
p("C02", "FOLLOW sets are exact",
  "For every grammar, building the tables ends, and the FOLLOW set recorded for each nonterminal holds exactly the terminals, including the end marker, that can come right after it in a sentential form built from the rules. Nonterminals that nothing can follow have an empty set or no entry.",
  ["inputs"], PRE + "all of them, including right-recursive, mutually recursive and cyclic ones.",
  SIX + "none has nonterminals that end with each other in a cycle.", [T, G],
  [("fixed point of the one-step expansion", T+":proc_follow"), ("first table", T+":gen_follow")], ["Tabler::new(g).follow"]),
p("C03", "The CLR and SLR state collections are the canonical ones",
  "For every grammar, the canonical-LR states are exactly the canonical collection of sets of LR(1) items and the SLR states are the canonical collection of sets of LR(0) items: state 0 is the closure of the start item, every other state is the closure of the advanced items of an earlier state on one symbol, every such successor is present, and no set occurs twice. Building the collection ends.",
  ["inputs"], PRE + "any number of symbols and rules.",
  SIX + "they look at acceptance of inputs, which most wrong or missing states do not change.", [C, S, T, PO],
  [("closure", C+":closure, prop_closure"), ("worklist over kernels", C+":proc_closures"), ("successor kernels", T+":sym_filter")],
  ["tables().states", "tables().kernels"]),
p("C04", "LALR states are the merged canonical states with exact lookaheads",
  "For every grammar, the LALR states are in one-to-one correspondence with the distinct LR(0) cores of the canonical LR(1) states, and each item carries exactly the union of the lookaheads that item has in the canonical states of that core. Looking a state up by a kernel leads to the state of that kernel's core.",
  ["inputs"], PRE + "any amount of merging, including lookaheads that reach a state only after its successors were built.",
  SIX + "lookaheads that arrive late through nonkernel items occur in none.", [L, P_],
  [("merging by core and propagation", L+":proc_closures, update_state"), ("kernel lookup", P_+":state_from_kernel, final_kernel")],
  ["tables().states", "state_from_kernel"]),
p("C05", "Action table entries are exactly those the items demand",
  "For every grammar and each of the three table methods, there is one row per state, and the entries of a row are exactly those its items demand: shift or goto to the successor state for the symbol after the dot, and for a complete item a reduction by its production (acceptance for the start rule) on exactly the method's lookaheads. Nothing is demanded that is not in the table and the reverse.",
  ["inputs"], PRE + "all three methods.",
  SIX + "entries that the sampled inputs never reach are not looked at.", [C, S, L, T],
  [("actions of one item", C+":decision"), ("rows", C+":proc_actions")], ["tables().actions"]),
p("C06", "Conflicts are reported exactly where two actions are demanded",
  "For every grammar and method, a table entry is a conflict if and only if the items of that state demand at least two different actions on that symbol, it then holds exactly those actions, and the list of conflicts yields exactly the conflicting entries. No demanded action is silently dropped in favour of another.",
  ["inputs"], PRE + "all three methods, any number of actions on one symbol.",
  "The tests only count conflicts on grammars that have none.", [C, S, L, T],
  [("combining actions", C+":proc_actions"), ("listing", T+":conflicts")], ["tables().actions", "tables().conflicts()"]),
p("C07", "Only sentences are accepted",
  "For every grammar, each of the three methods and every sequence of tokens, a parse that succeeds read a sentence of the grammar: the whole sequence is derived from the start symbol.",
  ["inputs"], PRE + "all token sequences over the terminals, with or without conflicts in the table.",
  "Tests feed sentences only, or a handful of wrong inputs.", [D, P_, C, S, L],
  [("driver", D+":travel, reduce, accept")], ["Parser::parse", "Parser::validate"]),
p("C08", "Canonical LR accepts every sentence unless it meets a conflict",
  "For every grammar and every sentence of it, the canonical-LR parser accepts the sentence or stops at a conflicting entry of its table; it never rejects it. Without conflicts in the table, every sentence is accepted.",
  ["inputs"], PRE + "all sentences.", "Tests feed a few sentences of six grammars.", [C, D, P_],
  [("tables", C+":proc_closures, proc_actions"), ("driver", D+":travel")], ["Clr::parse"]),
p("C09", "SLR accepts every sentence unless it meets a conflict",
  "For every grammar and every sentence of it, the SLR parser accepts the sentence or stops at a conflicting entry of its table; it never rejects it. Without conflicts in the table, every sentence is accepted.",
  ["inputs"], PRE + "all sentences.", "Tests feed a few sentences of six grammars.", [S, D, P_],
  [("tables", S+":proc_closures, proc_actions"), ("driver", D+":travel")], ["Slr::parse"]),
p("C10", "LALR accepts every sentence unless it meets a conflict",
  "For every grammar and every sentence of it, the LALR parser accepts the sentence or stops at a conflicting entry of its table; it never rejects it. Without conflicts in the table, every sentence is accepted.",
  ["inputs"], PRE + "all sentences.", "Tests feed a few sentences of six grammars; none needs lookaheads that are propagated late.", [L, D, P_],
  [("tables", L+":proc_closures, proc_actions"), ("driver", D+":travel")], ["Lalr::parse"]),
p("C11", "The value returned is the evaluation of a parse tree of the input",
  "Whenever a parse succeeds, the input has a parse tree such that every semantic function was called for one node of it, with the function registered for that node's production and the values of its children in order, each tagged with the child's symbol. The value returned is the one of the last symbol of the start production.",
  ["inputs"], PRE + "all inputs and all semantic functions.", "Values are computed in one binary, on one grammar.", [D, P_],
  [("reduction", D+":reduce"), ("result", P_+":parse")], ["Parser::parse"]),
p("C12", "Parsing never panics or reports an internal error",
  "For every grammar, method and token sequence, with one semantic function registered per production, parsing does not panic, and it fails only with an unexpected token, a conflict that is in the table, or leftover input after an end marker that the input itself contains. Validation answers yes exactly when parsing succeeds.",
  ["inputs"], PRE + "tokens are not nonterminals of the grammar.", "Tests feed well-formed inputs.", [D, P_],
  [("stack discipline", D+":reduce, shift, accept")], ["Parser::parse", "Parser::validate"]),
p("C13", "Unexpected-token errors are accurate",
  "When a parse fails with an unexpected token, the token named is the one at which the parser stopped (the end marker at the end of the input), the expected symbols listed are exactly the ones the state it stopped in has an entry for, and everything before that token was consumed. No sentence of the grammar begins with the consumed tokens followed by the named one.",
  ["inputs"], PRE + "all inputs that are no sentences.", "The content of errors is not tested.", [D],
  [("error", D+":travel")], ["Error::UnexpectedToken", "Dfa::buffer"]),
p("C14", "A parser automaton can be used again after any outcome",
  "Running one automaton on any sequence of inputs, whatever the outcome of each run, gives for every input the same result as a new automaton.",
  ["histories"], PRE + "all sequences of inputs.", "Tests use each automaton once.", [D],
  [("reset", D+":reset, parse")], ["Dfa::parse"]),
p("C15", "Merging equal rows does not change what the parser does",
  "After equal rows of the action table are merged, every input gives the same result as before (state numbers inside reported conflicts aside), every state number in the table is in range, and the table has no more rows than before.",
  ["inputs"], PRE + "all inputs and tables.", "Not tested.", [T, P_],
  [("merge and renumber", T+":reduced_actions, update_entry, reduce_equals")], ["Parser::reduce_equals"]),
p("C16", "Building the tables ends without panic for every grammar",
  "For every grammar, building the tables of each of the three methods ends and does not panic.",
  ["inputs"], PRE + "all of them, including cyclic and ambiguous ones.", SIX + "none is cyclic.", [T, C, S, L, LI],
  [("fixed points and worklists", T+", "+C+", "+S+", "+L)], ["Clr::new", "Slr::new", "Lalr::new"]),
p("C17", "Parsing ends on every input",
  "For every grammar without useless symbols (every nonterminal is reachable from the start symbol and derives a terminal string) whose table has no conflict, parsing ends on every token sequence.",
  ["inputs"], PRE + "all inputs; all three methods.", "A test cannot observe that something ends on every input.", [D],
  [("every step shifts, accepts, fails or reduces", D+":trace")], ["Parser::parse"]),
p("C18", "A grammar classifies its symbols and numbers its productions",
  "For every set of rules, the grammar's terminals are exactly the symbols of the bodies that name no rule, plus the end marker; its symbols are these and the rule names; the productions of a rule keep their order and are numbered from zero. The start item is the start production with the dot at its beginning and the end marker as its only lookahead.",
  ["inputs"], PRE + "any rules.", "Implied by the tests only for six grammars.", [G, PO],
  [("construction", G+":Grammar::new, Rule::new, basis"), ("items", PO)], ["Grammar::new", "Rule::new"]),
p("C19", "Generated front-end parsers accept the described language",
  "For every grammar description in the front end's language, the parser it generates accepts exactly the sentences of that description.",
  ["programs"], "all grammar descriptions", "Only the checked-in output of one description is built.", ["wop/src/builder.rs", "wop/src/out.rs"],
  [("code generation", "wop/src/builder.rs")], ["wop"]),
]
with open("/verif/properties.jsonl", "w") as f:
    for x in out:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
