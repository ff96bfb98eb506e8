#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one place for the text of the properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": None}})

RENDER = "Query, NamedQuery and String of every builder; Write of every statement piece into a caller's context"

prop("C01", "A statement handle is a value: deriving from it never changes it",
     "Every builder call returns a new statement and leaves the statement it was called on exactly as it was: whatever is derived from a handle afterwards, in whatever order and by whichever thread, each handle keeps rendering the statement made by the calls that lead to it, and by no others. Two statements derived from a common one never show parts of each other.",
     ["histories", "programs", "schedules"],
     "every tree of builder calls (select, insert, update, delete; every clause method) with any branching, list lengths on both sides of slice growth, and any order in which the handles are derived and rendered",
     "The tests build each statement as one straight chain and render it once. Sharing shows only when two derivations fork from a handle whose underlying arrays have spare capacity or whose map is shared, which depends on the number of clauses and on the order of the calls.",
     ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "stmt/set.go", "builder/builder.go"],
     [("value receivers copy the statement", "builder/*.go"), ("copy before append", "builder/select.go: appendJoin, With, OrderBy; builder/update.go: With"), ("pairs are cloned before they are written", "stmt/set.go: PairContainer.Clone; builder/builder.go: MergeSet")],
     [RENDER], [("statement under construction", "clauses held in slices, maps and nested values that a struct copy shares", "builder/*.go: query field; stmt/set.go: PairContainer")])

prop("C02", "Shared handles and fragments may be used by any number of threads at once",
     "Threads that hold the same statement or the same piece of one may render it and derive from it at the same time without synchronisation: there is no data race, and each result is what a lone caller would have obtained.",
     ["schedules", "programs"],
     "every interleaving of renders (three forms and caller-written contexts) and derivations by 2 to 6 threads over shared handles and fragments",
     "The tests are single-threaded; a render that writes into the statement (sorting in place, caching, a pooled buffer) is invisible until two threads do it in the same window.",
     ["builder/*.go", "stmt/*.go", "types/context.go", "format/format.go", "token/token.go"],
     [("rendering writes only into the context made for the call", "types/context.go; Query, NamedQuery and String of each builder"), ("rendering sorts a copy", "stmt/set.go: Values"), ("package tables are written at initialisation only", "token/token.go; format/format.go")],
     [RENDER, "race detector"], [("clauses of a handle", "shared by all the handles derived from it", "stmt/*.go")])

prop("C03", "A call that is refused leaves no trace",
     "When a builder call panics — because one of its arguments is invalid, because a clause is already defined, or because code of the caller that it runs fails — the statement it was called on, the arguments given, and everything derived before or after are as if the call had not been made. A failure in the caller's code is not swallowed.",
     ["fault_sequences", "programs", "histories"],
     "every builder method, every position of the offending argument (so any part of the call may have been carried out already), every kind of failure (invalid type, undefined column, duplicate clause, mixed pair syntaxes, unparsable join text, panic or goroutine exit inside an encoder), any later use",
     "The tests check that such calls panic, and then throw the builder away. None recovers and goes on with the receiver, which is what a server that recovers per request does.",
     ["builder/*.go", "stmt/set.go", "stmt/expression.go", "parser/join.go"],
     [("arguments are converted before the result is assembled, into private copies", "builder/builder.go: To*, MergeSet; builder/update.go: Set, Using; builder/insert.go: OnConflict, Set")],
     ["the panic that the caller recovers", RENDER], [("receiver of the refused call", "must be untouched, including maps and spare capacity", "builder/update.go; builder/insert.go")])

prop("C04", "An aborted render leaves no trace, and its failure reaches the caller",
     "A render may be cut at any write or bind by a panic or goroutine exit in the caller's context, or by a failing or panicking Valuer: what was written until then is a prefix of the statement, the failure reaches the caller, and afterwards every handle renders as before, in every form.",
     ["crash_points", "fault_sequences", "schedules"],
     "every abort point (each write and bind of each render, each Valuer call), every kind of abort (panic, goroutine exit, Valuer error), any later use of the handle, of what shares parts with it and of the process, by any thread",
     "The tests only render to the end. State kept across a render (a pooled buffer not reset, a lock not released, a flag) is left dirty only by an abort at the right point.",
     ["types/context.go", "stmt/*.go", "format/format.go", "builder/*.go"],
     [("a context per render, discarded when the render fails", "types/context.go; builder/*.go: String, NamedQuery, Query"), ("Valuer errors are raised", "format/format.go: Value")],
     ["text handed to the caller's context", "the panic that the caller recovers", RENDER], [("render context", "text and values gathered so far", "types/context.go")])

prop("C05", "The same calls always give the same statement",
     "Making the same calls with the same arguments gives the same text, the same placeholders and the same values in every process and at every time: nothing depends on map iteration order, on hash seeds, on addresses or on what the process did before, also when maps with many keys, columns with aliases or several keys for one column are given.",
     ["schedules", "histories", "configurations"],
     "every map iteration order and hash seed for every map the library ranges over or the caller passes; every process history before the calls; rendering once or repeatedly",
     "A test sees one random iteration order per run and mostly maps of two or three keys; an order-dependent result that is right most of the time passes.",
     ["stmt/set.go", "builder/builder.go", "types/kv.go"],
     [("pairs are ordered by column name, then alias", "stmt/set.go: Values"), ("the keys of a map are taken in a fixed order", "builder/builder.go: addPairs")],
     [RENDER], [("pairs of SET and DO UPDATE clauses", "a map from columns to expressions", "stmt/set.go: PairContainer")])

prop("C06", "Tokens do not depend on how the reader delivers the text",
     "The lexer gives the same tokens however its reader cuts the text into reads — byte by byte, across characters of several bytes, with empty reads, with the end of input together with the last bytes or after them — and whatever other lexers do meanwhile. A reader that fails is never mistaken for the end of input: the failure reaches the caller, and the tokens given before it are those of the text.",
     ["fault_sequences", "inputs", "schedules"],
     "every text, every cut of it into reads, every read failure at every position (error, unexpected end, no progress, panic), several lexers at once, token by token or through the iterator",
     "The tests lex short strings from memory, in one read that never fails.",
     ["lexer/lexer.go", "lexer/iteratee.go", "token/token.go"],
     [("buffered rune reader with one rune of lookahead", "lexer/lexer.go: New, read"), ("read errors other than the end of input are raised", "lexer/lexer.go: read")],
     ["tokens from the lexer and its iterator", "the panic that the caller recovers"], [("current and next rune", "lookahead of the lexer", "lexer/lexer.go: Lexer")])

prop("C07", "Each placeholder is paired with the value the caller gave for that place",
     "In Query and NamedQuery, placeholders are numbered 1, 2, 3... in the order in which they stand in the text, each number once, and the argument with that number is the value that the caller bound at that place — including inside subqueries, common table expressions, conflict actions and fragments used several times, with any number of values, while other threads render, and after renders that were aborted.",
     ["histories", "schedules", "programs"],
     "every statement the builders can make, with any nesting and number of values, rendered repeatedly, concurrently and after aborted renders",
     "The tests compare complete outputs of short statements (rarely more than nine values), rendered once, in a process where nothing else renders or fails.",
     ["types/context.go", "stmt/expression.go", "stmt/subquery.go", "stmt/with.go", "stmt/set.go", "stmt/in.go", "stmt/between.go"],
     [("a counter and a list of values per render, advanced together", "types/context.go: StdContext.Bind, NamedContext.Bind")],
     ["text and arguments from Query and NamedQuery"], [("values bound so far", "slice or map of the render context", "types/context.go")])

prop("C08", "What a render returns belongs to the caller for good",
     "The text, argument list and argument map that a render returned never change afterwards, whatever is derived or rendered later by any thread, and the caller may change the list and the map at will without affecting any statement or any other result.",
     ["histories", "schedules"],
     "every sequence of renders and derivations after a result was returned, by any thread, with results kept until the end and with results that the caller overwrites, appends to and clears",
     "The tests read a result at once and drop it. A reused buffer, a cached list or a cached map is right until the next render.",
     ["types/context.go", "builder/*.go"],
     [("buffers, lists and maps are made for each render and given away", "types/context.go: Query, Values")],
     ["text, argument lists and argument maps from Query, NamedQuery and String, kept and compared later"], [("render context", "buffer and list of values", "types/context.go")])

prop("C09", "Slices and maps given by the caller are only read, and only during the call",
     "The builders, and the functions of package loukoum that make pieces for them, never write to a slice or map that a caller passes as a list of arguments, pairs, columns, expressions, orders or rows (not even in its spare capacity), and once the call returns the caller may overwrite, reorder, append to or clear it without changing any statement or piece. Slices and maps that are bound as a single value, and those that a Valuer gives, are kept as they are: they are never written either, but the caller has to leave them alone. The plain constructors of package stmt that wrap a finished list (NewOrderBy, NewGroupBy, NewFrom, NewConflictTarget) take it over and are outside this guarantee.",
     ["histories", "schedules", "programs"],
     "every method that takes a list or map, given directly or spread from a slice with or without spare capacity, any mutation by the caller at any later time, also while other threads render",
     "The tests pass literals that nobody else holds; reuse of an argument slice in a loop is a caller's pattern that no test has.",
     ["builder/builder.go", "builder/select.go", "stmt/with.go", "stmt/expression.go"],
     [("lists are copied element by element", "builder/builder.go: ToColumns, ToSelectExpressions, ToFrom, ToTables; stmt/with.go: NewWith; stmt/expression.go: NewCall, toArray"), ("pairs are copied", "builder/builder.go: MergeSet")],
     ["the caller's slices and maps", RENDER], [("argument lists", "owned by the caller", "builder/*.go")])

prop("C10", "Values are fixed when they are given, not when they are rendered",
     "An encoder (time, string, number, boolean or statement) is consulted by the call it is passed to, exactly once, and a pointer to a time is read by that call: later changes — the clock moving, in either direction, or an encoder that answers differently — change no statement, and every render of a statement, by any thread, shows the same values.",
     ["schedules", "histories", "fault_sequences"],
     "every encoder kind and time pointer in every position that takes a value, every clock movement and change of answer between construction and each render, any number of renders, forks and reuses of a fragment",
     "The tests use encoders whose answer is constant and render once, so reading at construction and reading at each render look the same.",
     ["stmt/expression.go", "stmt/encoder.go"],
     [("encoders are replaced by their answer", "stmt/expression.go: NewExpression")],
     ["calls received by the encoders", RENDER], [("value held by an expression", "must be a snapshot", "stmt/expression.go: Value")])

prop("C11", "Driver values are run only for debug text, and their failure is loud",
     "Query and NamedQuery pass every driver.Valuer through unexpanded and never run it; the debug form runs it and shows the value it returns as if that value had been given, and when it fails — an error, a panic, an exit of the goroutine, or an error in a value it returns — the debug form fails too, instead of returning text. Afterwards every form works as before.",
     ["fault_sequences", "crash_points", "schedules"],
     "every Valuer in every value position, failing at its first or a later call and in any manner, nested Valuers, nil pointers, in renders of all forms by several threads",
     "The tests use Valuers that always succeed, and only look at the resulting text; whether the parameterised forms run them is not observed.",
     ["format/format.go", "types/context.go", "stmt/expression.go"],
     [("raw values are handed over by the binding contexts", "types/context.go: Bind"), ("errors are raised", "format/format.go: Value")],
     ["calls received by the Valuers", "the panic that the caller recovers", "text and arguments of all forms"], [("bound value", "kept as given", "stmt/expression.go: Value")])

prop("C12", "One caller's slow or re-entrant code never blocks or disturbs another",
     "While a thread is stopped inside code of the caller that the library runs (a Valuer, an encoder, a context that is being written to), every other thread can go on building and rendering, also with the same handles and fragments; and such code may itself build and render, with the same handles too, without deadlock and without changing the outcome of the render it interrupts.",
     ["schedules", "fault_sequences"],
     "every callback position, stall of any length there, re-entrant render of any handle from there, any work of 2 to 6 other threads meanwhile; progress is required within a bounded number of steps once stalls end",
     "No test stalls in a callback or renders from one, nor runs two threads; a lock held around a callback passes them all.",
     ["stmt/*.go", "format/format.go", "types/context.go", "builder/*.go"],
     [("no lock is held and no shared state is open while the caller's code runs", "format/format.go: Value; stmt/expression.go: NewExpression; types/context.go")],
     ["progress of every other thread", "results of the interrupting and the interrupted renders"], [("shared state", "none may be held across a callback", "all packages")])

prop("C13", "A reusable piece keeps its meaning wherever it is used",
     "A condition, column, table, aggregate, join, ordering, subquery, common table expression, function call or conflict action that the caller made once may be used in any number of statements and in bigger pieces, aliased, combined and rendered, by any threads: none of that changes it or the other statements that use it.",
     ["histories", "programs", "schedules"],
     "every kind of piece, used any number of times in any statements and pieces, with any combination (and, or, alias, order) made from it before and after, by any thread",
     "The tests make each piece inside the single statement that uses it.",
     ["stmt/expression.go", "stmt/infix.go", "stmt/on.go", "stmt/column.go", "stmt/table.go", "stmt/aggregate.go", "stmt/conflict.go", "stmt/join.go", "stmt/with.go", "stmt/where.go"],
     [("pieces are values, combined into new ones", "stmt/infix.go: And, Or; stmt/on.go; stmt/column.go: As; stmt/table.go: As"), ("pairs of a conflict action are not written after construction", "stmt/conflict.go; stmt/set.go: Values")],
     [RENDER], [("pieces", "shared by all the statements that use them", "stmt/*.go")])

NA = "a pure function of its arguments: no schedule, clock, I/O, fault or multi-party history takes part, so there is nothing for a simulator to decide, and generating inputs would not be deterministic simulation"
def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech, ["text from String, NamedQuery and Query"])
    P[-1]["na"] = reason

na("C14", "Identifiers are quoted so that they cannot break out",
   "Every table, column and alias name given by the caller appears in the statement quoted part by part, so that no name can end its own quoting and inject other text.",
   "every name", "The tests use well-formed names only.", ["stmt/stmt.go", "stmt/column.go", "stmt/table.go"], [("quote", "stmt/stmt.go")],
   "quoting is " + NA)
na("C15", "Literals in the debug form are escaped faithfully",
   "In the debug form every value is written as a literal that denotes exactly that value.",
   "every value of every supported type", "The tests sample a few values of each type.", ["format/format.go"], [("formatting per type", "format/format.go")],
   "formatting one value is " + NA)
na("C16", "Statements are grammatical: clauses in order, each once",
   "Whatever calls were made and in whatever order, the clauses appear in the order of the SQL grammar, each at most once, with balanced parentheses and the nesting that the combinators express.",
   "every set of clauses and every expression tree", "The tests sample some combinations.", ["stmt/*.go"], [("Write of each statement", "stmt/*.go")],
   "the text for a given statement is " + NA)
na("C17", "Join texts are parsed faithfully or refused",
   "Every join text is either parsed into the join it denotes or refused with an error; none crashes or hangs the parser.",
   "every text", "The tests sample accepted texts.", ["parser/join.go", "parser/parser.go"], [("recursive descent", "parser/join.go")],
   "the parser takes a complete string, never a reader, so parsing is " + NA)
na("C18", "Limits and offsets are converted without loss or refused",
   "A limit or offset given as any integer type or decimal text is used with its exact value, or refused.",
   "every integer and text", "The tests sample small integers.", ["builder/builder.go"], [("ToInt64", "builder/builder.go")],
   "numeric conversion is " + NA)
na("C19", "Malformed statements are refused, not rendered",
   "A statement that lacks a required part, or that is given an argument of the wrong kind or an undefined name, is refused instead of being rendered as broken SQL.",
   "every incomplete statement and every argument kind", "The tests sample some refusals.", ["builder/*.go", "stmt/*.go"], [("IsEmpty checks", "stmt/*.go"), ("type switches", "builder/builder.go")],
   "which statements are refused is " + NA)
na("C20", "The three forms are one statement",
   "The three forms of a statement differ only in how values appear: replacing the placeholders of either parameterised form by the literals of their arguments gives the debug form.",
   "every statement", "The tests compare the forms of some statements.", ["types/context.go", "format/format.go"], [("one Write for all contexts", "types/context.go")],
   "the correspondence of the forms for a given statement is " + NA)

TECH = {
 "C01": "deterministic simulation: seeded search over fork histories and thread schedules against a reference model, fresh-process confirmation",
 "C02": "deterministic simulation: seeded thread schedules with a yield before every statement, race detector under the simulator, reference model",
 "C03": "deterministic simulation with fault injection: seeded invalid arguments, encoder panics and goroutine exits at every argument position, reference model, fault-free twin run",
 "C04": "deterministic simulation with fault injection: seeded aborts (panic, goroutine exit, Valuer error) at every write and bind, prefix oracle, reference model, fault-free twin run",
 "C05": "deterministic simulation: map iteration and hash seeds controlled through a patched runtime, each plan run under four map orders and compared",
 "C06": "deterministic simulation with fault injection: seeded reader cuts, stalls, errors and panics, concurrent lexers, reference lexer",
 "C07": "deterministic simulation with fault injection: seeded schedules and aborted renders, pairing oracle with values tagged by place",
 "C08": "deterministic simulation: retained results compared after every history, seeded mutation of results by callers, race detector",
 "C09": "deterministic simulation with fault injection: caller-owned containers guarded, compared and overwritten at seeded times, race detector",
 "C10": "deterministic simulation with fault injection: simulated clock with jumps, encoders that change their answer, consultation counts, reference model",
 "C11": "deterministic simulation with fault injection: scripted Valuers failing at seeded calls, call counts, reference model",
 "C12": "deterministic simulation with fault injection: seeded stalls and re-entrant renders inside callbacks, progress oracle (deadlock, waiting behind a stall, step bound)",
 "C13": "deterministic simulation: seeded reuse of fragments by several threads, reference model, race detector",
}
NOTE = "seeded search, not exhaustive; threads switch between statements, the race detector covers what happens inside them where it is used; the model is confirmed by a lone execution in a fresh process before a difference counts"

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "na"}
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": TECH[p["id"]], "level": "exploration", "level_note": NOTE}
                for p in P if "na" not in p],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if "na" in p],
     "notes": "No hooks are committed in /repo: the checks instrument a scratch copy of the working tree through go build -overlay (see DESIGN.md)."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
