#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=hook)))

p("P01","A failing token read never changes what a program parses to",
  "While a program, or a single statement or expression of it, is parsed from a token source, any reads of that source may fail: once, repeatedly, for a while, or forever at one place, with or without losing the token that was due, on first reads and on re-reads. Parsing then returns either an error or exactly the syntax tree it returns when no read fails; it never returns a different tree, never panics, and asks the source for a number of tokens bounded by the size of the source. (When a single statement or expression is parsed and a failed read is the next thing its reader would hand out, the caller sees that failure there: this counts as the error.) If some token of the program can never be read, the program is never reported as successfully parsed.",
  ["fault_sequences","programs"],
  "every program, every token read or re-read at which a failure can strike, every combination and duration of failures, transient, losing or permanent",
  "The tests only ever parse from an in-memory string whose reads fail only where the text itself is malformed; no test makes a read fail in the middle of a well-formed program, and look-ahead code treats a failed read as 'does not match', so each of the hundreds of look-ahead decisions could silently pick another production.",
  ["parser/src/lib.rs","parser/src/stmt.rs","parser/src/expr.rs","parser/src/cover.rs","parser/src/iteration.rs","parser/src/module.rs","parser/src/literal.rs","common/src/io.rs"],
  [("failed reads stay in the current/next slots until consumed","common/src/io.rs PeekReader::consume"),("`?` on every consume; end of input is only the end-of-stream error","parser/src/lib.rs is_end, can_insert_semicolon, stmt_ended"),("program loop runs until end of stream","parser/src/stmt.rs parse_all_stmts")],
  [("current/next","one consumed-next and one look-ahead read result, each possibly a failure","common/src/io.rs PeekReader")],
  ["Parser::parse over a caller-supplied token source"])

p("P02","A program that ends early is rejected or is exactly what was read",
  "When the source of a program ends early, at any byte or after any token, parsing finishes after a number of token reads bounded by the size of the source, without panicking. If the end falls between two top-level statements the result is exactly the statements before it; if it falls inside an open bracket, brace, parenthesis, template, string, regular expression body or block comment the program is rejected. The end of the source ends the last statement of a program exactly as a closing brace ends the last statement of a block: a cut-off program without import and export declarations is accepted exactly if its text is accepted as the contents of a block. A token source that reports its end after some token gives the same tree, or equally an error, as the text cut at the end of that token.",
  ["crash_points","programs"],
  "every program and every byte or token at which its source can be cut off",
  "The snapshot tests contain a few dozen unfinished fragments; they do not cut each construct at each point, and the end of input doubles as an automatic semicolon, so a loop that stops at any failure would accept half a program.",
  ["parser/src/lib.rs","parser/src/stmt.rs","parser/src/literal.rs","lexer/src/lib.rs","lexer/src/string.rs","lexer/src/regexp.rs"],
  [("end of stream is distinguished from unexpected end of stream","lexer/src/error.rs, lexer/src/lib.rs read"),("automatic semicolon at end of input","parser/src/lib.rs can_insert_semicolon"),("list and block loops fail on a failed read","parser/src/stmt.rs, parser/src/literal.rs")],
  [],["parse_script, parse_module, Parser::parse"])

p("P03","Going back in a token stream replays the same tokens",
  "After any sequence of reads, mode re-reads, rewinds, seeks and failed reads on a lexer, going back to before any token that was read earlier and reading on yields that token and its successors again: the same values, the same positions and the same first-on-line marks. A re-read in another mode affects that one read only, whether it succeeds or fails, and reading the token again in the mode it was first read in yields it unchanged.",
  ["histories","inputs"],
  "every source text and every history of reads, rewinds to earlier tokens, mode re-reads (regular expression, template), seeks and failed reads",
  "The lexer tests read each text once, forwards, and seek three times in one ASCII line; the parser's own rewinds are only observed through final trees, so a position, line-start mark or mode that is restored wrongly for one history goes unseen.",
  ["lexer/src/lib.rs","common/src/io.rs"],
  [("rewind_before restores position and first_on_line","lexer/src/lib.rs ReReadWithState"),("temporary lexer state is swapped in and out","lexer/src/lib.rs read_with_state"),("seek slices the text and keeps absolute offsets","lexer/src/lib.rs Seek")],
  [("first_on_line","whether a line break precedes the next token","lexer/src/lib.rs Lexer"),("state","regexp/template/html-comment mode","lexer/src/lib.rs LexerState")],
  ["Lexer::read, PeekRead::next, ReReadWithState, Seek"])

p("P04","The look-ahead reader delivers every item exactly once, in order",
  "Over any source of items, including one that fails or ends at any point and resumes later, the look-ahead reader hands out every result of the source exactly once and in the source's order, failures in their place included; its current and look-ahead views always show what the next two consumes will return, and its position is the end of the last item consumed successfully (plus the configured offset). After a rewind to an item, or a re-read of the current item in another mode, the views and later consumes are those of the source from that item on; re-reading while the current result is a failure changes nothing.",
  ["histories","fault_sequences"],
  "every history of consume, peek, rewind and re-read over every item source, with failures and ends anywhere in it",
  "The reader has no unit tests of its own; it is only exercised through complete lexes and parses of in-memory strings, where no read fails and then succeeds.",
  ["common/src/io.rs","common/src/io/char_reader.rs"],
  [("one read per consume, results shifted next -> current -> caller","common/src/io.rs PeekReader::consume"),("rewind refills both slots","common/src/io.rs rewind_to, reread_with_state")],
  [("current, next, position, offset","the look-ahead window and the end of what was consumed","common/src/io.rs PeekReader")],
  ["PeekReader::{new, with_offset, consume, current, peek, position, rewind_to, reread_with_state, read_while}"])

p("P05","A diagnostic is delivered completely or its failure is reported",
  "Writing the diagnostic for a parse error to an output that accepts only part of a write, interrupts, fails, or refuses further bytes at any point returns success only if the output received exactly the bytes a never-failing output receives. When the output fails for good, the failure is returned to the caller, what the output received is a prefix of those bytes, and nothing is written after the failure; no source text and no parse error makes it panic.",
  ["fault_sequences","inputs"],
  "every parse error of every source text, and every sequence of short, interrupted, failing and refusing writes",
  "The tests never check the diagnostic against a writer that is anything but an in-memory buffer, and only render a handful of short single-line errors.",
  ["parser/src/error/emitter.rs","parser/src/error/mod.rs"],
  [("every write is propagated with `?`","parser/src/error/emitter.rs emit_error, emit_diagnostic"),("spans are widened to character boundaries","parser/src/error/emitter.rs get_char_boundaries")],
  [],["ErrorEmitter::emit_error over a caller-supplied writer"])

p("P06","The command's output and exit code tell the truth under I/O faults",
  "The command-line program parses exactly the bytes the operating system delivered for its file and reports on exactly those. Whatever fails, it exits with 0 only if they parse as the kind of source the file name selects and the whole requested output (syntax tree, generated code, or the check message) reached standard output, and standard output never holds anything but a prefix of the right output, which is empty for a source that does not parse. When nothing fails for good (interrupted and short calls, misreported sizes and damaged contents included) it exits with 0 after the whole output if the bytes parse, and with 1, an empty standard output and the diagnostic on standard error if they do not; bytes that are not UTF-8 are refused with a code other than 0.",
  ["fault_sequences","crash_points","inputs"],
  "every input file, output mode and source kind, and every sequence of interrupted, short, failing, corrupted or truncated system calls, allocation failures and kills",
  "No test runs the executable at all; none can make a system call fail at a chosen point.",
  ["src/main.rs"],
  [("read_to_string, then parse, then one println of the result","src/main.rs main"),("exit(1) after the diagnostic","src/main.rs main")],
  [],["exit status, standard output, standard error of the fajt executable"])

p("P07","A stored syntax tree comes back equal or not at all",
  "Any syntax tree the parser produces, wherever the positions of its source begin, written as JSON and read back through storage that delivers short and interrupted reads and writes, is equal to the original. If the stored form is cut off at any byte, or reading or writing it fails for good, the result is an error; if stored bytes are damaged the result is an error or some tree, which can itself be stored and comes back equal, and never a panic.",
  ["fault_sequences","crash_points","programs"],
  "every program's tree, every point at which storage can cut off, fail or damage bytes",
  "The snapshot tests load well-formed, hand-checked JSON of a fixed set of small trees; none cuts, damages or interrupts it.",
  ["ast/src/span.rs","ast/src/lib.rs","ast/src/expr.rs","ast/src/stmt.rs","ast/src/macros/mod.rs"],
  [("derived serialization of every node","ast/src/macros/mod.rs ast_node"),("position ranges stored as 'start:end'","ast/src/span.rs")],
  [],["serde Serialize/Deserialize of Program, Stmt and Expr"])

p("P08","Jobs do not influence each other",
  "The result of a job (lexing, parsing, rendering a diagnostic, traversing, generating code, storing a tree) depends only on its own input: it is the same when the job runs alone, after or between any other jobs, on whatever thread, interleaved with concurrent jobs at any point, nested inside another job's callbacks, after jobs that failed, panicked or were abandoned half-way, and with its text in a buffer another text occupied before. Parsing and traversing without changes and generating code leave their input as it was, and generating code twice yields the same code twice.",
  ["schedules","histories"],
  "every set of jobs and every sequence or interleaving of them, with jobs abandoned at any point",
  "Each test runs one job in an otherwise idle process state; no test interleaves jobs at chosen points, aborts one in the middle, or re-uses a buffer, so state shared by accident would not show.",
  ["lexer/src/lib.rs","parser/src/lib.rs","codegen/src/lib.rs","ast/src/traverse/macros.rs","parser/src/error/emitter.rs","common/src/io.rs"],
  [("no global or thread-local mutable state; all state in the Lexer, PeekReader, Parser, CodeGenerator values","all crates"),("generator state is created per call","codegen/src/lib.rs generate_code")],
  [],["results of Lexer, parse*, generate_code, Traverse, ErrorEmitter"])

p("P09","A traversal follows the visitor's decisions exactly",
  "Whatever a visitor decides at each node (descend, skip, replace parts of the node, stop by panicking), a traversal enters every part of the tree that the visitor has not skipped exactly once, in an order fixed by the kind of node (that of the source, but for the operator of an update and the alias of an export), descends into a node exactly if entering it said so, and leaves every entered node exactly once after everything inside it; a replacement made while entering a node is what is traversed and what stays in the tree. A visitor that changes nothing leaves the tree unchanged, also when it aborts the traversal. (The inside of assignment patterns is declared not yet traversed.)",
  ["histories","crash_points","programs"],
  "every tree, every combination of visitor decisions at its nodes, and every point at which a visitor can abort",
  "The traversal tests trace a few small trees with a visitor that always descends; none skips, mutates or aborts, and conditional, import, loop and class fields are mostly untraced.",
  ["ast/src/traverse/mod.rs","ast/src/traverse/macros.rs"],
  [("generated traverse implementations call enter, children in listed order, exit","ast/src/traverse/macros.rs"),("field lists per node","ast/src/traverse/mod.rs")],
  [],["Traverse::traverse with a caller-supplied Visitor"])

p("P10","Damaged source yields a tree or a located error, never a crash",
  "Source text damaged in storage or transit (flipped, lost, repeated, swapped, zeroed or truncated pieces, still valid text) is parsed to a tree or to an error in a number of token reads bounded by its size, without panicking or hanging, as a script, as a module and as a single statement or expression. Every such error can be rendered as a diagnostic, and the line and column shown lie within the source.",
  ["fault_sequences","inputs"],
  "every program and every sequence of damages to its text whose result is valid UTF-8 and nests no deeper than the call stack allows",
  "The error tests are a few hundred hand-written mistakes; damage produces combinations nobody writes, such as non-ASCII characters next to operators, statements spliced into expressions, and errors at the very end or beyond column 65535.",
  ["lexer/src/lib.rs","lexer/src/number.rs","lexer/src/string.rs","lexer/src/regexp.rs","lexer/src/unicode_escape_sequence.rs","parser/src/expr.rs","parser/src/module.rs","parser/src/assignment_pattern.rs","parser/src/error/emitter.rs"],
  [("every lexer and parser decision ends in a value or an error","lexer/src, parser/src"),("diagnostic rendering slices the source at character boundaries","parser/src/error/emitter.rs")],
  [],["parse_script, parse_module, ErrorEmitter"])

p("P11","Test fixtures are read whole and written whole, or the caller hears",
  "Reading a fixture returns exactly the file's contents through any short and interrupted reads, whatever size the file is said to have, and panics rather than returning anything else when opening or reading fails, for good or only once, or the bytes are not text. Writing a fixture that returns normally has put exactly the given text and one line break in the file and nothing else, whatever short and interrupted writes occurred and however long the previous contents were; when a write fails, for good or only once, it panics and the file holds a prefix of the new contents.",
  ["fault_sequences","crash_points"],
  "every fixture file and text and every sequence of short, interrupted, failing reads and writes",
  "The fixture helpers are the test suite's own storage layer and have no tests; a half-written snapshot would silently become the new expectation.",
  ["testing/src/lib.rs","testing/src/markdown.rs","testing/src/markdown/section.rs"],
  [("write_all / read_to_string with unwrap","testing/src/lib.rs"),("truncate on open","testing/src/lib.rs write_string")],
  [],["read_string, write_string of the testing crate"])

p("P12","Parsing can be paused and resumed at any statement",
  "Reading a program one statement at a time from one token source, with any pauses between statements, yields exactly the statements that parsing the whole program yields, in order, none lost or repeated. The same holds when the reader is dropped after any statement, or an attempt to read a statement is given up because a read failed during it, and parsing is resumed by seeking the same lexer, or a new one, to the end of the last finished statement. One parser reading several statements one after another yields the same, and a program that is rejected as a whole is rejected when it is read statement by statement.",
  ["crash_points","schedules","histories"],
  "every program, every sequence of pauses, drops and failed attempts between and inside its statements, and every resumption on the old or a new lexer",
  "Every test parses a whole text with a new lexer in one call; none resumes, seeks a used lexer, or retries after a failure.",
  ["parser/src/lib.rs","parser/src/stmt.rs","common/src/io.rs","lexer/src/lib.rs"],
  [("a parser borrows the reader and keeps no state of its own between statements","parser/src/lib.rs Parser::parse"),("seek restarts the lexer at a byte offset","lexer/src/lib.rs Seek")],
  [("reader position and look-ahead window","what the next statement starts from","common/src/io.rs PeekReader")],
  ["Parser::parse::<Stmt> repeated on one PeekReader; Lexer::seek"])

p("P13","Every job gives back the memory it took",
  "Repeating a job (lexing, parsing, rendering a diagnostic, traversing, generating code, storing or loading a tree), with the same text or with ever new ones, does not accumulate memory: once its results are dropped, the memory in use is what it was after the previous repetition, also when the job failed, was abandoned part-way by a failing read or write, or was stopped by a panicking visitor. Tearing down after a failure releases what was built so far.",
  ["histories","fault_sequences","crash_points"],
  "every job, every number of repetitions, and every point at which it can fail, be abandoned or be stopped",
  "No test measures memory; a leak per parse, per failed parse or per aborted traversal only shows in a long-running host such as an editor.",
  ["common/src/io.rs","lexer/src/lib.rs","parser/src/lib.rs","codegen/src/lib.rs","ast/src/traverse/macros.rs"],
  [("plain ownership, no leaks, no growing caches; generator's shared index is an acyclic Rc","all crates")],
  [],["live bytes of the process's allocator before and after a job"])

p("P14","A stored token stream comes back equal or not at all",
  "Any tokens the lexer delivers, in every mode, and the errors it reports, written as JSON and read back through storage that delivers short and interrupted reads and writes, are equal to the originals. If the stored form is cut off at any byte, or reading or writing it fails for good, the result is an error; if stored bytes are damaged the result is an error or some tokens, which can themselves be stored and come back equal, and never a panic.",
  ["fault_sequences","crash_points","programs"],
  "every source text's tokens and lexer errors, every point at which storage can cut off, fail or damage bytes",
  "No test stores a token or a lexer error.",
  ["lexer/src/token.rs","lexer/src/error.rs","ast/src/literal.rs","ast/src/span.rs"],
  [("derived serialization of tokens, their values and lexer errors","lexer/src/token.rs, lexer/src/error.rs"),("position ranges stored as 'start:end'","ast/src/span.rs")],
  [],["serde Serialize/Deserialize of Token and the lexer's Error"])

p("P15","The fixture test generator registers every file exactly once",
  "Expanding for_each_file! on a directory registers every regular file in it and below it exactly once, with its own path and extension, and registers nothing else but, possibly, symbolic links to files (links to directories are not followed); files whose paths differ in more than punctuation get different names. The order and form in which the file system lists the entries never changes what is registered, and when a directory cannot be opened or listed to its end, or an entry cannot be looked at, the expansion fails: it never succeeds with files missing.",
  ["fault_sequences","schedules","inputs"],
  "every directory tree whose names make identifiers, every listing order, every call at which the file system can fail",
  "It is only run on the repository's own fixtures, in the order the file system happens to list them; a fixture that was silently skipped is a test that does not run, which no test notices.",
  ["macros/src/for_each_file.rs","tests/verify_snapshots.rs"],
  [("recursive directory walk at compile time","macros/src/for_each_file.rs"),("one test per registered file","tests/verify_snapshots.rs")],
  [],["for_each_file! procedural macro, expanded by rustc"])

na=[]
def n(id,title,statement,over,text,why,files,mech,reason):
    p(id,title,statement,over,text,why,files,mech); na.append((id,reason))
R="pure function of its input text: no schedule, clock, fault, I/O or second party takes part, so a simulator has nothing to decide; generating inputs alone would not be this technique"
n("N01","Exactly the programs of ECMA-262 (12th edition) are accepted","Parsing accepts a text as a script or module exactly if the ECMAScript grammar, including automatic semicolons and early errors the project implements, derives it.",["inputs","programs"],"every source text","Tests sample about 690 fragments.",["parser/src/lib.rs","parser/src/stmt.rs","parser/src/expr.rs"],[("recursive descent","parser/src")],R+" (and no reference grammar is available offline)")
n("N02","The tree reflects operator precedence and associativity","For every accepted expression the nesting of the tree is the one the grammar's precedence and associativity rules prescribe.",["inputs"],"every expression","Tests sample operator pairs.",["parser/src/binary_expr.rs","parser/src/expr.rs"],[("precedence climbing","parser/src/binary_expr.rs")],R)
n("N03","Node positions delimit the source text of the node","The position range of every node covers exactly the text it was parsed from, lies inside its parent's range and does not overlap its siblings'.",["inputs"],"every accepted program","Tests compare fixed small trees; one test pins an end position inside a non-ASCII character.",["parser/src/lib.rs","lexer/src/lib.rs"],[("span_from","parser/src/lib.rs")],R)
n("N04","Generated code parses back to the same program","Code generated from a tree parses to a tree equal up to positions, in both formats.",["inputs","programs"],"every accepted program","Tests sample; the generator is declared incomplete (loop bindings, patterns, templates).",["codegen/src/lib.rs"],[("visitor that prints nodes","codegen/src/lib.rs")],R+"; the README declares the generator basic and it is incomplete")
n("N05","Tokens are the longest match and escapes are decoded correctly","Every token is the longest the lexical grammar allows in its context and its value decodes escapes, numbers and templates as specified.",["inputs"],"every source text","Tests sample each token kind.",["lexer/src/lib.rs","lexer/src/number.rs","lexer/src/string.rs"],[("single pass character reader","lexer/src")],R)
n("N06","Strict-mode and early-error rules are enforced","Every construct forbidden in strict code, classes, generators, async functions and modules is rejected, and only those.",["inputs"],"every source text","Tests sample each rule.",["parser/src/static_semantics/mod.rs"],[("context flags","parser/src/lib.rs Context")],R)
n("N07","Parse time grows polynomially with the size of the source","Parsing takes time polynomial in the length of the source.",["inputs"],"every source text","Tests are tiny.",["parser/src/cover.rs","parser/src/assignment_pattern.rs"],[("rewinding for cover grammars","parser/src/cover.rs")],"a performance property of a pure function (deterministic simulation decides nothing about performance); nested cover grammars are in fact exponential today, see DESIGN.md")
n("N08","Parsing arbitrarily deep nesting does not exhaust the stack","Nesting depth of the source is limited by an error, not by the call stack.",["inputs"],"every source text","Tests nest a few levels.",["parser/src/expr.rs"],[("unbounded recursion","parser/src")],"a pure function of its input, and not a guarantee the project makes: recursion is unbounded by design and deep nesting overflows the stack today")
n("N09","Markdown fixture documents survive a parse and print","Parsing and printing a fixture document yields the same sections, text and blocks.",["inputs"],"every fixture document","Tests sample two documents.",["testing/src/markdown.rs"],[("section regexes","testing/src/markdown/section.rs")],R)
n("N10","Derived names of tokens round-trip","For every keyword and punctuator, printing its name and parsing it back gives the same value, and no two share a name.",["inputs"],"every variant","Finite table, sampled by tests.",["macros/src/enum_from_string.rs","lexer/src/token.rs"],[("FromString derive","macros/src/enum_from_string.rs")],R)
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
