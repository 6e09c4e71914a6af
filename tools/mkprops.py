import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
R="src/render/core.rs"; RM="src/render/mod.rs"; ST="src/render/stack.rs"; IT="src/render/iter.rs"; RV="src/render/value.rs"; FMT="src/fmt.rs"; ERR="src/error.rs"; LIB="src/lib.rs"; LEX="src/compile/lex.rs"; PAR="src/compile/parse.rs"; CMP="src/compile/mod.rs"; FI="src/filters/mod.rs"
p("P01","Any writer receives the rendered output exactly once and in order",
 "For every template, data and writer that keeps working, the bytes the writer accepts are exactly the bytes that rendering the same thing to a string produces: nothing lost, repeated, reordered or altered, however small the pieces the writer takes and however often it asks to be called again after an interruption. When rendering itself fails, the writer has received exactly the output that precedes the point of failure.",
 ["inputs","fault_sequences"],"all templates, data and registered formatters; all sequences of short writes and interrupted calls of the writer; by value, by reference and boxed writers",
 "The tests render to a Vec that accepts every write whole; a short or interrupted write never happens.",
 [RM,FMT,R],[("to_writer",RM),("Writer, Formatter::write_str/write_char/write_fmt",FMT)],["bytes accepted by the writer","result of the call"])
p("P02","A failing writer stops the render, and its own error comes back",
 "Once the writer fails (an error, or accepting zero bytes), rendering stops: no further write is attempted, no further filter, formatter, value function or template resolver runs, and what the writer accepted before is an exact prefix of the full output. The call returns an I/O error that still carries the writer's original error: same kind, same OS code, same payload.",
 ["inputs","fault_sequences","crash_points"],"all templates and data; failure at every output byte and at every write call; every error kind, OS error, custom error and the zero-length write of a full disk",
 "One test fails one write with one error kind; the position, kind and what runs afterwards are not sampled.",
 [RM,FMT,ERR,R],[("to_writer's recovery of the stored error",RM),("Writer::take_err",FMT)],["writer calls","callback calls","returned error and its source"],[("stored I/O error","the writer's error while it crosses the formatting layer","src/fmt.rs Writer")])
p("P03","Failures stop rendering where they happen and say exactly where that was",
 "When user code called during a render reports a failure, or the engine rejects what the template asks for, rendering stops there: no later callback runs and no later output is written. The returned error has the right class, carries the user's message unchanged, names the template that was executing (innermost include), and points at the line and column of the failing construct in that template's text; its long form quotes that line and marks that column.",
 ["inputs","fault_sequences"],"all templates (any text, including non-ASCII and multi-line), include nestings and data; failure of any filter, formatter, value function or resolver at any call; every kind of run-time rejection",
 "The tests hold a few dozen hand-written error texts over short ASCII templates, each failing at its only interesting point.",
 [ERR,R,ST,RV,FI,IT],[("error construction and enrichment",ERR),("error location formatting (line and column)",ERR),("attribution to the including or included template",R)],["short and long form of the error","callbacks and output after the failure"])
p("P04","Rendering does what a plain reading of the template says, in that order",
 "For every template written in the documented syntax and every data, the output, and the sequence of calls to filters, formatters and value functions with their arguments, are those of reading the template from top to bottom: each executed tag is evaluated exactly once, branches not taken are not evaluated at all, loop bodies run once per element in order, filters apply left to right. Literals, member access, trim markers, comments and custom delimiters mean what the documentation says.",
 ["programs","inputs","configurations"],"all programs of the template language, all data, all delimiter configurations, all sets of registered functions",
 "The tests cover each construct alone or in pairs; programs that combine them, and the order and number of callback effects, are unbounded.",
 [LEX,PAR,CMP,R,IT,ST,RV,FI,FMT],[("lexer and delimiter search","src/compile/lex.rs, src/compile/search"),("jump targets of conditionals and loops",CMP),("instruction loop",R),("filter application",FI)],["output","log of callback invocations with arguments"])
p("P05","Bindings keep the value they were given and end with their block",
 "A loop or with binding holds the value its expression had when the block was entered, even if the data source answers differently later; the expression is evaluated once. Inner bindings shadow outer ones and the outer ones are back after the block, loop metadata always belongs to the innermost loop, and optional member access on any binding yields none instead of an error or of some other binding.",
 ["programs","inputs","schedules"],"all nestings of loops, with blocks, conditionals and includes; lists, maps and values from borrowed data, owned data and value functions whose answers change from call to call",
 "The tests use data that never changes and at most two nested scopes.",
 [ST,IT,RV,R],[("scope stack lookup",ST),("loop state and loop metadata",IT),("path lookup",RV)],["output","value function calls"],[("scope stack","bindings in force","src/render/stack.rs Stack"),("loop state","current element and position","src/render/iter.rs LoopState")])
p("P06","Includes run the right template in the right scope and restore the caller's",
 "An include names a template that is looked up when the include is executed: in the engine as it is at that time, or through the resolver given for this render. The included template sees the including scope, or with an explicit value only that value and nothing around it; whatever it binds is gone when it ends, and the including template continues exactly where it was.",
 ["programs","histories","inputs"],"all include graphs with and without explicit scope, inside loops and with blocks, rendered after any sequence of template additions, replacements and removals, with engine lookup or custom resolver (which may answer differently each time)",
 "The tests include one level of small templates from a fixed engine.",
 [R,ST,LIB],[("include frames and scope boundary",R),("boundary in scope lookup",ST),("get_template",R)],["output","resolver calls","value function calls","error template names"],[("frames","templates being rendered, with resume position","src/render/core.rs")])
p("P07","Include recursion is stopped exactly at the configured limit",
 "A render nests templates (the outermost counting as one) up to the maximum include depth of the engine, or of this render if it overrides it, and no deeper: a render that stays within the limit succeeds, the first include that would exceed it fails with the include depth error after delivering all output before it. Recursion that is never cut off by data therefore always ends, without exhausting stack or memory; sequential includes do not add up.",
 ["programs","inputs","configurations"],"all recursive include structures (direct, mutual, through loops and with blocks, with and without scope, through resolvers), all limits from 1 up, any recursion depth of the data",
 "One test checks one self-including template with the default limit.",
 [R,LIB,RM],[("depth check in the frame loop",R),("set_max_include_depth",LIB),("with_max_include_depth",RM)],["result","output before the failure"])
p("P08","The engine's registries behave like maps over any history of changes",
 "After any sequence of adding, replacing and removing templates, filters and formatters, including attempts that fail, lookups, renders and return values are those of a plain map from name to the last successfully added item; a failed addition changes nothing. Filters and formatters share one name space, templates refer to functions and templates by name at render time, and already compiled templates are unaffected by later changes to the template registry.",
 ["histories","fault_sequences"],"all interleavings of registry operations, failing additions (damaged sources), limit and default formatter changes, lookups and renders",
 "The tests perform at most two registry operations on an engine.",
 [LIB],[("add_template, remove_template, get_template, template",LIB),("add_filter, add_formatter, remove_function",LIB),("set_default_formatter",LIB)],["return values","lookups of every name ever used","renders"],[("templates","name to compiled template","src/lib.rs Engine"),("functions","name to filter or formatter","src/lib.rs Engine")])
p("P09","Damaged template text is refused cleanly and never harms the engine",
 "Whatever text arrives as a template (truncated, torn, spliced, with bytes lost, repeated or replaced), compiling ends with a template or a syntax error that can be printed, never with a panic, a hang or runaway memory. Text cut off inside a tag or inside an open block is always an error, text cut off anywhere else means exactly its intact part; an error names the template it concerns, and a template stored earlier under that name stays as it was.",
 ["inputs","fault_sequences","crash_points"],"all truncation points and all torn, spliced, duplicated, deleted or substituted variants of all templates, under all delimiter configurations",
 "The tests list some forty malformed snippets; truncation at every point of large templates and damage under custom delimiters are not tried.",
 [LEX,PAR,"src/compile/search",ERR,LIB,CMP],[("unclosed tag and unexpected end errors","src/compile/lex.rs, src/compile/parse.rs"),("block stack of the parser",PAR),("compile before insert in add_template",LIB)],["result of compiling","error text","later lookups and renders"])
p("P10","Threads sharing one engine never affect each other's results",
 "An engine, compiled templates and values can be shared between threads, and any number of threads may compile, look up and render at the same time: in every interleaving each operation has the same output, result, error and callback sequence as when it runs alone. This holds although other threads fail, panic in their callbacks or have failing writers at the same time.",
 ["schedules","inputs","fault_sequences"],"all interleavings of concurrent renders, compilations and lookups on one engine, at callback and write boundaries and inside the engine, with failing callbacks and writers in some threads",
 "No test uses a second thread.",
 [LIB,R,RM,ST],[("immutability of the engine during rendering","src/lib.rs render/compile take &self"),("per-render state on the caller's stack",RM)],["every operation's result, output and callback log"])
p("P11","User code may use the engine again from inside a render",
 "A filter, formatter, value function, template resolver or writer that is called during a render may itself compile, look up or render with the same engine, to any depth, also the very template that is being rendered and also from a new thread it waits for. Neither the inner nor the outer operation notices: both behave exactly as if they had run alone, also when the inner one fails.",
 ["programs","schedules","fault_sequences"],"all positions of nested operations inside renders, nested to several levels, with inner failures",
 "No test re-enters the engine.",
 [R,RM,LIB,FMT],[("no locks or shared state held while callbacks run","src/render/core.rs, src/lib.rs")],["inner and outer results, outputs and callback logs"])
p("P12","A stalled callback in one thread holds up nobody else",
 "While one thread's render is paused indefinitely inside a filter, formatter, value function, resolver or writer, every operation of other threads on the same engine runs to completion. When the paused callback returns, its render completes correctly as well.",
 ["schedules","fault_sequences"],"all points at which a callback or writer may stall, all operations of other threads meanwhile",
 "No test uses a second thread or a slow callback.",
 [LIB,R,RM,FMT],[("no locks or shared state held while callbacks run","src/render/core.rs, src/lib.rs")],["completion of the other threads' operations while the stall lasts"])
p("P13","A panic in user code passes through and leaves the engine intact",
 "A panic raised by a filter, formatter, value function, resolver, writer or serialized value during a render reaches the caller with its payload, after which nothing more of that render runs. The engine and all templates stay fully usable: later operations, also in other threads, give the same results as if the panicking render had never happened.",
 ["crash_points","histories","schedules"],"a panic at any callback or write of any render, any sequence of operations afterwards and concurrently",
 "No test lets a callback panic during a render.",
 [R,RM,LIB,FMT,"src/value/ser"],[("no engine state changed during a render","src/lib.rs, src/render/mod.rs"),("no poisoned locks","src/lib.rs")],["payload at the caller","all later results"])
p("P14","Data is converted completely and faithfully before rendering, or not at all",
 "Serializable data becomes template data by fixed rules (numbers, strings, characters, options, units, sequences, tuples, maps, structs and enum variants, keys as text), each part being serialized exactly once. If any part fails, is out of range or has an unusable key, the conversion or the render fails with a serialize error carrying the original message, before any output is written and before any callback runs.",
 ["inputs","fault_sequences"],"all serializable values, nested in any way, with failures (errors or panics) at any part",
 "The tests convert a few dozen literal values and never one whose serialization fails half way.",
 ["src/value/ser",RM,ERR],[("serializer and its compound states","src/value/ser"),("conversion in render before the renderer exists",RM)],["converted value","error","absence of effects"])
p("P15","Everything handed over is released once, and nothing accumulates",
 "Every function registered with an engine, and every writer, value function and resolver given to a render, is dropped exactly once: when it is replaced or removed, when the render ends in any way (success, error, writer failure, panic, never started), or with the engine. Repeating operations does not accumulate memory, and rendering borrowed data to a writer neither copies that data nor buffers the output, so the memory it needs does not grow with the number of elements looped over beyond a few words for each.",
 ["histories","fault_sequences","inputs"],"all histories of registrations, renders with every outcome, and repetitions of them; data sets of very different sizes",
 "The tests observe values, not lifetimes or memory.",
 [LIB,RM,IT,ST,"src/value/cow.rs"],[("ownership of boxed functions",LIB),("borrowed values in scopes and loops","src/value/cow.rs, src/render/iter.rs")],["drop counters","live and peak heap bytes"])
p("P16","An operation's result depends on its inputs only, not on what ran before",
 "Rendering, compiling and looking up give results (output, callback sequence, error text) determined by the engine's registered items and the arguments: the same for the thousandth time as for the first, after any number of failed or panicked operations, in any process, and with other engines in use. It also makes no difference whether a template is rendered through the engine or as a separately compiled one, from serializable data or from the equal template value, to a string or to a writer.",
 ["histories","inputs","configurations"],"all histories of successful, failing and panicking operations before an operation; repetitions in other processes; all equivalent routes to the same render",
 "The tests run every operation once on a fresh engine.",
 [LIB,R,RM,ST],[("no hidden state between renders","src/lib.rs, src/render/mod.rs")],["digest of all observations, compared across repetitions and processes"])
p("P17","Rust values, the value macro and serialization agree on template values",
 "A template value is the same however it is built: from the variants, from Rust values and collections (scalars, strings, options, lists, arrays, maps, iterators, with any user type convertible to a value inside), in the value macro, by serializing, by cloning or serializing a finished value again, and by any nesting of these. Every part is converted exactly once; when the conversion of a part panics or its serialization fails, that panic or error comes out (the macro, which cannot return an error, panics). Equal data compare equal and different data do not, and rendering from the built value, taken as it is or serialized again, gives what the data says.",
 ["inputs","programs","fault_sequences"],"all nestings of all conversions the crate offers over all data, incl. limits of the number types, unusual floats, repeated and empty keys; user conversions and serializers that fail or panic at any part",
 "The tests compare a few dozen flat values, each built one way; conversions of user types are never nested, and none fails.",
 ["src/value/from.rs","src/value/mod.rs","src/macros.rs","src/value/ser"],[("From and FromIterator impls","src/value/from.rs"),("value macro","src/macros.rs"),("Serialize for Value","src/value/ser/mod.rs")],["the resulting value","parts converted","panic or error that comes out","output of rendering from it"])
p("P18","A text is either a template or gets a syntax error that points at the spot",
 "A template text, however it came about, either follows the documented syntax, then it is accepted and renders what it says; or compiling fails with a syntax error that names the template and whose line and column are where the text stops being a valid template: the first character or token that cannot stand there, the literal that is out of range or malformed, the tag that is interrupted or has no partner, the outermost block that is never closed, or the end of the text.",
 ["inputs"],"all texts: valid templates and everything that edits, losses, torn writes and splices turn them into, under any delimiters, on any line, after text of any width",
 "Some forty malformed snippets, each with one error on the first line.",
 [LEX,PAR,ERR],[("tokens and their spans",LEX),("grammar and error spans",PAR),("line and column of an error",ERR)],["whether compiling succeeds","long form of the error","output of what was accepted"])
p("P19","Optional features can be combined freely without changing shared behaviour",
 "Whatever subset of the optional features (filters, serde, unicode) is enabled, the crate builds and offers everything that does not need a missing feature, and all of that behaves as it does with all features: the same texts are templates, the same data and callbacks give the same output, effects and errors, with the same location. Only names outside ASCII, and columns counted by display width, need the unicode feature.",
 ["configurations","programs","inputs","fault_sequences"],"all subsets of the features; for each, all templates, data, registered functions, writers and faults that need no other feature",
 "The tests run with the default features; the CI job for other subsets repeats the same samples, half of which those subsets compile out.",
 ["Cargo.toml",LIB,R,RM,ERR,LEX,"src/value"],[("cfg attributes and alternative implementations","src/lib.rs, src/render/core.rs, src/error.rs, src/compile/lex.rs"),("identifier rules without unicode",LEX),("column width without unicode",ERR)],["whether it builds","output, callback events, error text, compared between builds"])
p("P20","Filters get exactly the arguments the template names, or are not called",
 "A filter runs only if the template gives it as many arguments as it takes and each value fits its parameter's type: then it receives the piped value and the arguments in written order, unchanged, and what it returns (any convertible type, or a result) becomes the value of the expression. Otherwise it is not called, and the render fails with a render error that names the template and points at the argument that does not fit, or at the filter's name if it is the piped value or the number of arguments that is wrong.",
 ["programs","inputs","configurations","fault_sequences"],"all filter signatures (up to five parameters of every owned and borrowed type, all return types), all values and literals incl. the limits of the integer types, all templates applying them, with failing and panicking filters",
 "The tests register a dozen signatures; the 150 implementations for mixed owned and borrowed parameters are each written by hand and mostly never called.",
 [FI,"src/filters/args.rs","src/filters/impls.rs","src/value/from.rs"],[("argument count and type checks",FI),("conversion of arguments","src/filters/args.rs"),("implementations for borrowed parameters","src/filters/impls.rs"),("conversion of returned values","src/value/from.rs")],["arguments seen by the filters","output","error text"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
NA={}
notes={
"P01":"seeded simulation of awkward writers against a reference interpreter",
"P02":"seeded fault injection at output bytes and write calls",
"P03":"seeded fault injection into callbacks, error oracle from a reference interpreter",
"P04":"seeded simulation with callback trace refinement against a reference interpreter",
"P05":"seeded simulation with drifting value sources against a reference interpreter",
"P06":"seeded simulation of include graphs and registry histories against a reference interpreter",
"P07":"seeded simulation of recursion against exact depth model",
"P08":"seeded operation histories refined against a map model",
"P09":"seeded storage damage (torn, truncated, spliced text) with crash and hang watch",
"P10":"deterministic scheduler over real threads, seeded interleavings, sequential oracle",
"P11":"seeded re-entrant operations injected into callbacks",
"P12":"deterministic scheduler with stalled callbacks, bounded progress of the others",
"P13":"seeded panic injection with later-history refinement",
"P14":"seeded serializer failures and data shapes against a conversion model",
"P15":"simulated histories with drop counters and an accounting allocator",
"P16":"seeded soak histories, cross-route and cross-process digest comparison",
"P17":"seeded conversion plans with failing and panicking user conversions, against a conversion model",
"P20":"seeded simulation of filter calls of every signature, with injected failures, against a reference interpreter",
"P19":"the same seeded simulation with fault injection in builds with every feature subset, refinement and digest comparison between builds",
"P18":"seeded storage damage to template texts, verdict and error position from an independent reference parser",
}
checks=[]
for x in P:
    if x['id'] in NA: continue
    i=x['id']
    checks.append(dict(property=i,quick_cmd=f"./run.sh check {i}",thorough_cmd=f"VERIF_TIER=thorough ./run.sh check {i}",technique="deterministic simulation with fault injection: "+notes[i],level="exploration",
     level_note="Seeded search over generated scenarios run on the real crate and compared step by step with an executable reference; no exhaustiveness. Trusts the reference interpreter (sim/src/model.rs, ast.rs, ser.rs, refparse.rs) to state the documented behaviour. Every reported violation was reproduced from its replay file in a fresh process."))
m=dict(version=1,setup_cmd="./run.sh build",checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="No hooks in /repo: every source of nondeterminism enters through the crate's public seams (writers, value functions, resolvers, filters, formatters, serde, template text) or the process's global allocator. /repo has fix: commits only; see known-findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
