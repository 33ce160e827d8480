#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to edit the statements).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "SELECT/WHERE row pipeline is exact",
  "A SELECT over a row source emits, in source order, exactly one output row for each source row whose WHERE expression is truthy, and nothing else. "
  "Each output row has exactly the selected columns in the order listed (an alias or else the printed expression names the column; * contributes all the source row's columns that the explicit columns do not redefine), with every cell equal to its expression evaluated on that source row alone. "
  "WHERE sees both the source row's columns and the SELECT aliases, and an unknown name evaluates to NULL instead of failing the query.",
  ["programs", "inputs"], "every query assembled from a grammar of select lists, WHERE clauses and sources over every small row set",
  "The golden tests compare some 300 fixed queries with recorded output; the relation between an arbitrary select list, filter and row set is never stated or enumerated.",
  ["vfilter.go", "lazy.go"],
  [("row pipeline", "vfilter.go: _Select.Eval / processSingleRow"), ("column transform and star merge", "vfilter.go: _SelectExpression.Transform / mergeStarRow"), ("materialising a row", "lazy.go: MaterializedLazyRow")])

p("C02", "ORDER BY sorts and preserves rows",
  "A SELECT with ORDER BY col [DESC] emits exactly the multiset of rows, with unchanged columns, that the same query emits without ORDER BY. "
  "For consecutive output rows the later one's value in that column never compares less than (DESC: greater than) the earlier one's under the query language's own ordering. "
  "NULL and missing values come before every other value (DESC: after). This holds for any number of rows, for duplicate values, together with GROUP BY, and LIMIT then takes its prefix.",
  ["inputs", "programs"], "every multiset of up to a bounded number of rows over small value domains (numbers, strings, missing values, duplicates), both directions, with and without WHERE / GROUP BY / LIMIT",
  "Tests sort a handful of fixed lists; ordering is a property of every permutation and every duplicate pattern.",
  ["sort/sort.go", "vfilter.go", "vfilter_group.go"],
  [("sorter", "sort/sort.go"), ("feeding the sorter", "vfilter.go: _Select.Eval (ORDER BY branch)"), ("after grouping", "vfilter_group.go: EvalGroupBy")])

p("C03", "LIMIT is an exact prefix and stops the source",
  "A query with LIMIT n emits exactly the first min(n, m) rows of the m rows that the same query without LIMIT emits, for every n including 0. "
  "After the last wanted row the upstream is cancelled: the query's output ends by itself, an endless source stops producing, and no goroutine of the query remains.",
  ["inputs", "programs", "schedules"], "all n around 0..rows+2, all pipeline shapes (plain, WHERE, ORDER BY, GROUP BY, nested queries, foreach, endless sources), all goroutine interleavings up to a deviation bound",
  "The LIMIT tests check one query each for 'row count', under one schedule; early termination of upstream goroutines depends on scheduling.",
  ["vfilter.go"],
  [("limit loop and cancellation", "vfilter.go: _Select.Eval (LIMIT branch)")])

p("C04", "GROUP BY partitions rows into bins",
  "GROUP BY emits exactly one row per distinct value (tuple) of the grouping expressions among the rows that pass WHERE, in order of first appearance. "
  "Aggregate columns cover exactly the rows of that bin and non-aggregate columns come from one row of the bin (its last); rows of one bin never influence another bin. "
  "Grouping values that differ are never merged and equal values are never split.",
  ["inputs", "programs"], "every row sequence up to a bounded length over small key/value domains, every combination of grouping columns and aggregates",
  "Tests group a few fixed tables; binning is a statement about all key sequences, interleavings of keys and key types.",
  ["grouper/grouper.go", "vfilter_group.go", "aggregators/"],
  [("binning", "grouper/grouper.go"), ("driver", "vfilter_group.go")])

p("C05", "Aggregates are exact and atomic",
  "count, sum, min, max, enumerate (items) and custom stateful functions return, for each bin or whole query, the value of their mathematical definition over exactly the rows seen, however the rows arrive. "
  "Two different call sites in a query, two bins, two calls of a LET definition, and two evaluations of a query on scopes of their own (at once or one after another) never share an accumulator. "
  "When rows are produced by several workers at once no update is lost, in any interleaving.",
  ["schedules", "inputs", "programs"], "all row sequences up to a bound for the sequential part; all interleavings up to a deviation bound of workers that update the same accumulator",
  "A lost update needs a particular interleaving between two workers; tests run once on one CPU.",
  ["functions/aggregates.go", "aggregators/", "scope/scope.go", "vfilter.go"],
  [("accumulator storage", "aggregators/ and scope/scope.go: aggregator context"), ("functions", "functions/aggregates.go"), ("per call site identity", "vfilter.go: callFunction")])

p("C06", "Evaluation is lazy and happens at most once",
  "An expression whose value is not needed is never evaluated: the right side of a decided AND/OR, the untaken branch of if(), columns that are neither selected nor used, rows a consumer does not ask for, and stored lazy queries that are not read. "
  "A column of a row is evaluated at most once per row even when WHERE, aliases and the output all use it, and an argument of a function is evaluated at most once per call. (The untaken branch of the plugin if() is a query; other arguments of plugins are evaluated by the call.)",
  ["programs", "inputs"], "all expression trees of AND/OR/NOT/if over counting functions up to a bounded depth with all truth assignments, and all select/where/alias use patterns",
  "Tests check a few expressions for a side-effect log; laziness is a statement about every expression shape and truth assignment.",
  ["vfilter.go", "lazy.go", "functions/if.go", "protocols/lazy_wrapper.go", "plugins/if.go"],
  [("short circuit", "vfilter.go: _AndExpression/_OrExpression Reduce"), ("lazy rows and cells", "lazy.go"), ("if function and plugin", "functions/if.go, plugins/if.go")])

p("C07", "Operators obey their algebra and never fail",
  "Every operator (+ - * / = != < <= > >= IN =~ AND OR NOT, unary minus) is total: for every pair of operand types it yields a value (NULL or false if it has no meaning) and never panics. "
  "On numbers of any width or representation (that fit a signed 64 bit integer or a float other than NaN) the results are the arithmetic and ordering of the numbers (x = x, = symmetric, x < y iff y > x, at most one of < = > holds, != is NOT =, <= is < or =, integer arithmetic stays integral); strings order lexically and concatenate; list operators append and test membership by the same =.",
  ["inputs"], "all pairs (and triples for transitivity) of a value alphabet covering every type and boundary the dispatcher distinguishes",
  "The tests list fixed expressions; the laws quantify over all pairs of operand types and boundary values.",
  ["protocols/", "scope/dispatcher.go", "utils/utils.go", "vfilter.go"],
  [("protocol dispatch", "scope/dispatcher.go"), ("operator protocols", "protocols/protocol_*.go")])

p("C08", "Member, index and slice access is total",
  "x.name, x[i], x[-i] and x[a:b] on dicts, structs, pointers, lists, strings, rows and NULL yield exactly the addressed member, element or sub-range (negative indexes count from the end, out-of-range slices are clipped), and NULL when there is none; they never panic. "
  "A member of a list is the list of the members of its elements that have it. Listing the members of a value names members that access finds.",
  ["inputs"], "all container kinds and sizes 0..4 times all indexes and ranges in -6..6 including non-integers, strings and NULL",
  "Tests probe a few indexes of one list.",
  ["protocols/protocol_associative.go", "vfilter.go"],
  [("associative protocol", "protocols/protocol_associative.go"), ("member expressions", "vfilter.go: _MemberExpression.Reduce")])

p("C09", "String and number literals decode faithfully",
  "Every character sequence can be written as a string literal and reads back unchanged: quoted with escapes or in triple-quoted raw form; escape sequences decode to the characters they denote, any other escaped character denotes itself, an invalid hex escape is kept as written (one cut off by the end of the literal is dropped), and decoding never panics or changes other characters. "
  "Number literals (decimal without leading zeros, hex, float, exponent, signed, within range) denote their value, and back-quoted identifiers denote exactly the name between the quotes.",
  ["inputs"], "all strings up to a bounded length over an alphabet of quotes, backslashes, escape letters, hex digits, control and multi-byte characters",
  "Tests decode about ten literals.",
  ["utils/unquote.go", "vfilter.go"],
  [("unquoting", "utils/unquote.go"), ("literals", "vfilter.go: _Value.Reduce")])

p("C10", "Printing a query preserves its meaning",
  "Formatting a parsed statement back to text yields text that parses again and evaluates to the same rows and columns; formatting that text again gives the same text. "
  "Operator precedence, grouping parentheses, quoting of names and strings, parameters, defaults, aliases and clause order survive.",
  ["programs"], "all statements of a bounded grammar covering every production, nested two levels deep",
  "Golden files show the printed form of fixed queries but never re-parse and evaluate them.",
  ["visitor.go"],
  [("visitor", "visitor.go")])

p("C11", "Reformatting preserves tokens and comments",
  "Reformatting VQL text changes only white space and line breaks (besides the case of keywords, the spelling of a number and an optional comma): all other tokens stay as they are and in order, so the text it yields means the same; every comment is kept, in order; and reformatting its own output changes nothing more. "
  "Input that does not parse is reported as an error; reformatting never panics.",
  ["programs"], "all statements of the bounded grammar with comments at every position and several layouts",
  "Golden fixtures fix the layout of a few statements.",
  ["reformat/", "visitor.go"],
  [("reformatter", "reformat/"), ("visitor with comments and line breaks", "visitor.go")])

p("C12", "Positions and token streams match the source text",
  "Tokenising any text yields tokens in order whose recorded positions cover the text they were read from, without gaps other than skipped blanks and without overlap, or an error. "
  "The call-site information reported for a parsed statement names each call, bare symbol, argument, definition and parameter exactly once, as it is written, with the source range from its first token up to the token after it (blanks and comments may follow inside); the outline does so for definitions, queries, columns and the outermost function calls of a column.",
  ["inputs", "programs"], "all token sequences up to a bounded length from an alphabet with every token kind, including multi-line and multi-byte text",
  "Tests show one tokenised query and a few outlines.",
  ["tokenizer.go", "outline.go", "vfilter.go"],
  [("tokenizer", "tokenizer.go"), ("outline", "outline.go")])

p("C13", "Parsing is total, comment-neutral and splits statements",
  "Parsing any text returns a statement or an error and never panics or hangs, and the three entry points (single, multiple, multiple with comments) agree on what is valid for text without comments. "
  "Text holding several statements yields exactly those statements in order, each equal to what it parses to alone; inserting comments or blanks between tokens, or changing keyword case, never changes the meaning. "
  "Parsing with comments accepts them before statements, columns, arguments and operands, around the commas of a list and at the end of the text; elsewhere it may report an error.",
  ["inputs", "programs"], "all token strings up to a bounded length; all pairs and triples of statements of the grammar with comments at every token gap",
  "Tests parse well-formed fixed text.",
  ["vfilter.go"],
  [("lexer and grammar", "vfilter.go: vqlLexer, Parse, MultiParse, MultiParseWithComments")])

p("C14", "LET definitions are referentially transparent",
  "Replacing a use of a LET name by its definition, or a lazy definition by a materialised one, does not change results (for definitions without side effects); the body sees the caller's scope, its parameters (bound by name, defaults applied when missing, independent of parameter order) shadow outer names, and parameters never leak out. "
  "A later LET of the same name replaces the earlier one for later uses only; a materialised definition is evaluated exactly once, a lazy one at each use.",
  ["programs", "histories"], "all short sequences of LET and SELECT statements over a few names, with parameters, defaults, nesting and redefinition",
  "Tests run fixed multi-statement files.",
  ["stored.go", "vfilter.go", "protocols/stored_query.go", "materializer/"],
  [("stored expressions and queries", "stored.go"), ("call sites", "vfilter.go: _SymbolRef.Reduce"), ("materialising", "materializer/in_memory.go")])

p("C15", "Unbounded recursion is contained",
  "A definition that refers to itself, directly or through others, as expression, function, query or plugin, in any clause, ends with a logged error and NULL/no rows instead of crashing or hanging the process. "
  "Terminating recursion within the depth limit gives the right value, the query that contained the runaway part finishes, and the scope remains usable afterwards.",
  ["programs"], "all reference graphs on up to three LET names with each reference placed in any clause or call form",
  "Tests run three recursive definitions.",
  ["scope/scope.go", "vfilter.go", "stored.go"],
  [("depth guard", "scope/scope.go: CheckForOverflow")])

p("C16", "Scopes nest: inner shadows outer, nothing leaks back",
  "A name resolves to the most recently added binding in the scope or else to that of the closest enclosing scope it was copied from, also when the inner value is NULL or falsy. "
  "Bindings added to a child scope are never visible in its parent or siblings; registering functions, plugins, protocol implementations, context values or loggers becomes visible exactly as documented, and every operation order gives the same result as a simple stack-of-dictionaries model.",
  ["histories"], "all operation sequences up to a bounded depth over a parent, children and grandchildren",
  "Unit tests perform a handful of fixed operations.",
  ["scope/scope.go", "scope/dispatcher.go"],
  [("scope", "scope/scope.go"), ("shared dispatcher", "scope/dispatcher.go")])

p("C17", "Destructors run exactly once, in order, always",
  "Every destructor accepted by a scope runs exactly once, when that scope or an ancestor is closed, children before parents and later ones before earlier ones; closing again does nothing. "
  "Adding a destructor to a closed scope is refused with an error, so that in every interleaving of adding and closing it either runs once or is refused. "
  "A destructor may itself use the scope or add destructors without deadlock.",
  ["histories", "schedules"], "all operation sequences up to a bounded depth on a tree of scopes, and all interleavings of concurrent AddDestructor, Copy and Close",
  "One test closes one scope; the race between adding and closing is a schedule property.",
  ["scope/scope.go"],
  [("destructor stack", "scope/scope.go: AddDestructor, Close"), ("root destructors", "scope/scope.go: destructor context")])

p("C18", "Cancellation ends every query cleanly",
  "Cancelling the context of a running query, at any moment, ends it: the output channel is closed, every goroutine started for the query finishes even if the consumer stopped reading, plugins see the cancellation, and scopes created for the query are closed so that their destructors run. "
  "A query that is not cancelled ends by itself when its sources end. There is no deadlock, no leaked goroutine and no panic.",
  ["schedules", "fault_sequences"], "every query shape of the language, cancelled at every scheduling point, consumers that stop after k rows, all interleavings up to a deviation bound",
  "A leak or deadlock needs a cancel at a particular point; tests drain queries to the end.",
  ["vfilter.go", "vfilter_group.go", "sort/sort.go", "plugins/", "lambda.go", "stored.go", "api.go"],
  [("pipeline goroutines", "vfilter.go, vfilter_group.go, sort/sort.go"), ("plugins", "plugins/*.go")])

p("C19", "Query results do not depend on scheduling",
  "For any query without explicit parallel workers, the sequence of emitted rows, their columns and values are the same in every goroutine interleaving and for every map iteration order, and each call site of a function is evaluated with the same arguments in the same order, and the same messages are logged. "
  "(Stages of a query may overlap, so calls of different stages may interleave, and rows behind a LIMIT or behind the one that decides a truth value may or may not be evaluated.) "
  "Running the same query twice on equal scopes gives equal results; neither depends on memory addresses.",
  ["schedules"], "each query shape of the language, all interleavings up to a deviation bound from four base schedules, and both map orders",
  "The tests observe one schedule each.",
  ["vfilter.go", "vfilter_group.go", "sort/sort.go", "plugins/", "protocols/"],
  [("channels between stages", "vfilter.go"), ("map iteration", "utils/dict/dict.go, protocols/")])

p("C20", "A parsed statement can be evaluated concurrently",
  "Evaluating the same parsed statement from several goroutines at once, each with its own scope (with the same functions and plugins registered) or with copies of one scope, gives each evaluation the result it has alone, without data races, deadlock or crash. "
  "(The state of aggregate functions outside of GROUP BY belongs to the scope and is shared with its copies, unless they are given an aggregator context of their own.) "
  "The same holds for formatting or outlining it while it is evaluated, and for evaluating, formatting or outlining it again later.",
  ["schedules"], "all statement shapes of the language evaluated by two goroutines, all interleavings up to a deviation bound, with a happens-before race check",
  "Tests evaluate a statement once in one goroutine; caches filled in on first use are only racy under particular schedules.",
  ["vfilter.go", "visitor.go", "scope/", "protocols/", "utils/"],
  [("AST caches", "vfilter.go: _Value, _SymbolRef, _AliasedExpression, Plugin, VQL"), ("shared dispatcher and regex cache", "scope/dispatcher.go, protocols/protocol_regex.go")])

p("C21", "foreach with workers loses and duplicates nothing",
  "foreach(row, query, workers=n) emits, for every n and every interleaving, exactly the multiset of rows that it emits with one worker: each row is passed to the query exactly once with only its own columns bound. "
  "With one worker the order is that of the rows; when the consumer stops or the context is cancelled all workers end.",
  ["schedules", "inputs"], "rows 0..4, workers 0..4, query shapes, all interleavings up to a deviation bound and cancellation at every point",
  "One test runs a parallel foreach once.",
  ["plugins/foreach.go"],
  [("worker pool", "plugins/foreach.go")])

p("C22", "Call arguments are checked and converted faithfully",
  "A function or plugin that declares its arguments receives each declared field set to the value passed, converted to the declared type, or the call reports an error (a float for an integer field is truncated, a number that does not fit is an error): unknown arguments, missing required arguments and inconvertible values are errors, optional missing arguments stay at zero. "
  "Parsing arguments never panics for any combination of declared type and value, whether values are immediate or lazy.",
  ["inputs"], "all declared field types times all value types times required/optional times present/absent times lazy/immediate",
  "Tests list some 30 fixed combinations.",
  ["arg_parser/parser.go", "arg_parser/args.go"],
  [("argument parser", "arg_parser/")])

p("C23", "Batched responses carry every row once, in order",
  "Reading a query through the batched response API yields packets whose rows, concatenated, are exactly the query's rows in order, encoded with the query's columns; every packet has at most the requested number of rows (one or more), part numbers count up from 0 without gaps, and totals agree. "
  "This holds whatever the timing of the row source relative to the flush timer, and a row that was produced is delivered within the maximum wait to a reader that is ready. When the query is cancelled the packets hold the first of its rows, and for a reader that keeps reading the packet channel is closed when the query ends or is cancelled. "
  "An encoder's error is logged, and no row is sent twice because of it. OutputJSON encodes the same rows at once. (What a nested or grouped query inside a cancelled query contributes is not specified.)",
  ["schedules", "inputs"], "row counts 0..6, packet sizes 1..4, flush timers at every point, all interleavings up to a deviation bound",
  "One test reads two packets; the flush timer racing with rows is a schedule property.",
  ["api.go", "utils/", "types/"],
  [("batcher", "api.go: GetResponseChannel, OutputJSON")])

p("C24", "Saved scopes restore to the same behaviour",
  "Saving a scope to its serialised form and loading it into a fresh scope restores every variable of a supported kind (scalars, strings, lists, dicts, nested values, lazy and parameterised LET definitions) so that any query gives the same result on both. A number is restored as a number of the same value (a whole float may become an integer) and a materialised query as the list of its rows; "
  "structs, times and byte strings are restored as their JSON form says. Unsupported values are reported or skipped without affecting the others, and saving never panics.",
  ["inputs", "histories"], "all scopes of up to three variables from an alphabet of values and definitions",
  "One golden test saves one scope.",
  ["marshal/", "marshal.go", "scope/marshal.go"],
  [("marshalling", "marshal.go, scope/marshal.go, marshal/")])

p("C25", "Built-in plugins and functions match their definition",
  "range, flatten, chain, if, foreach and scope as row sources, and dict, get, len, split, if, format, encode and timestamp as functions, and lambdas give exactly what their documented definition says for every argument combination. "
  "Missing optional arguments take their defaults, bad arguments are logged and give NULL or no rows, and none of them panics.",
  ["inputs"], "all combinations of small argument domains including missing, NULL, wrongly typed, lazy and nested arguments",
  "Tests call each with one or two argument lists.",
  ["plugins/", "functions/", "lambda.go"],
  [("plugins", "plugins/*.go"), ("functions", "functions/*.go"), ("lambda", "lambda.go")])

p("C26", "EXPLAIN, logging and tracing do not change results",
  "Running a query with EXPLAIN, without a logger, with a tracer, a custom materialiser, sorter or grouper that behave as the defaults do (and which are then the ones used), or under a throttler, yields the same rows in the same order as without. "
  "Except under EXPLAIN the same functions are called in the same order too. The statistics count exactly the rows scanned by FROM clauses and the functions and plugins called, a throttler is charged for every row scanned, and no error is logged for a correct query. "
  "A definition called by the application gets the defaults of its parameters as it does in a query. EXPLAIN reports conditions literally, and reads a row only before it is handed to the receiver. A time throttler that is closed lets running queries go on to their end.",
  ["configurations", "programs"], "all combinations of the observation switches with each query shape",
  "Tests run EXPLAIN on two queries and look at the log only.",
  ["explain/", "scope/scope.go", "vfilter.go", "throttle.go", "types/stats.go"],
  [("explainer hooks", "explain/"), ("stats", "types/stats.go")])

p("C27", "Custom protocols extend operators without disturbing others",
  "A protocol implementation registered for an application's own types (structs, pointers, named numbers, strings, lists and maps) decides every operator application it declares itself applicable to, unless an operand is NULL: it is asked once, with the operands in their order, and its answer is the result, wherever the query language applies the operator (conditions, comparisons in clauses and builtins, elements of lists and dicts). An object that implements several protocols decides for each. This holds in the scope it is registered in and its copies; a new scope made from one has the registrations made so far and shares no later ones. Results for all other operand types are unchanged. "
  "The order of registration among disjoint implementations and the time of registration relative to copying do not change results.",
  ["histories", "configurations"], "all subsets and orders of registration of implementations for the twelve protocols times operand pairs of built-in and custom types",
  "Tests register one implementation for one operator.",
  ["scope/dispatcher.go", "protocols/"],
  [("registration and dispatch", "scope/dispatcher.go: AddProtocolImpl")])

p("C28", "Queries release what they hold",
  "The scopes a query passes to its functions and plugins are open while the query runs, so that the destructors they add are accepted, and the query closes all of them: once its rows have been read to the end (for a query that is cancelled or limited, and for subqueries of which only the first rows are used: once its goroutines have stopped) every destructor added by its functions, plugins, definitions, lambdas and subqueries, in columns, conditions, sorted, grouped, materialised and nested queries, has run exactly once, without the scope of the application being closed. "
  "What is held per row is released row by row: the number of scopes (and destructors) a query holds at once does not grow with the number of rows it reads.",
  ["inputs", "schedules"], "all expressions x positions in queries x ends (complete, limit, cancellation), all schedules within a deviation bound",
  "Tests register one destructor on a scope that the test closes itself; none counts what queries leave open.",
  ["vfilter.go", "vfilter_group.go", "grouper/grouper.go", "stored.go", "lambda.go", "plugins/foreach.go", "plugins/chain.go", "scope/scope.go"],
  [("scopes of rows", "vfilter.go: processSingleRow, Transform"), ("scopes of grouped rows", "vfilter_group.go: GetNextRow; grouper/grouper.go: Group"), ("scope of the query", "vfilter.go: VQL.Eval")])

p("C29", "Scopes are safe for concurrent use",
  "A scope may be used by any number of goroutines at once, and so may its parent, children and siblings: whatever two operations run at the same time on related scopes (adding and resolving variables, copying, closing, adding destructors, the context store, aggregator contexts, registering and looking up functions and plugins, describing, logging, tracing, sorters, groupers, materializers, explainers, new scopes, marshalling, evaluating queries, definitions, lambdas and operators), each returns, and leaves the scopes behind, as if the two had been called one after the other in one of the two orders; the same holds of three operations at once on one scope. No schedule has a data race, a deadlock or a panic. "
  "Functions and plugins may use the scope (log, look up others) while they describe themselves. Excepted are ClearContext (documented as deprecated), SetThrottler and AddProtocolImpl, which belong to the set-up of a scope, and an operation made of several steps (a copy that is then changed) is atomic in each step only.",
  ["schedules", "inputs"], "all pairs of 54 operations x 3 relations of their scopes x all schedules within a deviation bound; triples of 9 core operations",
  "Tests use a scope from one goroutine, or several that do the same thing; a lost update needs two different operations and a switch between two particular steps.",
  ["scope/scope.go", "scope/dispatcher.go", "scope/internal.go", "scope/marshal.go", "scope/aggregators.go", "aggregators/", "types/scope.go", "types/stats.go"],
  [("variables, children, destructors", "scope/scope.go: AppendVars, Copy, Close, AddDestructor"), ("shared registry", "scope/dispatcher.go: protocolDispatcher"), ("aggregator context", "scope/scope.go: GetAggregatorCtx")])

p("C30", "A scope describes what its calls accept",
  "The description of a scope lists each function and plugin that a call can reach exactly once, under the name it is called by, with the version, doc and metadata of the one that is called, for whatever history of registrations, copies and new scopes. "
  "The arguments described are the ones accepted: a described argument is accepted, one that is not described is refused unless any are accepted, and one described as required is demanded. Tags of arguments are read whatever the name of the argument and the text of the doc. A function is described as an aggregate exactly if its results depend on earlier rows. "
  "The description of a type has every exported field (those of embedded structs included; or the members the application's protocol chooses) and every accessor method, with the type each leads to and whether it is repeated. It depends on the type only: not on which types were described before, in which order, from which exemplar (value, pointer, nil pointer, list) or how often.",
  ["histories", "inputs"], "all sequences of descriptions of types up to 4, all argument types x tags, all sequences of registrations up to 5",
  "Tests describe one scope once and compare with a recording of the same code; none compares descriptions with calls.",
  ["types/introspection.go", "scope/dispatcher.go", "scope/scope.go", "arg_parser/parser.go", "functions/", "plugins/"],
  [("types", "types/introspection.go: AddType"), ("registrations", "scope/dispatcher.go: Describe"), ("arguments", "arg_parser/parser.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
