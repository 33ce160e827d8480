NA = { 'C06': (SCH + '; plus exhaustive enumeration of expressions and clauses', 'Bounds: AND/OR/NOT/if trees over counting functions to depth 2 (thorough 3) with all truth assignments, all select/where/alias use patterns, five worker scenarios up to 1-3 deviations.'),
 'C08': (SEQ, 'Bounds: 29 values of all kinds, 53 accesses and 323 ranges, one and two steps (thorough three).'),
}
CLAIMS = {
 'C01': (SEQ, 'Bounds: column lists up to 3 from a pool of 22, 26 WHERE clauses, tables up to 2 rows (thorough 3) over 7 row shapes, 10 kinds of source.'),
 'C02': (SEQ, 'Bounds: all value sequences up to 4 (thorough 5) from several pools, directions, columns, with WHERE, GROUP BY and LIMIT.'),
 'C03': (SCH + '; plus exhaustive enumeration of limits, sources and clauses', 'Bounds: see the evidence; limits 0..m+1 over all source kinds; schedules up to 2-3 deviations for endless sources.'),
 'C04': (SEQ, 'Bounds: all pairs of 60 grouping values, all bin histories up to 5 rows, tuples of two keys.'),
 'C05': (SCH + ', with a happens-before race check on each schedule; plus exhaustive enumeration of row sequences', 'Bounds: item sequences up to 4 (thorough 5), worker scenarios up to 1-4 deviations.'),
 'C07': (SEQ, 'Bounds: all ordered pairs of about 143 operand values of all types, each operator both through the scope and in a query.'),
 'C06': (SCH + '; plus exhaustive enumeration of expressions and clauses', 'Bounds: AND/OR/NOT/if trees over counting functions to depth 2 (thorough 3) with all truth assignments, all select/where/alias use patterns, five worker scenarios up to 1-3 deviations.'),
 'C08': (SEQ, 'Bounds: 29 values of all kinds, 53 accesses and 323 ranges, one and two steps (thorough three).'),
 'C09': (SEQ, 'Bounds: all strings of up to 3 (thorough 4) characters over 22 in four literal forms, all literal bodies up to 5 (6) over 10, all number literals up to 5 (6) characters, all names up to 2 (3) pieces in 16 places.'),
 'C10': (SEQ, 'Bounds: all statements of the bounded grammar in harness/pool.go: expressions nested 2 (thorough 3) operators deep, every atom in every place, all clause combinations, all forms of LET and lambda.'),
 'C11': (SEQ, 'Bounds: the statements of the pool in 5 layouts; 10 texts with 6 kinds of comments at each gap and pairs of comments at all pairs of gaps; each token left out, doubled, swapped or replaced.'),
 'C13': (SEQ, 'Bounds: all sequences of up to 3 (thorough 4) of 19 tokens after 9 beginnings; all texts of up to 3 (5) of 19 characters; all sequences of 3 of 13 statements; 11 comments and blanks at each gap.'),
 'C12': (SEQ, 'Bounds: tokens of all texts of up to 3 (thorough 5) of 19 characters and of the statement pool; 11 marked up statements around 99 forms of expressions with 6 kinds of blanks and comments at all gaps and at each one.'),
 'C14': (SEQ, 'Bounds: programs of two (thorough three) LETs: 23 expression and 20 query bodies that use each other, 9 forms of parameters, defaults and operators, 17 and 15 uses; every expression of the pool in place and through 10 forms of definition.'),
    "C15": (SEQ, "every runaway definition from a grammar of bodies, references, parameters and uses is run to its end on the real interpreter with a part of the stack left, and terminating recursions are compared with their value for every depth"),
    "C16": (SEQ, "every sequence of scope operations up to the bound is run on real scopes and compared after each step with a stack-of-dictionaries model; query constructs that bind names are nested in all ways"),
    "C17": (SCH, "all sequences of adding, copying and closing with seven kinds of destructors, and all schedules within the deviation bound of concurrent adds, copies, closes and queries"),
    "C18": (SCH, "over 90 queries that use endless or finite sources in every operator, clause, builtin and definition, each cancelled at every moment (one or two deviations) or when each of the first rows is produced; afterwards nothing may be left running"),
    "C19": (SCH, "130 query shapes: every schedule with one deviation from each of four base schedules (two in the thorough tier), every pool statement under four base schedules and both map orders; each execution is compared with the one of the first base schedule and with a second evaluation"),
    "C20": (SCH, "some 50 statement shapes evaluated by two goroutines in own scopes (while a third prints and outlines them) and in copies of one scope: every schedule that deviates once (thorough: twice) from one of four base schedules at an operation on an object both evaluations use, compared with an evaluation alone; every base schedule also under the race detector; statements of the pool under four base schedules"),
    "C21": (SCH, "11 query shapes x tables of rows x numbers of workers: every schedule with one deviation (thorough: two) from each of two to four base schedules, complete, with LIMIT and with cancellation at every moment; all tables, options and kinds of row sources under four base schedules; compared with the rows computed by the specification"),
    "C22": (SEQ, "21 types of fields x 84 values x 15 ways of passing them (immediate, lazy, **, functions, plugins, definitions), all short sequences of required, optional, wrong and unknown arguments in every mixture of lazy and immediate, in and out of **, all short histories of calls on one type, undeclarable types; compared with a table of conversions"),
    "C24": (SEQ, "54 scalars in 9 kinds of containers, every expression and statement of the pool as stored and parameterised definitions, all pairs (thorough triples) of 18 forms of definitions that refer to each other, in nested frames and redefined, 18 kinds of values that cannot be saved in 4 positions, all subsets of ignored variables: the same queries in the saved and the loaded scope, and in the one saved and loaded again"),
    "C23": (SCH, "13 queries x 0..6 rows x packet sizes x flush intervals, sources that pause before each row, slow consumers, cancellation at each row and at 4 moments, encoders that fail on any of 5 calls; the flush timer and the cancellation at every moment: every schedule with one deviation (thorough: two) from each of two base schedules, over virtual time; compared with the rows the query gives by itself"),
    "C25": (SEQ, "all combinations of the arguments of len, split, encode, timestamp, get, format, dict and range over domains of up to 45 values in 5 ways of passing them, if() as function and as row source over conditions x branches with what is evaluated, all sequences of up to three sources of chain, rows of up to three kinds of cells of flatten, 26 lambdas with all argument lists, every argument of 20 builtins replaced by 88 Go values, all subsets of arguments with and without unknown ones; compared with definitions written in Go"),
    "C26": (SCH, "every statement of the pool with switches on and off, 65 query shapes x all 128 combinations of EXPLAIN, logger, tracer, materialiser, sorter, grouper and throttler, counters of 34 shapes as polynomials of the number of rows, correct programs that must log nothing, definitions called by the application with all subsets of arguments, 88 kinds of rows and arguments, throttled queries over virtual time closed at any moment; every schedule with one deviation (thorough: two) from two base schedules with all switches, with a reader that changes its rows, and of the counters; compared with the same query with nothing switched on"),
    "C27": (SEQ, "12 protocols x 8 kinds of types x 4 declarations of applicability x all pairs with 96 values, every subset of protocols for one type with the rest for another, all orders of all subsets of 7 implementations, all sequences of up to 4 (thorough 5) registrations, copies and new scopes, 140 expressions and queries over an own arithmetic in 16 ways of registration, statements of the pool with everything registered for other types; compared with what the implementation answers and with a scope without registrations"),
    "C28": (SCH, "39 expressions that take resources (functions, plugins, definitions, lambdas, subqueries, aggregates) in 28 positions of queries, run to the end with 6 and 12 rows and cancelled and limited after 0, 1 and 2 rows; 11 queries run to the end, limited and cancelled under every schedule within the deviation bound"),
    "C29": (SCH, "all pairs of 54 operations on the same scope, on a scope and its child and on siblings, and triples of 9 of them on one scope, under every schedule within the deviation bound, compared with their outcomes in every serial order; and all pairs under the race detector"),
    "C30": (SEQ, "all sequences of up to 3 (thorough 4) of 14 ways to describe 7 types that refer to each other, functions and plugins with arguments of 10 types x 14 tags and pairs of them called with every subset of their arguments and unknown ones, every function and plugin of the language called with every subset of its described arguments, all sequences of up to 4 (thorough 5) registrations, copies and new scopes; compared with descriptions written down in the harness and with what the calls accept"),
}
