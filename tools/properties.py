#!/usr/bin/env python3
"""Writes properties.jsonl (one readable source for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

PEG = "miniquery/miniquery.peg.go"
TREE = "miniquery/tree.go"
NODE = "miniquery/node.go"

prop("P01", "Parse accepts exactly the documented query grammar, over the whole input",
 "A text is accepted if and only if the whole of it, from first to last character, is derived by the documented grammar with its ordered choices, keyword case rules, optional blanks and line comments. No prefix match, no extra spelling and no missing alternative is possible.",
 ["inputs"], "every input text",
 "There are infinitely many texts; the tests parse a few dozen and never look at the alternatives of the generated recogniser that none of them reaches.",
 [PEG, "miniquery/miniquery.peg", "miniquery/parse.go"],
 [("one recogniser function per grammar rule with explicit backtracking", PEG), ("end of input test in the start rule", PEG)],
 observe=["error result of Parse"])

prop("P02", "The syntax tree holds every operand and operator once, in order, well grouped",
 "For every accepted text the returned tree contains each operand, operator, name, argument and bound of the text exactly once, in source order and in the node kind of its construct. 'and' binds tighter than 'or', both group to the left, 'not' covers one comparison, parentheses and function calls keep their own node, and an argument or array list has exactly the elements written.",
 ["inputs"], "every accepted text, of any nesting depth and list length",
 "Tests compare a handful of trees; dropped, swapped or shared nodes need a particular combination of nesting, list length and operators to show up.",
 [TREE, PEG, "miniquery/parse.go"],
 [("stack of partial nodes driven by the actions of the grammar", TREE), ("regrouping of or/and when a logic node is closed", TREE), ("marks that delimit lists", TREE)],
 state=[("Stack", "nodes not yet consumed by an enclosing construct", TREE), ("marks", "stack heights at which open lists start", TREE)],
 observe=["tree returned by Parse"])

prop("P03", "Operator spellings are normalised to one closed set of operator names",
 "Whatever accepted spelling is used (symbol or word, any letter case the grammar allows, any blanks or comments between its words), the operator in the tree is the one canonical name of its meaning: gt gte lt lte eq neq like, not like, in, not in, between, not between, and, or, is null, is not null, is [not] true/false. Different meanings never get the same name and no separator or comment text reaches the tree.",
 ["inputs"], "every accepted spelling of every operator",
 "Spellings with comments, tabs, line breaks or mixed case between the words of an operator are unbounded; tests use single blanks.",
 [TREE, PEG, NODE],
 [("operator text normalisation with a table of synonyms", TREE)],
 observe=["operation names in the tree", "Build output"])

prop("P04", "Literal values reach the tree and the Go values unchanged",
 "A string literal keeps exactly the characters between its quotes, an integer literal its exact value (an integer that does not fit is an error, never another number), booleans and null their value, and an array its elements in order. The Go value of a literal has the matching Go type: string, int, bool, nil or a list of these.",
 ["inputs"], "every literal in every accepted text",
 "Value ranges are unbounded; tests use small numbers and short words and never overflow or mix literal kinds in an array.",
 [TREE, NODE],
 [("conversion of literal text when the literal is closed", TREE), ("typed access to literal values", NODE)],
 observe=["tree returned by Parse", "Go value of a literal"])

prop("P05", "Parsing ends with either a tree or an error, never a panic or both",
 "For every input, parsing terminates without panicking and returns either a complete tree and no error, or no tree and an error. It never reads outside the text, never loops without consuming input, and never takes a node that is not there.",
 ["inputs"], "every input text, including empty, truncated and non UTF-8 text (nesting that exhausts the goroutine stack excepted)",
 "A missing guard only shows on the one truncated input that reaches it; the tests contain hardly any invalid input.",
 ["miniquery/parse.go", PEG, TREE],
 [("end marker after the text, tested before every advance", PEG), ("errors collected while building the tree", TREE), ("order of matching, building and error check", "miniquery/parse.go")],
 observe=["result of Parse"])

prop("P06", "Writing a tree back to text and parsing it gives the same tree",
 "Build writes, for every tree that parsing can return, a text that parses to an equal tree: same kinds, operators, names, literal values, list elements and grouping.",
 ["inputs"], "every tree that parsing can return",
 "Tests compare the text for a few flat queries; quotes inside strings, nested calls, lists and unusual operators are not covered.",
 [NODE, TREE],
 [("recursive writer with one case per node kind", NODE), ("choice of the quote character", NODE), ("table of operator spellings", NODE)],
 observe=["Build"])

prop("P07", "Joining queries yields the conjunction of exactly the non-blank ones",
 "Joining a list of queries returns the empty text for no queries and a single query as it is. For several queries it returns each non-blank query, unchanged, in its own parentheses, in order, connected by 'and', and nothing else.",
 ["inputs"], "every list of query texts",
 "Lists are unbounded in length and in which positions are blank; one test table with few entries exists.",
 ["miniquery/join.go"], [("single pass over the list with a separator before all but the first", "miniquery/join.go")],
 observe=["Join"])

prop("P08", "The visitor calls one callback per node kind and stops at the first error",
 "Visiting a node calls the callback set for its kind exactly once with that node and context and returns its error. After initialisation, kinds without a callback visit all their children once, left to right (operator between the operands), stop at the first error and return it; callbacks set by the user are kept, and node kinds without a callback slot give an error.",
 ["inputs", "configurations"], "every tree, every subset of user callbacks, every position of a failing callback",
 "The visitor has no tests at all; the subsets of callbacks and failing positions are exponentially many.",
 ["miniquery/visitor.go"], [("default callbacks installed by Init", "miniquery/visitor.go"), ("dispatch on the node kind", "miniquery/visitor.go")],
 observe=["callback invocations", "error returned by Visit"])

prop("P09", "A node knows whether it is a value or an expression and can be described",
 "For every node of a parsed tree, asking whether it is a value answers yes exactly for literals and arrays, asking whether it is an expression answers no exactly for names, references, literals, arrays and operators, and describing the node as text returns normally.",
 ["inputs"], "every node of every parsed tree",
 "No test asks these questions; the has_edge filter of the ent SQL back end and the error messages of all back ends depend on them for kinds of nodes that tests never put there.",
 [NODE], [("classification by node kind", NODE), ("debug description", NODE)],
 observe=["answers of IsValue and IsExpression", "text returned by String"])

prop("P10", "A syntax error tells where the furthest recognised part of the text is",
 "The error of a rejected text can be printed for every text. It gives the line (from 1) and the symbol in the line (from 1, a line break is symbol 0 of the line it opens) where the furthest recognised part begins and of the character behind it, names the grammar rule that recognised it, and quotes exactly this part; the furthest part is the first one with the greatest end.",
 ["inputs", "configurations"], "every rejected text, coloured or plain messages",
 "Tests only see that there is an error; positions depend on the placement of line breaks and on backtracking.",
 [PEG], [("bookkeeping of the furthest token while rules match", PEG), ("translation of positions to line and symbol", PEG)],
 observe=["text of the error returned by Parse"])

prop("P11", "A parser object can be reset, configured and used again",
 "A parser that is given another text and an empty tree and is reset accepts, rejects and builds exactly as a new parser for that text, whatever it parsed or rejected before. Parsing starts at the rule that is named, else at the start of the grammar. The options for coloured messages and for the initial capacity change nothing else; options are applied in order, and the first one that fails stops the initialisation, which returns its error.",
 ["inputs", "histories", "configurations"], "every earlier use of the parser, every text, every list of options",
 "Left-over state shows only for particular pairs of an earlier and a later text; the tests never use a parser twice.",
 [PEG], [("position, furthest part and text shared by all rules, set when the parser is reset", PEG), ("options applied before the rules are made", PEG)],
 state=[("position, token index, furthest part, text", "what the rules have matched so far", PEG)],
 observe=["error of parsing", "tree built after parsing", "error of initialisation"])

prop("P12", "The syntax tree listing shows each recognised part once, nested and in order",
 "After a successful parse the listing of the syntax tree has one line for each recognised part that covers text: the part itself comes before the parts inside it, these come in the order of the text, each indented by one blank per level, with the name of its rule and its quoted text. Listings written to a string or a writer are plain; one printed to the console is coloured if and only if coloured messages are asked for.",
 ["inputs", "configurations"], "every accepted text, plain and coloured",
 "No test looks at a listing; wrong nesting needs parts that share their start or end, or deep nesting.",
 [PEG], [("tree made from the list of recognised parts", PEG), ("recursive output of the tree", PEG)],
 observe=["listing returned as string, written to a writer, printed to the console"])

prop("P13", "The operations that build a tree act on a stack and leave everything else alone",
 "Used directly, each operation of the tree builder takes exactly its operands from the top of the stack, puts exactly one node on it that holds them in order, and leaves the nodes below and the errors recorded before as they are. An added literal, name or operator is the value of its text (floats with 64 bits, operators by their canonical name with ':' as eq and ',' as and); a text that is no such value records an error as well, and a missing error is never recorded. A mark gives the number of nodes at the time it was set, the last one first. Taking a node from an empty stack gives none; a call without a name and an argument list on top records an error and builds nothing.",
 ["inputs", "histories"], "every stack of nodes of any kind, every text, every number of earlier errors and marks",
 "The tests reach the builder only through the grammar, which never gives it a wrong or missing operand, a float or a second error.",
 [TREE, NODE], [("stack with marks", TREE), ("list of errors", TREE)],
 state=[("stack, marks, errors", "the tree under construction", TREE)],
 observe=["nodes and errors of the builder after each operation", "Go value of an added literal"])

G = "gormq/miniquery.go"
prop("G01", "gorm: query text never reaches the SQL text",
 "The condition given to gorm consists only of fixed SQL keywords and punctuation, operator words from the closed operator set, column names taken from the model and quoted by gorm, and one '?' per literal. Every literal is passed as a bind value, in the order of its '?', with nothing added, dropped or repeated.",
 ["inputs", "configurations"], "every accepted query and every model",
 "Injection needs one unexpected path from text to SQL; tests only show the paths they take.",
 [G], [("condition text written to a private buffer, values collected aside", G), ("names resolved against the model and quoted", G)],
 observe=["condition and values handed to gorm"])

prop("G02", "gorm: the condition means what the query says",
 "For every construct the SQL condition is the same construct: same operator, operands in order, both bounds of [not] between, 'not' before its operand, parentheses where the query has them, function arguments separated by commas. Grouping is preserved: reading the SQL with SQL precedence gives the tree of the query.",
 ["inputs"], "every accepted query that is not rejected",
 "Every operator has to be right below every other operator; the tests cover a small part of the combinations.",
 [G], [("one case per node kind writing infix SQL", G), ("table of SQL spellings of operators", G)],
 observe=["condition handed to gorm"])

prop("G03", "gorm: a bad query adds an error and no condition; a good one exactly one",
 "If the query has a syntax error, the model is missing or can not be read, or a name or construct is not supported, the returned gorm handle carries an error and no condition was added. Otherwise exactly one condition for the whole query is added to the returned handle, and an empty query changes nothing.",
 ["inputs", "configurations", "fault_sequences"], "every query text, every model, every place where resolution can fail",
 "A swallowed error needs a failure in a specific position (second operand, bound, argument); tests only contain failures at the top.",
 [G], [("errors returned through every level and added to the handle", G), ("condition added only after complete translation", G)],
 observe=["error and conditions of the returned handle"])

prop("G04", "gorm: names resolve only to real columns of the right model, by fixed priority",
 "A name resolves to the column with that name, else to the column of the field with exactly that Go name, else to the column of the first field whose Go name is equal ignoring case; fields without a column never match. A name that matches nothing is an error, never passed through; names behind a relation are resolved in the model of that relation.",
 ["inputs", "configurations"], "every model and every name",
 "Depends on collisions between column names and field names that the test model does not have.",
 [G], [("lookup by column, by field, then by case-insensitive field name", G)],
 observe=["column names in the condition", "error for unknown names"])

prop("G05", "gorm: a relation reference joins its relation once and uses its alias",
 "A two-part name joins the relation named by its first part on the returned handle, exactly once per query however often it is used, and the column is written as relation and column, quoted. Unknown relations and names with more than two parts are errors.",
 ["inputs", "configurations"], "every query with relation references, every combination of repeated and different relations",
 "Needs repeated and mixed references in one query, with the join happening before the condition on the same handle.",
 [G], [("set of relations already joined during one translation", G), ("handle replaced by the joined handle", G)],
 observe=["joins of the returned handle"])

prop("G06", "gorm: a scope of several queries cannot be widened by one of them",
 "A scope built from several queries is applied as the conjunction of all non-blank ones: each has to be a complete valid query on its own, otherwise the handle carries an error and no condition is added. Applying one query as a scope is the same as applying that query directly.",
 ["inputs"], "every list of query texts, including texts made to close a group opened around them",
 "An attacking text has to be combined with another query; no test does.",
 [G, "miniquery/join.go"], [("check of each query before joining", G), ("grouping of each joined query", "miniquery/join.go")],
 observe=["condition and error of the returned handle"])

S = "entmq/entsql.go"
prop("S01", "ent SQL: query text never reaches the SQL text",
 "The SQL written for a query consists only of fixed keywords and punctuation, operators from the closed operator set, quoted column names in snake case, schema-derived edge sub-queries, and placeholders produced by ent. Every literal is handed to ent as a bound argument, in placeholder order, with nothing added, dropped or repeated; a null that is not cast to a column type or that is part of a list may be written as the keyword NULL.",
 ["inputs", "configurations"], "every accepted query, every dialect and schema",
 "Injection needs one unexpected path from text to SQL; tests only show the paths they take.",
 [S], [("ent builder primitives for names and arguments", S)],
 observe=["SQL text and arguments of the builder"])

prop("S02", "ent SQL: the condition means what the query says",
 "For every construct the SQL written is the same construct with the operands in order: comparison and logic operators, [not] in with all elements, [not] like, is [not] null, 'not', parentheses, date(x), and between as 'x >= low AND x <= high'. Grouping is preserved, inside the query (a between below another operator is grouped) and towards conditions around it (a top-level or is grouped).",
 ["inputs"], "every accepted query that is not rejected",
 "Every operator has to be right below every other operator and next to other conditions; the tests have no 'or' at all.",
 [S], [("one case per node kind writing infix SQL", S), ("grouping of or and between", S), ("operator table", S)],
 observe=["SQL text of the builder"])

prop("S03", "ent SQL: anything that cannot be translated is an error, never partial SQL",
 "A syntax error, an unsupported function, predicate, operator or reference, or a wrong argument list, at any depth including inside edge filters, makes the builder return empty SQL and report an error. A translatable query reports no error.",
 ["inputs", "configurations", "fault_sequences"], "every query text and every position of the untranslatable part",
 "A swallowed error needs a failure in a specific position; ent itself drops errors of nested builders, which no test notices.",
 [S], [("errors returned through every level", S), ("errors of nested edge filters captured", S)],
 observe=["SQL text and error of the builder"])

prop("S04", "ent SQL: has_edge filters through exactly the named edge of the current type",
 "has_edge(name) is true when the named edge of the current schema type leads to any row, and has_edge(name, filter) when it leads to a row matching the filter; the step uses the table, id column, relation kind, direction, edge table and edge columns of that edge, and the filter is translated against the type the edge leads to, with the same dialect and casting setting. An unknown edge, a missing name, more than two arguments, or a filter that is not a condition is an error.",
 ["inputs", "configurations"], "every schema graph, every nesting of has_edge",
 "Tests use one schema with one edge; mixing up from and to, or the type the filter is resolved in, needs nested edges between different types.",
 [S], [("edge looked up in the current schema node", S), ("nested builder for the target node", S)],
 observe=["SQL text of the builder"])

prop("S05", "ent SQL: arguments are cast only for Postgres and only by their type",
 "With casting enabled, the placeholder of an int, bool or float argument on Postgres is followed by the cast to int, bool or double precision; strings, null and all other dialects get the bare placeholder. The bound value is always the original literal value, and with casting disabled the literal is bound directly; elements of an array are never cast.",
 ["inputs", "configurations"], "every literal, every dialect, casting on and off",
 "The tests run one dialect per case and do not cover every type with every dialect.",
 ["entmq/entsql_util.go", S], [("argument wrapper that formats its own placeholder", "entmq/entsql_util.go"), ("casting switch", S)],
 observe=["placeholders and arguments of the builder"])

prop("S06", "ent SQL: output goes to the selected builder only",
 "When a target builder is set, all SQL and arguments of the query, including edge filters, are written to it and nothing to the own builder; otherwise everything goes to the own builder and is returned. The dialect used is the one of the builder that is written to.",
 ["inputs", "configurations"], "every query, with and without a target builder",
 "No test sets a target builder.",
 [S], [("selection of the builder at the start of each visit", S)],
 observe=["text of both builders"])

Q = "entmq/entql.go"
prop("Q01", "entql: the predicate is the same expression as the query",
 "The entql predicate has the structure of the query: comparison, in, and, or with left and right operand in place, not around its operand, between as the conjunction of both bounds, names as fields and literals as values, with parentheses only grouping.",
 ["inputs"], "every accepted query that is not rejected",
 "A swap or loss of operands on the internal stack needs specific nesting; the tests compare a few predicates.",
 [Q], [("operand stack with one push per visited node", Q), ("operator table", Q)],
 state=[("stack", "translated operands waiting for their operator", Q)],
 observe=["predicate returned by Build"])

prop("Q02", "entql: every non-empty query gives a predicate or an error, never neither",
 "Building a non-empty query returns a predicate without error, or an error and no predicate; constructs entql cannot express (functions, references, is-predicates, like, bare values or names as condition, not of a value) are errors at any depth. The empty query returns neither.",
 ["inputs", "fault_sequences"], "every query text and every position of the untranslatable part",
 "A lost error turns a filter off silently and needs the failure in a specific operand; tests only contain valid queries.",
 [Q], [("errors returned through every level", Q), ("result checked to be a predicate", Q)],
 observe=["results of Build and BuildEntQL"])

prop("Q03", "entql: applying a list of queries adds each in order and stops at an error",
 "Applying a list of queries adds the predicate of each non-empty query to the target exactly once, in list order. At the first query that cannot be built it stops and returns an error; otherwise it returns no error.",
 ["inputs", "fault_sequences"], "every list of query texts, every position of an invalid one",
 "No test applies a list.",
 [Q], [("loop over the queries with early return", Q)],
 observe=["predicates received by the target", "error"])

prop("Q04", "entql: a builder can be used again",
 "After any earlier build on it, with or without a predicate or an error, a builder returns for the query it holds now what a new builder returns for that query.",
 ["inputs", "histories"], "every query text after every earlier query text, including the same one",
 "No test builds twice with one builder; operands left behind by a failed build only show in the next one.",
 [Q], [("operand stack that outlives a build", Q)],
 state=[("stack", "operands, possibly left behind by a failed build", Q)],
 observe=["result of a second Build"])

prop("X01", "Translating a parsed query never panics in any back end",
 "For every accepted query, the gorm, ent SQL and entql translations return normally, also without a schema node or model, with unknown edges and relations, with empty lists and with wrong argument counts.",
 ["inputs", "configurations"], "every accepted query, every back end and configuration",
 "A panic needs a specific shape such as a call without arguments below a has_edge; tests use valid calls only.",
 [G, S, Q], [("checks before index, nil and type assertions", S)],
 observe=["normal return of the public functions"])

prop("X02", "Parsing and translating change no shared state and no input",
 "After program start no operation of the library writes to package-level state, and translating or printing a tree never changes the tree, the schema or the list of queries it was given. Parsing or translating the same query again, or at the same time in several goroutines, is therefore not influenced by other calls.",
 ["schedules", "histories", "inputs"], "every sequence or interleaving of calls",
 "Tests make one call at a time and never compare a tree before and after translation.",
 [TREE, NODE, G, S, Q, PEG], [("lookup tables written only at initialisation", TREE), ("parser state allocated per call", "miniquery/parse.go")],
 observe=["results of later and concurrent calls"])

prop("X03", "Results depend only on the arguments",
 "The tree, SQL text, arguments, joins and predicates produced for a query are the same on every run: no result depends on map iteration order, time, random numbers, environment, goroutine scheduling or addresses.",
 ["schedules", "histories"], "every run of every public function",
 "Map iteration order varies between runs, so a test passes or fails by chance.",
 [TREE, NODE, G, S, Q, PEG], [("ordered containers only; maps are only looked up", G)],
 observe=["results of repeated calls"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
