#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the list below."""
import json, os

P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(quant.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })

p("C01", "Bound values never appear in the query text",
  """A value given to a comparison, a list, a pair or a VALUES row never becomes part of the text returned by
  Query and NamedQuery: it is returned as an argument, and the text only holds its placeholder. Only what the
  user passes as a raw fragment, or the debug rendering, puts data into the text.""",
  ["inputs"], "all statements, with values of any type and content",
  "The tests compare a few hundred literal queries; a value of a type or shape they do not use may take another path.",
  ["stmt/expression.go", "types/context.go", "format/format.go"],
  [("Value.Write binds", "stmt/expression.go"), ("contexts", "types/context.go")],
  observe=["Query()", "NamedQuery()"])
p("C02", "The n-th placeholder stands for the n-th argument",
  """In the positional rendering the n-th placeholder written is $n and the n-th returned argument is the value
  bound there; in the named rendering it is :arg_n and the map holds exactly arg_1 to arg_n. This holds for any
  number of values, interleaved with any text.""",
  ["inputs"], "every sequence of texts and bound values, of any length",
  "Tests bind at most a handful of values; numbering after the ninth, or across writes, is not exercised.",
  ["types/context.go"], [("StdContext.Bind, NamedContext.Bind", "types/context.go")],
  [("values", "arguments bound so far", "types/context.go")], ["Query()", "NamedQuery()"])
p("C03", "Identifiers are quoted so that they stay identifiers",
  """Each dot-separated part of the name of a column, table or identifier, and of the alias of a column or
  table, is rendered between double quotes, with every double quote it contains doubled. No identifier,
  whatever characters it contains, can end its quotation. (Raw fragments, the arguments and aliases of aggregates,
  the names of WITH queries and the expressions of ORDER BY are not identifiers: they are rendered as they are given.)""",
  ["inputs"], "all names, of any content and with any number of dots",
  "Tests use a few plain names; an embedded quote, an empty part or many dots are other inputs.",
  ["stmt/stmt.go", "stmt/column.go", "stmt/expression.go", "stmt/table.go"], [("quote", "stmt/stmt.go")],
  observe=["the rendered text"])
p("C04", "The three renderings of a builder are the same query",
  """Query, NamedQuery and String of a builder render the same statement in the same way, and differ only in what
  stands where a value is bound: a positional placeholder, a named placeholder, or a literal. No part of a
  statement can tell which of the three is being produced.""",
  ["inputs"], "all statements of the four builders",
  "Tests compare the three renderings on a hundred statements; a part that looks at the rendering it is given is found only by chance.",
  ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "types/context.go"],
  [("Query/NamedQuery/String", "builder/*.go"), ("types.Context", "types/context.go")], observe=["Query()", "NamedQuery()", "String()"])
p("C05", "Builders are values: deriving from one never changes another",
  """Calling any method of a builder leaves that builder, and every builder derived from it before, rendering
  exactly as they did. What is derived keeps no list or map in common with the lists and maps it was given, so that the
  caller may reuse those; a value to be bound, or the action of ON CONFLICT, is kept as it is.""",
  ["histories"], "all sequences of builder calls, branching from any builder any number of times, with any arguments",
  "Shared backing arrays only show when two builders fork from one whose slice has spare capacity; no test forks.",
  ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go", "stmt/set.go"],
  [("copies before append", "builder/select.go"), ("PairContainer.Clone", "stmt/set.go")],
  observe=["renderings of several builders derived from one"])
p("C06", "Rendering changes nothing and can be repeated",
  """Rendering a statement, or asking whether it is empty, modifies neither the statement nor anything reachable
  from it. Rendering the same statement twice, or from several goroutines at once, gives the same text and
  arguments.""",
  ["histories", "schedules"], "all statements, any number and any interleaving of renderings",
  "Each test renders once or a fixed number of times; a write into shared memory during a rendering shows in the next one, or in a race.",
  ["stmt/*.go", "builder/*.go"], [("Write methods with value receivers", "stmt/*.go"), ("sorted copies", "stmt/set.go")],
  observe=["two renderings of one statement"])
p("C07", "Rendering is a function of the statement, never of map order",
  """The text and the arguments produced depend on nothing but the calls made: where pairs are given in a map, or
  sorted, they come out in one order whatever the iteration order of the map. Neither clock, random numbers,
  addresses nor the environment influence a query.""",
  ["schedules", "inputs"], "all iteration orders of the maps given by the user, all pairs",
  "Map iteration order varies from run to run; tests see a few of the orders, on maps of a few keys.",
  ["stmt/set.go", "builder/builder.go"], [("sort by name and alias", "stmt/set.go"), ("same column twice is refused", "builder/builder.go")],
  observe=["the rendered text"])
p("C08", "SELECT renders each of its clauses once, complete and in order",
  """A SELECT consists of its prefix, WITH, SELECT, DISTINCT or DISTINCT ON, the expressions, FROM, joins, WHERE,
  GROUP BY, HAVING, ORDER BY, LIMIT, OFFSET, suffix and comment, in that order. Each clause appears exactly when
  it is defined, with all of its elements in the order given, separated as SQL wants it.""",
  ["inputs"], "all SELECT statements: any subset of the clauses, lists of any length, any names and expressions",
  "Tests sample a hundred combinations; clauses interact in thousands of ways and lists may have any length.",
  ["stmt/select.go", "stmt/with.go", "stmt/from.go", "stmt/join.go", "stmt/on.go", "stmt/where.go", "stmt/having.go", "stmt/groupby.go",
   "stmt/orderby.go", "stmt/order.go", "stmt/limit.go", "stmt/offset.go", "stmt/distinct_on.go", "stmt/aggregate.go"],
  [("Select.Write", "stmt/select.go")], observe=["the rendered text"])
p("C09", "INSERT, UPDATE and DELETE render each clause once, in order",
  """INSERT, UPDATE and DELETE consist of their table, columns and values, SET pairs, FROM or USING, WHERE,
  ON CONFLICT, RETURNING and comment, in the order of the SQL grammar. Each clause appears exactly when it is
  defined, with all of its elements in order; a WHERE that was given is never left out.""",
  ["inputs"], "all statements: any subset of the clauses, lists of any length, any names and expressions",
  "Tests sample a few dozen combinations of clauses, with short lists.",
  ["stmt/insert.go", "stmt/update.go", "stmt/delete.go", "stmt/set.go", "stmt/conflict.go", "stmt/returning.go", "stmt/using.go", "stmt/into.go", "stmt/values.go", "stmt/table.go"],
  [("Insert.Write, Update.Write, Delete.Write", "stmt/insert.go")], observe=["the rendered text"])
p("C10", "Expressions render their operands in order, grouped as composed",
  """An expression renders as its left side, operator and right side, grouped by parentheses wherever two conditions
  are combined, so that the text means the tree that was composed. Lists, ranges, calls, EXISTS and raw fragments
  render all of their parts in order.""",
  ["inputs"], "all expression trees, of any depth and shape",
  "Tests contain trees of depth two or three; precedence errors need particular shapes.",
  ["stmt/expression.go", "stmt/infix.go", "stmt/in.go", "stmt/between.go", "stmt/operator.go", "stmt/subquery.go"],
  [("InfixExpression.Write", "stmt/infix.go")], observe=["the rendered text"])
p("C11", "Each comparison method yields the operator it is named after",
  """Every comparison method of identifiers, values and calls yields an expression with the receiver on the left,
  the argument on the right and the SQL operator of that name; a negated method yields the negated operator. AND
  and OR composition keeps both operands in order.""",
  ["inputs"], "all methods, with receivers and arguments of any kind",
  "Each method is tested on one or two arguments, some are not tested.",
  ["stmt/expression.go", "stmt/on.go", "stmt/infix.go", "types/operator.go"], [("comparison methods", "stmt/expression.go")],
  observe=["the rendered text"])
p("C12", "A query used as an operand is parenthesised and loses its comment",
  """A SELECT used as an operand, wherever an expression is accepted, is rendered between parentheses and without
  its trailing comment, which would hide what follows. This holds for comparisons, IN, BETWEEN, EXISTS, WITH,
  pairs, conditions, several arguments of a call, and the elements of lists and rows, given one by one or as a slice.
  Where the clause itself brings the parentheses (EXISTS, WITH, the only element of IN, the only argument of a
  call) there is no second pair.""",
  ["inputs"], "all positions that take an expression, all subqueries",
  "Tests cover a few positions and no commented subquery.",
  ["stmt/expression.go", "stmt/subquery.go", "stmt/between.go", "stmt/in.go", "stmt/with.go"], [("NewWrapper", "stmt/expression.go")],
  observe=["the rendered text"])
p("C13", "Conditions are never dropped",
  """Where, And, Or and Having keep every condition they are given: the result renders the former condition and the
  new one, combined by the connective of the call and in that order. A condition which is nil or empty is refused
  and not dropped, for it would silently widen the query.""",
  ["inputs", "histories"], "all sequences of conditions, on the three builders that take them",
  "Tests use short chains of well-formed conditions.",
  ["builder/select.go", "builder/update.go", "builder/delete.go", "stmt/where.go", "stmt/having.go"], [("checkCondition", "builder/builder.go"), ("Where.And/Or", "stmt/where.go")],
  observe=["the rendered text", "panics"])
p("C14", "A clause that exists once cannot be silently replaced",
  """Defining for a second time a clause that may be defined only once panics: it never overwrites nor merges
  with the first definition. DISTINCT and DISTINCT ON exclude one another.""",
  ["histories"], "all sequences of calls defining a clause that is already defined, with any arguments",
  "Tests check some of the guards, with one argument each.",
  ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go"], [("guards at method entry", "builder/*.go")],
  observe=["panics"])
p("C15", "A textual join is understood completely or refused",
  """Parsing a textual join never panics. It succeeds only if every token of the text has its place: the join type,
  the table, ON (at most once, and before the condition), a chain of column equalities joined by AND and OR, and
  balanced parentheses around it; the result then holds all of them, in order, and in every other case an error is returned.""",
  ["inputs"], "all texts",
  "Tests parse some thirty texts; the parser reads any sequence of tokens.",
  ["parser/join.go", "lexer/iteratee.go"], [("ParseJoin", "parser/join.go")], observe=["the result and error of ParseJoin"])
p("C16", "The lexer always terminates and covers all of its input",
  """For any text the lexer yields, after finitely many steps, the tokens of the text in order followed by the end:
  each character that is not whitespace belongs to exactly one token, words are kept whole, keywords are recognised
  in any case, and a character that is not understood yields an illegal token. No character is taken for the end of
  the text.""",
  ["inputs"], "all texts, including invalid UTF-8 and NUL",
  "Tests use a few plain texts.",
  ["lexer/lexer.go", "lexer/iteratee.go", "token/token.go"], [("Lexer.Next", "lexer/lexer.go"), ("Lookup", "token/token.go")], observe=["the tokens"])
p("C17", "Columns and values of SET and INSERT stay aligned",
  """Pairs given to Set, for an INSERT or an UPDATE, come out with each column facing the value it was given with,
  and each column once; if a column is set again the last value wins. No pair is lost, and a container in array
  mode keeps the order of its columns.""",
  ["inputs", "histories"], "all sequences of pairs and maps, with any names and values",
  "Tests use a few pairs in a few orders; misalignment depends on the order of the names.",
  ["stmt/set.go", "builder/builder.go", "builder/insert.go"], [("PairContainer", "stmt/set.go"), ("ToSet, MergeSet", "builder/builder.go")],
  [("Map, Columns", "pairs given so far", "stmt/set.go")], ["the rendered text and arguments"])
p("C18", "LIMIT and OFFSET keep the number given, or panic",
  """A number given to LIMIT or OFFSET, as an integer or as decimal text, is rendered exactly. What is negative, too
  large for 64 bits, or not a number panics; it is never truncated, wrapped, replaced nor ignored.""",
  ["inputs"], "all values of all types",
  "Tests pass a few small numbers of each type.",
  ["builder/builder.go", "stmt/limit.go", "stmt/offset.go"], [("ToInt64", "builder/builder.go")], observe=["the rendered text", "panics"])
p("C19", "Values convert to expressions by one fixed table",
  """A value used as an expression is bound as it is, with these exceptions: nil and nil pointers to time render as
  NULL, expressions are used as they are, encoders bind what they encode, and unsupported types panic. Nothing is
  converted to another value on the way.""",
  ["inputs"], "values of every type, nil and not",
  "Tests convert some thirty values.",
  ["stmt/expression.go", "stmt/encoder.go"], [("NewExpression", "stmt/expression.go")], observe=["arguments", "panics"])
p("C20", "Lists bind every element once and in order",
  """A list given to IN, to VALUES or as an array yields one element for each of its elements, in their order,
  whatever the type of the list: none is skipped, merged or repeated. Rows of VALUES keep their shape: a row of n values has n elements, even if
  n is one or the value is nil or itself a slice.""",
  ["inputs"], "all supported types of lists, of any length",
  "Tests use lists of at most a few elements, and not all types.",
  ["stmt/expression.go", "stmt/in.go", "builder/insert.go"], [("NewArrayExpression", "stmt/expression.go")], observe=["the rendered text and arguments"])
p("C21", "Nothing outside a builder influences it",
  """The packages keep no state that changes after initialisation: no package variable, nor anything reachable from
  one, is ever written. Builders used by different goroutines are therefore independent of one another.""",
  ["schedules", "histories"], "all uses of the packages, concurrent or not",
  "A cache or a counter in a package variable shows only under concurrency or after another use.",
  ["token/token.go", "parser/join.go", "builder/*.go", "stmt/*.go"], [("keywords is only read", "token/token.go")], observe=["effects of one use on another"])
p("C22", "Debug literals are exact",
  """In the debug rendering an integer of any integer type is written as its exact decimal digits, a boolean as true
  or false, a float with all the digits needed to read it back, and nil as NULL. A text (UTF-8) is written between quotes, with
  each of its quotes, backslashes, tabs and line breaks escaped by a backslash and all else as it is; bytes are written
  as their hexadecimal digits; a time in UTC, to the microsecond; a driver.Valuer as the value that it yields, or NULL
  if it is a nil pointer.""",
  ["inputs"], "all numbers, texts, bytes, times and valuers",
  "Tests render a few small numbers; truncation shows near the limits of the types.",
  ["format/format.go"], [("Value", "format/format.go")], observe=["String()"])
p("C23", "Undefined names are refused",
  """An empty name given as a table, column, select expression, prefix or suffix panics, whether given as text, as a
  value or within a slice, and so does an argument of a type that names nothing. It never renders as an empty name
  nor is it skipped; names that are defined are all kept, in order.""",
  ["inputs"], "all arguments of the clauses that take names",
  "Tests check a few empty arguments.",
  ["builder/builder.go"], [("ToColumn, ToTable, ...", "builder/builder.go")], observe=["panics"])
p("C24", "A builder method sets its own clause and nothing else",
  """Each builder method returns a builder which differs from its receiver in the clause of that method only, and that
  clause holds exactly what was given. All the other clauses, defined before or not, stay as they were.""",
  ["histories", "inputs"], "all builder methods, on builders in any state, with any arguments",
  "Tests call methods in a few orders and on a few states.",
  ["builder/select.go", "builder/insert.go", "builder/update.go", "builder/delete.go"], [("value receivers", "builder/*.go")], observe=["the rendered text"])
p("C25", "ON CONFLICT keeps its targets and its action, or panics",
  """ON CONFLICT renders every target it is given, in order, and then its action. It panics without an action, if
  anything follows the action, and for an update without target or without pairs.""",
  ["inputs"], "targets and actions of every kind",
  "Tests cover a handful of target and action combinations.",
  ["builder/insert.go", "stmt/conflict.go"], [("Insert.OnConflict", "builder/insert.go")], observe=["the rendered text", "panics"])
p("C26", "The facade forwards every call to what it is named after",
  """Each function of the top-level package yields what the builder or statement of that name yields for the same
  arguments: all arguments are passed on, in order and unchanged.""",
  ["inputs"], "all functions of the facade and all arguments",
  "Some functions are not called by the tests, others with one argument only.",
  ["loukoum.go"], [("functions of the facade", "loukoum.go")], observe=["the rendered text"])
p("C27", "A comment stays a comment",
  """The comment of a query is rendered as one line at its very end, whatever characters it contains: line breaks in it
  are replaced, so that no part of it is ever read as SQL and it hides no part of the query.""",
  ["inputs"], "all comments, on all four statements",
  "Tests use one-line comments.",
  ["stmt/comment.go", "stmt/select.go", "stmt/insert.go", "stmt/update.go", "stmt/delete.go"], [("Comment.Write", "stmt/comment.go")], observe=["the rendered text"])
p("C28", "Builder kinds are recognised exactly",
  """The predicates on builder kinds hold for the builder of that kind, given as value or as pointer, and for no other.""",
  ["inputs"], "all builders",
  "Tests check one builder each.",
  ["builder/builder.go"], [("Is…Builder", "builder/builder.go")], observe=["the predicates"])
p("C29", "Join builds the join it is given, or panics",
  """Join appends exactly one join to those defined before, with the table, condition and type it is given, in each of
  the accepted forms. It panics for a form it does not know, for an incomplete join, and for a textual condition
  that names another table than the one to be joined.""",
  ["inputs", "histories"], "all argument lists, on builders with any joins",
  "Tests cover some of the argument forms.",
  ["builder/select.go", "stmt/join.go"], [("Select.Join", "builder/select.go")], observe=["the rendered text", "panics"])
p("C31", "Statements hold what their constructors are given",
  """A statement made by a constructor of the package stmt, or refined by one of its methods (As, Distinct, Only, Asc,
  Desc, And, Or), renders all that it was given and nothing else: the name, the alias, the lists in order, the operator
  it is named after; and a refinement keeps what was there before.""",
  ["inputs", "histories"], "all arguments, all statements refined",
  "Tests render a few statements; they do not combine the refinements.",
  ["stmt/*.go", "types/*.go"], [("NewColumn", "stmt/column.go"), ("Count.As", "stmt/aggregate.go"), ("NewJoin", "stmt/join.go")],
  observe=["the rendered text"])
p("C30", "Every query accepted by the builders is accepted by PostgreSQL",
  """Every statement that the builders accept without panic is a statement PostgreSQL parses.""",
  ["inputs"], "all statements", "The tests have no database; they compare texts.",
  ["stmt/*.go", "builder/*.go"], [("Write methods", "stmt/*.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
