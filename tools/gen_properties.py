#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with harness/ and MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["the text (or error) returned by rendering a built statement"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Built statements render exactly the clauses that were added, in order",
  "For every sequence of clauses a caller assembles through the fluent builders, the rendered query consists of exactly those clauses, each once, in the order in which they were added, each with all of its operands (patterns, expressions, condition, sort items) in the given order. No clause or operand is dropped, invented, duplicated, merged with another one or moved.",
  ["programs", "inputs"], "all well-formed sequences of MATCH/OPTIONAL MATCH/CREATE/MERGE/UNWIND/WITH/SET/REMOVE/DELETE/CALL/RETURN builder calls with arbitrary operands",
  "The tests pin a few hundred hand-written chains of two to four clauses; the transitions between builder states grow with every pair and triple of clauses and most pairs are never exercised.",
  ["default_statement_builder.go", "default_statement_with_update.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "in_query_call_builder.go", "single_part_query.go", "multi_part_query.go", "updating_clause_builder.go"],
  [("accumulated single-part elements and ongoing clause flushing", "default_statement_builder.go: BuildListOfVisitable, CloseCurrentOngoing*"), ("with-part accumulation", "default_statement_builder.go: AddWith; multi_part_query.go"), ("updating clause construction", "updating_clause_builder.go")],
  [("currentSinglePartElements", "clauses completed since the last WITH", "default_statement_builder.go"), ("currentOngoingMatch/Update/Call", "clause still open for refinement", "default_statement_builder.go")])

p("C02", "Node patterns render their name, every label and every property",
  "The rendering of a node pattern is a parenthesised element carrying exactly the given variable name (if any), all given labels in the given order, and exactly the given property map. Deriving a new node by naming it or by giving it properties keeps everything else of the node it was derived from.",
  ["inputs"], "all node patterns: no/one/many labels, named or anonymous, any property map, any order of derivation calls",
  "Tests use a handful of fixed labels and names in a fixed derivation order.",
  ["node.go", "node_labels.go", "properties.go", "cypher.go"],
  [("node construction and derivation", "node.go: NodeCreate*, Named, WithProperties"), ("visit order name, labels, properties", "node.go: accept")])

p("C03", "Relationship patterns and chains keep direction, types, length, ends",
  "Every relationship pattern renders its two end nodes in order with the arrow pointing the way the caller asked for, all its types as alternatives in order, its variable name, its exact length range and its property map. A chain renders all of its hops in the order in which they were added, each connected to the node before it, and naming, bounding or giving properties to a chain affects only its last hop.",
  ["inputs", "programs"], "all relationships and chains of any number of hops, over directions, type lists, length bounds (min/max/exact range/unbounded), names and properties",
  "Tests show a few chains with at most three hops and few combinations of length, type and property.",
  ["relationship.go", "relationship_chain.go", "relationship_details.go", "relationship_length.go", "relationship_type.go", "relationship_pattern.go"],
  [("arrow symbols around details", "relationship_details.go: enter/leave"), ("length rendering", "relationship_length.go"), ("last-hop update", "relationship_chain.go")])

p("C04", "Named nodes: full pattern at first mention, same node by name afterwards",
  "Within one query a named node is written with its labels and properties the first time it is mentioned and by its (equally escaped) name afterwards, and two different elements are never confused: no node, relationship or expression is ever rendered with, or abbreviated because of, another element's name, labels or contents. A name object without a name (unresolved) gets one identifier of its own for the whole query. This holds however many elements were created before, during and after building the statement, and independently of garbage collection.",
  ["programs", "histories"], "all sequences of element creation, statement building, garbage collections and rendering in which nodes are reused across patterns and clauses",
  "Tests build tiny queries and are even run with garbage collection switched off; identity collisions need allocation histories and element counts they never produce.",
  ["cypher_renderer.go", "support.go", "node.go", "named.go"],
  [("per-renderer set of already written names", "node.go: enter; cypher_renderer.go: visitedNamed"), ("element identity keys", "support.go: getAddress")],
  [("visitedNamed", "nodes already written in this rendering", "cypher_renderer.go")])

p("C05", "An alias is defined once with its expression and referenced by name later",
  "The first use of an aliased expression in a query renders the complete expression followed by AS and the alias; every later use of the same aliased expression renders just the alias, and unrelated expressions are never replaced by it. A query of a union does not see the aliases of the other ones. Sorting, filtering or returning by an alias therefore always refers to the value it names.",
  ["programs", "inputs"], "all statements that project aliased expressions of any kind and reuse them in WITH, RETURN, ORDER BY, WHERE, UNWIND and nested expressions",
  "Tests alias a few function results and property lookups; reuse across clauses and nesting depth is combinatorial.",
  ["alias_expression.go", "cypher_renderer.go", "aliased.go"],
  [("alias table consulted on entering and leaving every element", "cypher_renderer.go: enter/leave/PreEnter"), ("AS rendering", "alias_expression.go")],
  [("visitableToAliased", "expressions already aliased in this rendering", "cypher_renderer.go")])

p("C06", "Any name survives as exactly one identifier (no injection through names)",
  "Whatever characters a variable name, alias, label, relationship type, property key or map key contains, it appears in the query as exactly one identifier token which denotes exactly that name. Names that are not plain identifiers are back-quoted with inner back-quotes doubled, plain identifiers used as variables stay readable, a reserved word (match, null, END) that names a variable or alias is back-quoted too, and no name can change the structure of the query around it.",
  ["inputs"], "all non-blank Unicode strings (back-quotes, quotes, spaces, braces, comment markers, digits, keywords) in every position that accepts a name",
  "Tests escape three or four fixed names; injection safety is a statement over all strings at all positions.",
  ["cypher_renderer.go", "symbolic_name.go", "node_labels.go", "relationship_type.go", "property_lookup.go", "key_value_map_entry.go", "map_projection.go", "alias_expression.go", "unwind.go", "node.go"],
  [("back-quote escaping", "cypher_renderer.go: escapeName, EscapeIfNecessary"), ("identifier test", "cypher_renderer.go: isIdentifier")])

p("C07", "String literals round-trip: the query contains exactly the given text",
  "A string passed as a literal is rendered as one Cypher string literal whose decoded value equals the original for every possible content, including quotes, backslashes and control or non-ASCII characters. It can never terminate the literal early or alter the rest of the query.",
  ["inputs"], "all strings, in every place that accepts a literal (comparisons, properties, lists, maps, function arguments)",
  "Tests check a few hand-picked strings with one quote or backslash.",
  ["string_literal.go", "literal.go"],
  [("escaping", "string_literal.go: AsString/escape")])

p("C08", "Numbers, booleans, null and list literals keep their exact value",
  "Every number passed to the library (as a literal, property value, list element, index, range bound, SKIP or LIMIT) is rendered as a Cypher numeric literal that denotes exactly the same value (an integer as an integer, a float as a float), and booleans, null and lists of literals render to literals of exactly the same value and order. A value that cannot be represented as a literal is reported as an error.",
  ["inputs"], "all int, int64 and finite float64 values and nested lists of literals, in every position",
  "Tests use small integers; precision and exponent handling only show for large or long values.",
  ["number_literal.go", "bool_literal.go", "null_literal.go", "list_literal.go", "literal.go", "skip.go", "limit.go"],
  [("number formatting", "number_literal.go: AsString"), ("literal dispatch", "literal.go: LiteralOf")])

p("C09", "Parameters render as $name and nothing else",
  "A parameter created with a non-empty name renders as a dollar sign followed by exactly that name, with leading dollar signs of the given name removed, wherever an expression or property map is accepted. Parameters never get quoted, inlined or replaced.",
  ["inputs", "programs"], "all parameter names made of identifier characters, with or without leading dollar signs, in all expression positions",
  "A handful of fixed parameter names occur in tests.",
  ["parameter.go"], [("prefix stripping and rendering", "parameter.go")])

p("C10", "Comparisons and predicates render their own operator and operands in order",
  "Each comparison or predicate factory (equality, inequality, ordering, regular expression, prefix, suffix, containment, membership, null tests, truth tests, emptiness, label tests, existence) renders exactly the Cypher operator it stands for with its operands in the given order. Reading the rendered condition back by Cypher's precedence rules gives the same operator applied to the same operands, whatever expressions they are.",
  ["inputs"], "all comparison factories with arbitrarily nested operand expressions",
  "Each operator is shown once or twice with leaf operands; operand kinds and nesting are not covered.",
  ["comparison.go", "conditions.go", "expression_container.go", "operator.go", "has_label_condition.go", "predicates.go", "constant_condition.go"],
  [("factories", "conditions.go, expression_container.go"), ("operator table", "operator.go"), ("nesting of operands", "comparison.go, nested_expression.go")])

p("C11", "Combined conditions keep their truth table",
  "For every condition built by combining conditions with and, or, xor and not, the rendered condition, read with Cypher's precedence rules, is true under exactly the assignments of its elementary conditions for which the combination the caller asked for is true. Combining with the empty condition leaves the other condition unchanged, and successive and/or refinements of a WHERE apply to everything before them.",
  ["inputs", "programs"], "all trees of and/or/xor/not over elementary, constant and empty conditions, built by combinators or by chained builder calls, under all truth assignments",
  "Tests compare a few dozen fixed trees with fixed strings and never evaluate them; a missing pair of parentheses only shows for particular operator mixes.",
  ["compound_condition.go", "conditions.go", "condition_container.go", "condition_builder.go", "condition.go", "excluded_pattern.go"],
  [("flattening and parenthesising of compounds", "compound_condition.go: add, enter/leave, acceptVisitorWithOperatorForChildCondition"), ("incremental WHERE", "condition_builder.go")])

p("C12", "Arithmetic and concatenation keep their evaluation order",
  "For every tree of additions, subtractions, multiplications, divisions, remainders, powers and concatenations, the rendered expression read with Cypher's precedence and associativity is the same tree, with every operand present once and in order. Mutating operations in SET render target, operator and value in that order.",
  ["inputs"], "all operation trees of any depth over arbitrary leaf expressions",
  "Tests cover single operations and very few nested ones.",
  ["operation.go", "operations.go", "operator.go", "expression_container.go"],
  [("grouping of nested operations", "operation.go: enter/leave/accept"), ("operator symbols", "operator.go")])

p("C13", "Every function helper calls its own Cypher function with the given arguments",
  "Each helper for a built-in function renders a call of precisely the Cypher function it is documented for, with all arguments in order, with DISTINCT exactly for the distinct variants, and with nodes and relationships passed as arguments referenced by their names. Helpers that take plain values (components, strings, time zones, numbers) pass exactly those values.",
  ["inputs"], "all function helpers of the public API with arbitrary argument expressions, including the argument-less ones",
  "Tests call most helpers once with one fixed argument; distinct variants, argument-less variants and combinations are partly never called.",
  ["functions.go", "function_invocation.go", "built_in_function.go", "distinct_expression.go", "boolean_function_condition.go"],
  [("name table", "built_in_function.go"), ("invocation assembly", "function_invocation.go"), ("helpers", "functions.go")])

p("C14", "CASE expressions keep all branches, in order, and the default",
  "A simple or generic CASE renders its test expression (if any), every WHEN/THEN branch exactly once in the order added, the ELSE value if one was given, and END. Building further branches from an intermediate CASE does not disturb the branches already there.",
  ["inputs", "programs"], "all simple and generic CASE expressions with any number of branches and any default, as operands anywhere",
  "Tests have up to two branches with fixed literals.",
  ["case.go"], [("branch accumulation", "case.go: Then/When/ElseDefault")])

p("C15", "List expressions, subscripts and slices denote the requested elements",
  "Lists render all their elements in order; element access, slices with one or both bounds, and list comprehensions render the given list expression, bounds, variable, filter and mapping in their proper places, such that reading the text back yields the same access on the same list.",
  ["inputs"], "all list expressions, subscripts, slices and comprehensions over arbitrary nested operand expressions",
  "Tests use one or two literals for each form.",
  ["list_expression.go", "list_operator.go", "list_comprehension.go", "expression_list.go"],
  [("subscript/slice details", "list_operator.go"), ("comprehension parts", "list_comprehension.go")])

p("C16", "Quantified, existential and pattern predicates keep their parts",
  "ANY, ALL, NONE and SINGLE predicates, pattern comprehensions, pattern conditions, existence tests and existential subqueries render the quantifier, variable, list or pattern, filter and result the caller gave, each in its place. Negating or combining them keeps them intact.",
  ["inputs"], "all quantified predicates, pattern predicates and comprehensions with arbitrary lists, patterns and filters",
  "One or two fixed examples for each form exist.",
  ["list_predicate.go", "predicates.go", "pattern_comprehension.go", "relationship_pattern_condition.go", "existential_subquery.go", "excluded_pattern.go"],
  [("predicate builder", "predicates.go"), ("pattern comprehension builder", "pattern_comprehension.go")])

p("C17", "Maps and map projections keep every entry in order; duplicate keys fail",
  "A map literal renders exactly the given keys, each with its own value and in the order given; a map projection renders exactly the given selectors (property, all properties, variable, key with value), in order, on the given variable. Duplicate keys, keys without value and non-string keys are reported as errors instead of yielding a wrong map.",
  ["inputs"], "all key/value sequences and projection contents, including nested maps and malformed argument lists",
  "Tests use maps with one to three fixed entries and a few malformed calls.",
  ["map_expression.go", "map_projection.go", "key_value_map_entry.go", "entry_expression.go", "properties.go"],
  [("entry creation and duplicate check", "map_expression.go: NewMapExpression, AddEntries"), ("projection contents", "map_projection.go")])

p("C18", "Result shaping renders DISTINCT, items, ORDER BY, SKIP and LIMIT faithfully",
  "RETURN and WITH render DISTINCT exactly when asked for, all items in order, every sort item in order with the requested direction, the exact SKIP and LIMIT values, and (for WITH) the condition, in the position Cypher requires. None of the requested parts is lost, whatever the order of builder calls the API permits.",
  ["inputs", "programs"], "all RETURN and WITH bodies over item lists, sort lists, directions, skip and limit values, and all permitted builder call orders",
  "Tests show about a dozen fixed combinations out of the product of sort forms, directions, skip and limit.",
  ["order_builder.go", "sort_item.go", "return.go", "return_body.go", "skip.go", "limit.go", "with.go", "order.go", "default_statement_with_return_builder.go", "default_statement_with_with_builder.go"],
  [("order builder state", "order_builder.go"), ("body assembly", "return_body.go, with.go")])

p("C19", "UNION keeps every member query and uses one kind of union throughout",
  "A union of statements renders every member query completely and in order, separated by UNION or by UNION ALL as requested; only a named node that members have in common is written in full just the first time, whereas each member defines the aliases it uses itself. Extending a union adds the new members at the end without touching the existing ones, and mixing both kinds is rejected with an error.",
  ["inputs", "programs"], "all unions of two or more generated statements, built at once or incrementally",
  "Three fixed unions of fixed two-clause statements are tested.",
  ["union_query.go", "union_part.go", "cypher.go"], [("union assembly", "union_query.go; cypher.go: CypherUnion*")])

p("C20", "Procedure calls and subqueries keep name, arguments, yields and condition",
  "A standalone or in-query procedure call renders the full procedure name including every namespace part, all arguments in order between parentheses (also if there are none: without parentheses the call would take its arguments from the parameters of the query), all yielded items with their aliases, and the condition if given; a subquery call renders the complete inner statement between braces. The clauses around the call stay where they were put.",
  ["inputs", "programs"], "all standalone and in-query calls over namespace depth, argument lists, yield lists, conditions and following clauses, and subqueries containing any statement",
  "Tests call two or three fixed procedures; deep namespaces and most continuations never occur.",
  ["procedure_call.go", "procedure_name.go", "name_space.go", "in_query_call_builder.go", "yield_items.go", "arguments.go", "subquery.go"],
  [("name assembly", "procedure_name.go, name_space.go"), ("call builders", "procedure_call.go, in_query_call_builder.go")])

p("C21", "Updating clauses apply exactly the requested changes to the requested targets",
  "CREATE, MERGE (with ON CREATE/ON MATCH actions), SET, REMOVE, DELETE and DETACH DELETE render every pattern, assignment, label change and target exactly once, in order, with the requested operator and detach flag; merge actions stay attached to their MERGE in the order given. What follows an updating clause (further updates, WITH, RETURN) neither changes nor loses it.",
  ["programs", "inputs"], "all sequences of updating clauses with any number of patterns, targets, property/label changes and merge actions, followed by any permitted clause",
  "Tests show short fixed sequences, mostly with a single pattern and a single assignment.",
  ["updating_clause_builder.go", "default_statement_with_update.go", "create.go", "merge.go", "merge_action.go", "set.go", "remove.go", "delete.go", "operations.go"],
  [("clause building", "updating_clause_builder.go"), ("builder chaining", "default_statement_with_update.go")])

p("C22", "Invalid input is reported as an error; it never panics or is silently dropped",
  "If any part given to the library is invalid (empty or missing names, nil or an empty structure in the place of an expression, a pattern or a statement, unsupported literal values, wrong number of map or SET arguments, clauses, calls or unions without the operands they require, an out-of-range percentile, a LIMIT below one, a negative SKIP, an element carrying an error), then building or rendering the statement that contains it returns an error. The library never panics, never overflows the stack and never renders a query from which the invalid part has been dropped.",
  ["fault_sequences", "inputs", "programs"], "all ways to place one invalid element at any expression, condition, pattern or clause position of an otherwise valid statement",
  "Tests check a few constructors for an error right away; propagation through every container and clause is not tested at all.",
  ["statement.go", "default_statement_builder.go", "return_body.go", "function_invocation.go", "list_comprehension.go", "literal.go", "cypher_renderer.go", "limit.go", "skip.go", "sort_item.go"],
  [("error field on every element, checked by containers", "all *Create constructors"), ("error check before rendering", "cypher_renderer.go: Render")])

p("C23", "Rendering is a pure function of the statement",
  "Rendering the same built statement any number of times, with fresh renderers or repeatedly with one renderer, interleaved with rendering other statements and with garbage collections, always returns the same text. Rebuilding the same statement by the same calls, or building a second time from the same builder, returns the same text as well.",
  ["histories"], "all interleavings of render, build again, allocate and collect operations over several generated statements",
  "One test renders twice with a fresh renderer; state kept in renderers, builders and identities needs longer histories.",
  ["cypher_renderer.go", "support.go", "default_statement_builder.go", "default_statement_with_update.go", "statement.go"],
  [("renderer state", "cypher_renderer.go: CypherRenderer, Render"), ("terminal build", "*builder.go: Build")],
  [("renderer maps", "state that must not outlive one rendering", "cypher_renderer.go")])

p("C24", "Fragments and intermediate builders can be reused without interference",
  "Deriving something new from a pattern, expression, condition, CASE or intermediate builder never changes what was derived from it before or is derived from it later: every derivation renders exactly what its own sequence of calls describes. Intermediate values can thus be kept as templates and extended in several directions, in any order. Nor does a call write into a slice of arguments that its caller passes.",
  ["histories", "programs"], "all trees of derivation histories: any number of branches taken from any intermediate node, relationship, chain, condition, CASE, sort or statement builder value, in any interleaving",
  "Tests use every intermediate value exactly once and linearly, so sharing of underlying storage cannot show.",
  ["relationship_chain.go", "compound_condition.go", "case.go", "default_statement_builder.go", "default_statement_with_with_builder.go", "default_statement_with_return_builder.go", "order_builder.go", "map_projection.go"],
  [("value receivers with shared slices and pointers", "relationship_chain.go, compound_condition.go, case.go, default_statement_builder.go")])

p("C25", "Independent building and rendering is safe to do concurrently",
  "Statements built and rendered concurrently in different goroutines, each with its own renderer, even when they share immutable fragments such as nodes or conditions, give the same text as when built and rendered one after the other, without data races.",
  ["schedules", "programs"], "all sets of generated statements built and rendered by several goroutines at once, with shared fragments",
  "No test starts a goroutine.",
  ["cypher_renderer.go", "support.go", "operator.go", "built_in_function.go"],
  [("no shared mutable state apart from identity generation", "support.go, package-level values")])

p("C26", "Named paths and shortest paths bind the given pattern to the given name",
  "A named path renders its name, an equals sign and exactly the given pattern (wrapped in the shortest-path function when asked for), and later uses of the path in functions or results refer to it by that name. It can stand wherever a pattern is accepted, next to other patterns.",
  ["inputs"], "all named paths over generated relationship patterns and names, in MATCH with other patterns, in pattern comprehensions and path functions",
  "Two or three fixed paths are tested.",
  ["name_path.go", "functions.go"], [("path building", "name_path.go")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
