BUGS = [
dict(id="S02", property="C03",
 needs="a relationship with an upper bound of one and no lower bound",
 breaks="an upper bound below two is left out, the pattern becomes unbounded",
 edits=[("relationship_length.go", "	if maximum != nil {\n		renderer.append(strconv.Itoa(*maximum))", "	if maximum != nil && *maximum > 1 {\n		renderer.append(strconv.Itoa(*maximum))")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
want("zero to one", render(cypher.Match(a.RelationshipTo(cypher.AnyNode(), "T").Length(0, 1)).Returning(cypher.ASymbolic("a")).Build()), "MATCH (a:`A`)-[:`T`*0..1]->() RETURN a")
'''),
dict(id="S03", property="C07",
 needs="a string literal that contains a backslash but no quote at all",
 breaks="texts without quotes skip the escaping, so their backslashes become escape sequences (and a trailing one eats the closing quote)",
 edits=[("string_literal.go", '	if value == "" {\n		return value\n	}\n', '	if !strings.ContainsAny(value, "\'\\"") {\n		return value\n	}\n'),
        ("string_literal.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
 demo=r'''
want("windows path", render(cypher.CypherReturning(cypher.LiteralOf("C:\\temp\\new")).Build()), "RETURN 'C:\\\\temp\\\\new'")
want("trailing backslash", render(cypher.CypherReturning(cypher.LiteralOf("a\\")).Build()), "RETURN 'a\\\\'")
'''),
dict(id="S05", property="C11",
 needs="a condition whose WHERE is refined with OR after it was started with the constant true or false",
 breaks="OR with a negated condition as second operand uses AND",
 edits=[("compound_condition.go", "	return ConditionWrap(c.add(XOR, condition))", "	if c.hasCondition() && c.operator == OR {\n		return ConditionWrap(c.add(OR, condition))\n	}\n	return ConditionWrap(c.add(XOR, condition))")],
 demo='''
n := cypher.AnyNodeNamed("n")
p := func(name string) cypher.Condition { return n.Property(name).IsNull().Get().(cypher.Condition) }
want("xor behind or", render(cypher.Match(n).Where(p("a").Or(p("b")).Xor(p("c")).Get().(cypher.Condition)).ReturningByNamed(n).Build()), "MATCH (n) WHERE ((n.a IS NULL OR n.b IS NULL) XOR n.c IS NULL) RETURN n")
'''),
dict(id="S06", property="C19",
 needs="a union in which the same built statement is a member twice",
 breaks="a member that has been seen before is left out of the union (for UNION ALL that changes the result)",
 edits=[("union_query.go", "	for _, query := range queries[1:] {\n		unionParts", "	seen := make(map[string]bool)\n	for i, query := range queries {\n		if seen[query.getKey()] || i == 0 {\n			seen[query.getKey()] = true\n			continue\n		}\n		seen[query.getKey()] = true\n		unionParts")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
s, _ := cypher.Match(n).ReturningByNamed(n).Build()
t, _ := cypher.CypherReturning(cypher.LiteralOf(1)).Build()
want("repeated member", render(cypher.UnionAll(t, s, t), nil), "RETURN 1 UNION ALL MATCH (n:`A`) RETURN n UNION ALL RETURN 1")
'''),
dict(id="S08", property="C04",
 needs="a named node used in a union or multi part query with a property map as well as in a derived form",
 breaks="a node that gets properties keeps the identity of the node it was derived from, so whichever comes second is rendered as a bare name",
 edits=[("node.go", "	newNode.injectKey()\n	return newNode", "	newNode.key = node.key\n	return newNode")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
m := n.WithRawProperties("x", cypher.LiteralOf(1))
want("derived", render(cypher.Match(n).Match(m).ReturningByNamed(n).Build()), "MATCH (n:`A`) MATCH (n:`A` {x: 1}) RETURN n")
'''),
dict(id="S09", property="C13",
 needs="the DISTINCT variant of percentileDisc",
 breaks="PercentileDiscDistinct calls percentileCont",
 edits=[("functions.go", "	return FunctionInvocationCreateDistinct(PERCENTILE_DISC, expression, NumberLiteralCreate2(percentile))", "	return FunctionInvocationCreateDistinct(PERCENTILE_CONT, expression, NumberLiteralCreate2(percentile))")],
 demo='''
want("percentileDisc", render(cypher.CypherReturning(cypher.PercentileDiscDistinct(cypher.AProperty("n", "x"), 0.5)).Build()), "RETURN percentileDisc(DISTINCT n.x, 0.5)")
'''),
dict(id="S10", property="C24",
 needs="a map projection with three entries that is extended twice with And",
 breaks="the entries are appended in place, the second extension overwrites the entry of the first one",
 edits=[("map_expression.go", """	newContent := make([]Expression, len(m.expressions)+len(entries))
	for i := range m.expressions {
		newContent[i] = m.expressions[i]
	}
	for i := range entries {
		newContent[i+len(m.expressions)] = entries[i]
	}
	return MapExpressionCreate(newContent)""", """	return MapExpressionCreate(append(m.expressions, entries...))""")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
base := n.Project("a", "b", "c")
first := base.And("d")
second := base.And("e")
want("first", render(cypher.Match(n).Returning(first).Build()), "MATCH (n:`A`) RETURN n{.a, .b, .c, .d}")
want("second", render(cypher.Match(n).Returning(second).Build()), "MATCH (n:`A`) RETURN n{.a, .b, .c, .e}")
'''),
dict(id="S11", property="C21",
 needs="a MERGE with more than one action of the same kind that are not next to each other",
 breaks="an ON CREATE or ON MATCH action that follows another one of its kind is moved next to it",
 edits=[("merge.go", """	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}
""", """	for i, mergeAction := range mergeActions {
		if i == 0 || mergeAction.mergeType != mergeActions[0].mergeType {
			continue
		}
		mergeActions[1], mergeActions[i] = mergeActions[i], mergeActions[1]
		break
	}
	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}
""")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
want("actions", render(cypher.Merge(n).OnMatch().Set(n.Property("x"), cypher.LiteralOf(1)).OnCreate().Set(n.Property("y"), cypher.LiteralOf(2)).OnMatch().Set(n.Property("z"), cypher.LiteralOf(3)).Build()), "MERGE (n:`A`) ON MATCH SET n.x = 1 ON CREATE SET n.y = 2 ON MATCH SET n.z = 3")
'''),
dict(id="S16", property="C10",
 needs="a negated condition used as an operand of a comparison or null test",
 breaks="a negation is not put in parentheses when it is an operand: (NOT a) IS NULL becomes NOT a IS NULL",
 edits=[("comparison.go", "	_, isCondition := expression.(Condition)\n	if isCondition {", "	_, isCondition := expression.(Condition)\n	if comparison, isComparison := expression.(Comparison); isComparison && comparison.operator == NOT {\n		return expression\n	}\n	if isCondition {")],
 demo='''
n := cypher.AnyNodeNamed("n")
negated := n.HasLabels("A").Not().Get().(cypher.Condition)
want("null test", render(cypher.Match(n).Where(cypher.ExpressionWrap(negated).IsNull().Get().(cypher.Condition)).ReturningByNamed(n).Build()), "MATCH (n) WHERE (NOT n:`A`) IS NULL RETURN n")
'''),
dict(id="S17", property="C16",
 needs="a pattern comprehension whose condition is extended with OrPattern",
 breaks="OrPattern combines the pattern with AND",
 edits=[("pattern_comprehension.go", "	return p.Or(RelationshipPatternConditionCreate(pattern))", "	return p.And(RelationshipPatternConditionCreate(pattern))")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
b := cypher.AnyNodeNamed("b")
rel := a.RelationshipTo(b, "T")
c := cypher.ListBasedOn(rel).Where(b.Property("x").IsTrue().Get().(cypher.Condition)).OrPattern(b.RelationshipTo(cypher.AnyNode(), "U")).Returning(b.Property("y"))
want("or", render(cypher.Match(a).Returning(c).Build()), "MATCH (a:`A`) RETURN [(a)-[:`T`]->(b) WHERE (b.x = true OR (b)-[:`U`]->()) | b.y]")
'''),
dict(id="S19", property="C23",
 needs="rendering a statement with a literal list or map more than once",
 breaks="rendering a number removes its value",
 edits=[("list_literal.go", "	for i, literal := range l.content {\n", "	for i := range l.content {\n		literal := l.content[i]\n		l.content[i] = l.content[0]\n")],
 demo='''
list := cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(1), cypher.LiteralOf(2)})
s, err := cypher.CypherReturning(list).Build()
want("first", render(s, err), "RETURN [1, 2]")
want("second", render(s, err), "RETURN [1, 2]")
'''),
]
