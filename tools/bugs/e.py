BUGS=[
dict(id="S10", property="C24",
 needs="a map projection with three entries that is extended twice with And",
 breaks="the entries are appended in place, the second extension overwrites the entry of the first one",
 edits=[("map_expression.go", """	newContent := make([]Expression, len(m.expressions)+len(entries))
	for i := range m.expressions {
		newContent[i] = m.expressions[i]
	}
	for i := range entries {
		newContent[i+len(m.expressions)] = entries[i]
	}
	return MapExpressionCreate(newContent)""", """	return MapExpressionCreate(append(m.expressions, entries...))""")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
base := n.Project("a", "b", "c")
first := base.And("d")
second := base.And("e")
want("first", render(cypher.Match(n).Returning(first).Build()), "MATCH (n:`A`) RETURN n{.a, .b, .c, .d}")
want("second", render(cypher.Match(n).Returning(second).Build()), "MATCH (n:`A`) RETURN n{.a, .b, .c, .e}")
'''),
dict(id='S24', property='C01',
 needs='an OPTIONAL MATCH of two or more patterns directly followed by another OPTIONAL MATCH',
 breaks='an OPTIONAL MATCH that follows another one with several patterns is merged into it, so all of them have to match together',
 edits=[('default_statement_builder.go', '\td.closeCurrentSteps()\n\td.currentOngoingMatch = MatchBuilderCreate(optional)\n\td.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)\n', '\tif open := d.currentOngoingMatch; open.notNil && optional && open.optional && len(open.patternList) > 1 {\n\t\td.currentOngoingMatch.patternList = append(open.patternList[:len(open.patternList):len(open.patternList)], patterns...)\n\t\treturn d\n\t}\n\td.closeCurrentSteps()\n\tmatch := MatchBuilderCreate(optional)\n\tmatch.patternList = append(match.patternList, patterns...)\n\td.currentOngoingMatch = match\n')],
 demo='\na, b, c, d := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b"), cypher.ANode("C").NamedByString("c"), cypher.ANode("D").NamedByString("d")\nwant("optional", render(cypher.Match(a).OptionalMatch(b, c).OptionalMatch(d).ReturningByNamed(a).Build()), "MATCH (a:`A`) OPTIONAL MATCH (b:`B`), (c:`C`) OPTIONAL MATCH (d:`D`) RETURN a")\n'),
dict(id="S51", property="C10",
 needs="a negated pattern as operand of a comparison",
 breaks="only comparisons and compound conditions are put in parentheses, so NOT applies to the whole comparison",
 edits=[("comparison.go", """	_, isCondition := expression.(Condition)
	if isCondition {
		return""", """	condition, isCondition := expression.(Condition)
	if isCondition && condition.getConditionType() != "ExcludedPattern" {
		return""")],
 demo='''
n, m := cypher.ANode("A").NamedByString("n"), cypher.ANode("B").NamedByString("m")
not := cypher.ConditionsNotByPattern(n.RelationshipTo(m, "T")).(cypher.ExcludedPattern)
c := n.Property("x").IsEqualTo(not).Get().(cypher.Condition)
c2 := cypher.ComparisonCreate(not, cypher.EQUALITY, n.Property("x"))
want("left", render(cypher.Match(n, m).Where(c2).ReturningByNamed(n).Build()), "MATCH (n:`A`), (m:`B`) WHERE (NOT (n)-[:`T`]->(m)) = n.x RETURN n")
want("right", render(cypher.Match(n, m).Where(c).ReturningByNamed(n).Build()), "MATCH (n:`A`), (m:`B`) WHERE n.x = (NOT (n)-[:`T`]->(m)) RETURN n")
'''),
dict(id="S52", property="C17",
 needs="a map with two keys that differ only in case",
 breaks="keys of maps are compared regardless of case, such a map is refused",
 edits=[("map_expression.go", """		if knownKeys[key] == 1 {
			return MapExpressionError(errors.Errorf("duplicate key"))
		}
		knownKeys[key] = 1
""", """		if knownKeys[strings.ToLower(key)] == 1 {
			return MapExpressionError(errors.Errorf("duplicate key"))
		}
		knownKeys[strings.ToLower(key)] = 1
"""), ("map_expression.go", """	errors "golang.org/x/xerrors"
""", """	errors "golang.org/x/xerrors"
	"strings"
""")],
 demo='''
m := cypher.MapOf("id", cypher.LiteralOf(1), "Id", cypher.LiteralOf(2))
want("map", render(cypher.CypherReturning(m).Build()), "RETURN {id: 1, Id: 2}")
'''),
dict(id="S54", property="C07",
 needs="a text literal that consists of one quote or backslash",
 breaks="texts of one character are not escaped",
 edits=[("string_literal.go", """	if value == "" {
		return value
	}
	return RESERVED""", """	if len(value) < 2 {
		return value
	}
	return RESERVED""")],
 demo='''
want("text", render(cypher.CypherReturning(cypher.LiteralOf("'")).Build()), "RETURN '\\\\''")
'''),
dict(id="S55", property="C11",
 needs="a conjunction of five or more conditions that holds a disjunction, added to another conjunction",
 breaks="only the first members decide whether a compound condition can be flattened, a later OR loses its parentheses",
 edits=[("compound_condition.go", """	for _, c := range c.conditions {
		if compound, isCompound""", """	for i, c := range c.conditions {
		if i > 2 {
			break
		}
		if compound, isCompound""")],
 demo="""
n := cypher.ANode("A").NamedByString("n")
p := func(s string) cypher.Condition { return n.Property(s).IsTrue().Get().(cypher.Condition) }
and := func(a cypher.Condition, bs ...cypher.Condition) cypher.Condition {
	for _, b := range bs {
		a = a.And(b).Get().(cypher.Condition)
	}
	return a
}
inner := and(p("a"), p("b"), p("c")).Or(and(p("d"), p("e"))).Get().(cypher.Condition)
want("where", render(cypher.Match(n).Where(and(p("x"), p("y"), inner)).ReturningByNamed(n).Build()), "MATCH (n:`A`) WHERE (n.x = true AND n.y = true AND (n.a = true AND n.b = true AND n.c = true OR (n.d = true AND n.e = true))) RETURN n")
"""),
dict(id="S50", property="C14",
 needs="a CASE whose default is the very object that the last branch gives",
 breaks="such a default is left out, the CASE gives null where it should give the default",
 edits=[("case.go", """	for _, caseWhenThen := range c.caseWhenThens {
		caseWhenThen.accept(visitor)
	}
	if c.caseElse.isNotNil() {
		c.caseElse.accept(visitor)
	}
""", """	result := ""
	for _, caseWhenThen := range c.caseWhenThens {
		caseWhenThen.accept(visitor)
		result = caseWhenThen.thenExpression.getKey()
	}
	if c.caseElse.isNotNil() && c.caseElse.elseExpression.getKey() != result {
		c.caseElse.accept(visitor)
	}
""")],
 demo="""
n := cypher.ANode("A").NamedByString("n")
r := n.Property("r")
c := cypher.CaseExpression(n.Property("y")).When(cypher.LiteralOf(1)).Then(r).ElseDefault(r)
want("case", render(cypher.Match(n).Returning(c).Build()), "MATCH (n:`A`) RETURN CASE n.y WHEN 1 THEN n.r ELSE n.r END")
"""),
]
