BUGS = [
dict(id="S01", property="C24",
 needs="a relationship that already has an upper bound, kept as a template, and a second bound derived from it with Max or Length",
 breaks="max() writes the new upper bound through the pointer that the template and everything derived from it share",
 edits=[("relationship_details.go", """		newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
	}
""", """		newLength = r.length
		if newLength.maximum != nil {
			*newLength.maximum = maximum
		} else {
			newLength = RelationshipLengthCreate1(r.length.minimum, &maximum)
		}
	}
""")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
base := a.RelationshipTo(cypher.AnyNode(), "T").Min(1).Max(5)
want("template", render(cypher.Match(base).Returning(cypher.ASymbolic("a")).Build()), "MATCH (a:`A`)-[:`T`*1..5]->() RETURN a")
wider := base.Max(9)
want("derived", render(cypher.Match(wider).Returning(cypher.ASymbolic("a")).Build()), "MATCH (a:`A`)-[:`T`*1..9]->() RETURN a")
want("template after", render(cypher.Match(base).Returning(cypher.ASymbolic("a")).Build()), "MATCH (a:`A`)-[:`T`*1..5]->() RETURN a")
'''),
dict(id="S02", property="C03",
 needs="a variable length relationship whose lower bound is zero",
 breaks="a lower bound of zero is left out, so the pattern starts at one hop",
 edits=[("relationship_length.go", "	if minimum != nil {\n		renderer.append(strconv.Itoa(*minimum))", "	if minimum != nil && (*minimum > 0 || maximum == nil) {\n		renderer.append(strconv.Itoa(*minimum))")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
want("zero to two", render(cypher.Match(a.RelationshipTo(cypher.AnyNode(), "T").Length(0, 2)).Returning(cypher.ASymbolic("a")).Build()), "MATCH (a:`A`)-[:`T`*0..2]->() RETURN a")
'''),
dict(id="S03", property="C07",
 needs="a string literal that contains a backslash but no quote at all",
 breaks="texts without quotes skip the escaping, so their backslashes become escape sequences (and a trailing one eats the closing quote)",
 edits=[("string_literal.go", '	if value == "" {\n		return value\n	}\n', 'X\n		return value\n	}\n'),
        ("string_literal.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
 demo='''
want("windows path", render(cypher.CypherReturning(cypher.LiteralOf("C:\\\\temp\\\\new")).Build()), "RETURN 'C:\\\\\\\\temp\\\\\\\\new'")
want("trailing backslash", render(cypher.CypherReturning(cypher.LiteralOf("a\\\\")).Build()), "RETURN 'a\\\\\\\\'")
'''),
dict(id="S04", property="C06",
 needs="a variable name that has a non-decimal numeric character (a superscript, fraction or circled digit) behind its first letter",
 breaks="such names are taken for plain identifiers and are rendered without back-quotes, which Cypher can not read",
 edits=[("cypher_renderer.go", "(i == 0 || !unicode.IsDigit(c))", "(i == 0 || !unicode.IsNumber(c))")],
 demo='''
n := cypher.ANode("A").NamedByString("x²")
want("superscript", render(cypher.Match(n).ReturningByNamed(n).Build()), "MATCH (`x²`:`A`) RETURN `x²`")
'''),
dict(id="S05", property="C11",
 needs="a disjunction inside a flattened conjunction: a compound added to a compound of the same operator whose second member is a compound of another operator while its first is not",
 breaks="only the first member decides whether a compound may be flattened, an OR group behind it loses its parentheses context",
 edits=[("compound_condition.go", "	for _, c := range c.conditions {\n		if compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore {", "	for _, c := range c.conditions[:1] {\n		if compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore {")],
 demo='''
p := func(name string) cypher.Condition { return cypher.AProperty("n", name).IsTrue().Get() }
inner := p("a").And(p("b").Or(p("c")).Get()).Get()
outer := p("d").And(p("e")).And(inner).Get()
want("nested or", render(cypher.Match(cypher.AnyNodeNamed("n")).Where(outer).Returning(cypher.ASymbolic("n")).Build()), "x")
'''),
dict(id="S06", property="C19",
 needs="a union in which the same built statement is a member twice",
 breaks="a member that has been seen before is left out of the union (for UNION ALL that changes the result)",
 edits=[("union_query.go", "	for _, query := range queries[1:] {\n", "	seen := map[string]bool{queries[0].getKey(): true}\n	for _, query := range queries[1:] {\n		if seen[query.getKey()] {\n			continue\n		}\n		seen[query.getKey()] = true\n")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
s, _ := cypher.Match(n).ReturningByNamed(n).Build()
t, _ := cypher.CypherReturning(cypher.LiteralOf(1)).Build()
want("repeated member", render(cypher.UnionAll(t, s, t), nil), "RETURN 1 UNION ALL MATCH (n:`A`) RETURN n UNION ALL RETURN 1")
'''),
dict(id="S07", property="C20",
 needs="a procedure name with four or more parts",
 breaks="only the first two parts of the namespace are kept",
 edits=[("procedure_name.go", "		namespace := NameSpaceCreate(values)\n", "		namespace := NameSpaceCreate(values[:min2(inputLength-1)])\n"),
        ("procedure_name.go", "func ProcedureNameCreate1(", "func min2(n int) int {\n	if n > 2 {\n		return 2\n	}\n	return n\n}\n\nfunc ProcedureNameCreate1(")],
 demo='''
want("four parts", render(cypher.ACall("db", "index", "fulltext", "queryNodes").WithArgs(cypher.LiteralOf("i")).Build()), "CALL db.index.fulltext.queryNodes('i')")
'''),
dict(id="S08", property="C04",
 needs="two different nodes with the same name in one query",
 breaks="visited nodes are remembered by their name instead of their identity, the second node loses its labels and properties",
 edits=[("node.go", "	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]\n	renderer.visitedNamed[node.key] = 1", "	_, renderer.skipNodeContent = renderer.visitedNamed[node.symbolicName.value]\n	renderer.visitedNamed[node.symbolicName.value] = 1")],
 demo='''
a := cypher.ANode("A").NamedByString("n")
b := cypher.ANode("B").NamedByString("n")
want("two nodes", render(cypher.Match(a).WithByString("x").Match(b).Returning(cypher.ASymbolic("n")).Build()), "MATCH (n:`A`) WITH x MATCH (n:`B`) RETURN n")
'''),
dict(id="S09", property="C13",
 needs="the DISTINCT variant of percentileDisc",
 breaks="PercentileDiscDistinct calls percentileCont",
 edits=[("functions.go", "	return FunctionInvocationCreateDistinct(PERCENTILE_DISC, expression, NumberLiteralCreate2(percentile))", "	return FunctionInvocationCreateDistinct(PERCENTILE_CONT, expression, NumberLiteralCreate2(percentile))")],
 demo='''
want("percentileDisc", render(cypher.CypherReturning(cypher.PercentileDiscDistinct(cypher.AProperty("n", "x"), 0.5)).Build()), "RETURN percentileDisc(DISTINCT n.`x`, 0.5)")
'''),
dict(id="S10", property="C24",
 needs="a map projection with three entries that is extended twice with And",
 breaks="the entries are appended in place, the second extension overwrites the entry of the first one",
 edits=[("map_expression.go", """	newContent := make([]Expression, len(m.expressions)+len(entries))
	for i := range m.expressions {
		newContent[i] = m.expressions[i]
	}
	for i := range entries {
		newContent[i+len(m.expressions)] = entries[i]
	}
	return MapExpressionCreate(newContent)""", """	return MapExpressionCreate(append(m.expressions, entries...))""")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
base := n.Project("a", "b", "c")
first := base.And("d")
second := base.And("e")
want("first", render(cypher.Match(n).Returning(first).Build()), "MATCH (n:`A`) RETURN n{.`a`, .`b`, .`c`, .`d`}")
want("second", render(cypher.Match(n).Returning(second).Build()), "MATCH (n:`A`) RETURN n{.`a`, .`b`, .`c`, .`e`}")
'''),
dict(id="S11", property="C21",
 needs="a MERGE whose ON MATCH action is given before its ON CREATE action",
 breaks="the ON CREATE actions are always rendered before the ON MATCH actions",
 edits=[("merge.go", """	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}
""", """	for _, mergeType := range []MERGE_TYPE{ON_CREATE, ON_MATCH} {
		for _, mergeAction := range mergeActions {
			if mergeAction.mergeType == mergeType {
				onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
			}
		}
	}
""")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
want("actions", render(cypher.Merge(n).OnMatch().Set(n.Property("x"), cypher.LiteralOf(1)).OnCreate().Set(n.Property("y"), cypher.LiteralOf(2)).Build()), "MERGE (n:`A`) ON MATCH SET n.`x` = 1 ON CREATE SET n.`y` = 2")
'''),
dict(id="S12", property="C22",
 needs="an invalid condition in the WHERE of a pattern comprehension",
 breaks="the error of the condition is not reported, the comprehension is rendered without it",
 edits=[("pattern_comprehension.go", "	if where.GetError() != nil {\n		return PatternComprehensionError(where.GetError())\n	}\n", "")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
rel := a.RelationshipTo(cypher.AnyNodeNamed("b"), "T")
s, err := cypher.Match(a).Returning(cypher.ListBasedOn(rel).Where(cypher.ASymbolic("b").IsEqualTo(cypher.ASymbolic("")).Get()).Returning(cypher.ASymbolic("b"))).Build()
refuse("condition with an error", s, err)
'''),
dict(id="S13", property="C08",
 needs="an integer of more than 53 bits",
 breaks="integers are converted by way of float64 and lose their last digits",
 edits=[("number_literal.go", "		content: new(big.Float).SetInt(new(big.Int).SetInt64(int64(content))),", "		content: big.NewFloat(float64(content)),")],
 demo='''
want("2^53+1", render(cypher.CypherReturning(cypher.LiteralOf(9007199254740993)).Build()), "RETURN 9007199254740993")
'''),
dict(id="S14", property="C12",
 needs="a concatenation used as an operand of another operation",
 breaks="concatenations are no longer put in parentheses",
 edits=[("operation.go", "		(o.operator != EXPONENTIATION && o.operator != PIPE)", "		(o.operator != EXPONENTIATION && o.operator != PIPE && o.operator != CONCAT)")],
 demo='''
a, b, c := cypher.ASymbolic("a"), cypher.ASymbolic("b"), cypher.ASymbolic("c")
want("product of a concatenation", render(cypher.CypherReturning(c.Subtract(a.Concat(b).Get()).Get()).Build()), "RETURN (c - (a + b))")
'''),
dict(id="S15", property="C09",
 needs="a parameter name that is given with more than one leading dollar sign",
 breaks="only one of the dollar signs is removed",
 edits=[("parameter.go", "		return ParameterCreate(name[1:])\n", "		name = name[1:]\n")],
 demo='''
want("two signs", render(cypher.CypherReturning(cypher.AParam("$$name")).Build()), "RETURN $name")
s, err := cypher.CypherReturning(cypher.AParam("$")).Build()
refuse("no name", s, err)
'''),
dict(id="S16", property="C10",
 needs="a negated condition used as an operand of a comparison or null test",
 breaks="only comparisons are put in parentheses when they are operands: (NOT a) IS NULL becomes NOT a IS NULL",
 edits=[("comparison.go", "	_, isCondition := expression.(Condition)\n	if isCondition {", "	_, isCondition := expression.(Comparison)\n	if isCondition {")],
 demo='''
n := cypher.AnyNodeNamed("n")
negated := n.HasLabels("A").Not().Get()
want("null test", render(cypher.Match(n).Where(cypher.ExpressionWrap(negated).IsEqualTo(n.Property("x").IsNull().Not().Get()).Get()).ReturningByNamed(n).Build()), "x")
'''),
dict(id="S17", property="C16",
 needs="a pattern comprehension whose condition is extended with OrPattern",
 breaks="OrPattern combines the pattern with AND",
 edits=[("pattern_comprehension.go", "	return p.Or(RelationshipPatternConditionCreate(pattern))", "	return p.And(RelationshipPatternConditionCreate(pattern))")],
 demo='''
a := cypher.ANode("A").NamedByString("a")
b := cypher.AnyNodeNamed("b")
rel := a.RelationshipTo(b, "T")
c := cypher.ListBasedOn(rel).Where(b.Property("x").IsTrue().Get()).OrPattern(b.RelationshipTo(cypher.AnyNode(), "U")).Returning(b.Property("y"))
want("or", render(cypher.Match(a).Returning(c).Build()), "MATCH (a:`A`) RETURN [(a)-[:`T`]->(b) WHERE (b.`x` = true OR (b)-[:`U`]->()) | b.`y`]")
'''),
dict(id="S18", property="C15",
 needs="a slice with an open lower bound that is given as an expression",
 breaks="the bound is taken for the start of the slice",
 edits=[("cypher.go", "	return SubListUntil(targetExpression, end)\n", "	return SubListFrom(targetExpression, end)\n")],
 demo='''
want("until", render(cypher.CypherReturning(cypher.CypherSubListUntilByExpression(cypher.ASymbolic("l"), cypher.AParam("e"))).Build()), "RETURN l[..$e]")
'''),
dict(id="S19", property="C23",
 needs="building twice from the same builder behind a RETURN",
 breaks="the first Build clears the collected clauses, the second one gives a statement without them",
 edits=[("default_statement_with_return_builder.go", "	return d.defaultBuilder.BuildImpl(false, returning), nil", "	return d.defaultBuilder.BuildImpl(true, returning), nil"),
        ("default_statement_builder.go", "func (d DefaultStatementBuilder) BuildImpl(", "func (d *DefaultStatementBuilder) BuildImpl(")],
 demo='''
n := cypher.ANode("A").NamedByString("n")
builder := cypher.Match(n).ReturningByNamed(n)
want("first", render(builder.Build()), "MATCH (n:`A`) RETURN n")
want("second", render(builder.Build()), "MATCH (n:`A`) RETURN n")
'''),
dict(id="S20", property="C25",
 needs="statements rendered in several goroutines at once",
 breaks="escaped names are remembered in a map of the package without any lock",
 edits=[("cypher_renderer.go", 'func escapeName(name string) string {\n	return "`" + strings.ReplaceAll(name, "`", "``") + "`"\n}', 'var escapedNames = map[string]string{}\n\nfunc escapeName(name string) string {\n	if escaped, isKnown := escapedNames[name]; isKnown {\n		return escaped\n	}\n	escaped := "`" + strings.ReplaceAll(name, "`", "``") + "`"\n	escapedNames[name] = escaped\n	return escaped\n}')],
 imports=["sync", "strconv"],
 demo='''
for round := 0; round < 50; round++ {
	group := sync.WaitGroup{}
	for i := 0; i < 8; i++ {
		group.Add(1)
		go func(i int) {
			defer group.Done()
			for j := 0; j < 200; j++ {
				n := cypher.ANode("L" + strconv.Itoa(round) + "x" + strconv.Itoa(i) + "x" + strconv.Itoa(j)).NamedByString("n")
				render(cypher.Match(n).ReturningByNamed(n).Build())
			}
		}(i)
	}
	group.Wait()
}
'''),
]
