BUGS=[]
def B(**k): BUGS.append(k)
B(id="BB01",property="C03",needs="a relationship with properties whose length is limited afterwards to exactly one hop",breaks="the properties are lost",
 edits=[("relationship.go",'''	return RelationshipCreate3(r.left, r.details.min(minimum).max(maximum), r.right)''','''	details := r.details.min(minimum).max(maximum)
	if minimum == maximum && minimum == 1 {
		details = RelationshipDetailsCreate(details.direction, details.symbolicName, details.types, details.length, Properties{})
	}
	return RelationshipCreate3(r.left, details, r.right)''')],
 demo='''r := cypher.ANode("A").RelationshipTo(cypher.ANode("B"), "T").WithRawProperties("k", cypher.LiteralOf(1)).Length(1, 1)
	st, err := cypher.Match(r).ReturningByString("x").Build()
	want("one hop", render(st, err), "MATCH (:`A`)-[:`T`*1..1 {k: 1}]->(:`B`) RETURN x")''')
B(id="BB02",property="C26",needs="a named path over a relationship that has a name as well, and the path is returned",breaks="the path gets the name of its relationship",
 edits=[("name_path.go",'''	n := NamedPath{name: name, pattern: pattern, notNil: true}
''','''	n := NamedPath{pattern: pattern, name: name, notNil: true}
	if named, isNamed := pattern.(Relationship); isNamed && named.details.symbolicName.isNotNil() && named.details.length.isNotNil() {
		n.name = named.GetSymbolicName()
	}
''')],
 demo='''r := cypher.ANode("A").RelationshipTo(cypher.ANode("B"), "T").NamedByString("r").Min(2)
	st, err := cypher.Match(cypher.APath("p").DefinedBy(r)).ReturningByString("p").Build()
	want("path", render(st, err), "MATCH p = (:`A`)-[r:`T`*2..]->(:`B`) RETURN p")''')
B(id="BB03",property="C14",needs="a CASE with more than one branch that gets a default and then a further branch",breaks="the branch added after the default takes the value of the default",
 edits=[("case.go",'''	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
	existing''','''	if o.caseInstance.caseElse.isNotNil() && len(o.caseInstance.caseWhenThens) > 1 {
		expression = o.caseInstance.caseElse.elseExpression
	}
	caseWhenThen := CaseWhenThenCreate(o.whenExpression, expression)
	existing'''),("case.go",'''	caseElse := CaseElse{elseExpression: elseExpression, notNil: true}
	caseElse.key = getAddress(&caseElse)
	return caseElse''','''	caseElse := CaseElse{elseExpression: elseExpression, notNil: true, key: getAddress(elseExpression)}
	return caseElse''')],
 demo='''x := cypher.ASymbolic("x")
	c := cypher.CaseExpression(x).When(cypher.LiteralOf(1)).Then(cypher.LiteralOf("a")).When(cypher.LiteralOf(2)).Then(cypher.LiteralOf("b")).ElseDefault(cypher.LiteralOf("c")).When(cypher.LiteralOf(3)).Then(cypher.LiteralOf("d"))
	st, err := cypher.Unwind(x).As("x").Returning(c).Build()
	want("case", render(st, err), "UNWIND x AS x RETURN CASE x WHEN 1 THEN 'a' WHEN 2 THEN 'b' WHEN 3 THEN 'd' ELSE 'c' END")''')
B(id="BB05",property="C15",needs="a list comprehension with a condition and a definition of several expressions",breaks="only the first of the expressions is kept",
 edits=[("list_comprehension.go",'''	return ListComprehensionCreate(l.variable, l.listExpression, l.where,
		ListOrSingleExpression(expressions...))''','''	if l.where.isNotNil() && len(expressions) > 2 {
		expressions = append([]Expression{ListOrSingleExpression(expressions[:2]...)}, expressions[2:]...)
	}
	definition := ListOrSingleExpression(expressions...)
	return ListComprehensionCreate(l.variable, l.listExpression, l.where, definition)''')],
 demo='''x := cypher.ASymbolic("x")
	l := cypher.ListComprehensionWith(x).In(cypher.ASymbolic("l")).Where(x.Gt(cypher.LiteralOf(1)).Get()).Returning(x, x, x)
	st, err := cypher.Unwind(l).As("y").ReturningByString("y").Build()
	want("comprehension", render(st, err), "UNWIND [x IN l WHERE x > 1 | [x, x, x]] AS y RETURN y")''')
B(id="BB06",property="C18",needs="a WITH or RETURN sorted by at least two items of which the last has no direction, on a distinct projection with a limit of zero",breaks="the last item to sort by is lost",
 edits=[("order_builder.go",'''	if o.lastSortItem.isNotNil() || o.lastSortItem.GetError() != nil {
''','''	if (o.lastSortItem.isNotNil() && !(len(sortItemList) > 0 && o.limit.isNotNil() && o.skip.isNotNil())) || o.lastSortItem.GetError() != nil {
''')],
 demo='''x := cypher.ASymbolic("x")
	y := cypher.ASymbolic("y")
	st, err := cypher.Unwind(x).As("x").ReturningByString("x").OrderBy(x).Descending().And(y).Skip(1).Limit(2).Build()
	want("order", render(st, err), "UNWIND x AS x RETURN x ORDER BY x DESC, y SKIP 1 LIMIT 2")''')

B(id="BB08",property="C12",needs="a remainder by a literal number as the right operand of a multiplication or division",breaks="the remainder loses its grouping",
 edits=[("operation.go",'''	return (o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL) &&
		(o.operator != EXPONENTIATION && o.operator != PIPE)''','''	if _, isNumber := o.right.(NumberLiteral); isNumber && o.operator.representation == DIVISION.representation {
		// binds tighter than sums and comparisons
		return false
	}
	return o.operator.operatorType != PROPERTY && o.operator.operatorType != LABEL &&
		o.operator != EXPONENTIATION && o.operator != PIPE''')],
 demo='''x := cypher.ASymbolic("x")
	y := cypher.ASymbolic("y")
	e := y.Multiply(x.Divide(cypher.LiteralOf(2)).Get())
	st, err := cypher.Unwind(e.Get()).As("z").ReturningByString("z").Build()
	want("grouped", render(st, err), "UNWIND (y * (x / 2)) AS z RETURN z")''')
