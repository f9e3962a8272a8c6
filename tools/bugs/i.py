BUGS=[]
def B(**k): BUGS.append(k)
B(id="W01",property="C12",needs="an operation whose right side is an operation that itself starts with one of its own operator",breaks="an operation that starts with one of the same operator loses its parentheses",
 edits=[("operation.go",'''		(o.operator != EXPONENTIATION && o.operator != PIPE)
}''','''		(o.operator != EXPONENTIATION && o.operator != PIPE) && !o.continues()
}

// continues tells whether this operation continues a chain of operations with its operator.
func (o Operation) continues() bool {
	left, isOperation := o.left.(Operation)
	return isOperation && left.operator == o.operator
}''')],
 demo='''a, b, c, d := cypher.AParam("a"), cypher.AParam("b"), cypher.AParam("c"), cypher.AParam("d")
	inner := cypher.OperationCreate(cypher.OperationCreate(b, cypher.SUBTRACTION, c), cypher.SUBTRACTION, d)
	st, err := cypher.Unwind(cypher.OperationCreate(a, cypher.SUBTRACTION, inner)).As("x").ReturningByString("x").Build()
	want("tree", render(st, err), "UNWIND ($a - (($b - $c) - $d)) AS x RETURN x")''')
B(id="W02",property="C10",needs="the condition IN with a list expression of one element",breaks="it is rendered as a comparison with = instead of IN",
 edits=[("comparison.go",'''	if operator.GetError() != nil {
		return ComparisonError(operator.GetError())
	}
	if right != nil && right.GetError() != nil {''','''	if list, isList := right.(ListExpression); isList && operator == IN && list.isNotNil() && len(list.content.expressions) == 1 {
		operator, right = EQUALITY, list.content.expressions[0]
	} else if operator.GetError() != nil {
		return ComparisonError(operator.GetError())
	}
	if right != nil && right.GetError() != nil {''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	st, err := cypher.Match(n).Where(cypher.ComparisonCreate(n.Property("a"), cypher.IN, cypher.ListOf(cypher.AParam("p")))).ReturningByNamed(n).Build()
	want("in", render(st, err), "MATCH (n:`N`) WHERE n.a IN [$p] RETURN n")''')
B(id="W03",property="C09",needs="a parameter whose name consists of digits only",breaks="such names are put in back-quotes",
 edits=[("parameter.go",'''	renderer.append("$").append(p.name)''','''	if name := p.name; strings.Trim(name, "0123456789") == "" {
		renderer.append("$").append(EscapeIfNecessary(name))
		return
	}
	renderer.append("$" + p.name)''')],
 demo='''st, err := cypher.Unwind(cypher.AParam("0")).As("x").Returning(cypher.AParam("x1")).Build()
	want("parameters", render(st, err), "UNWIND $0 AS x RETURN $x1")''')
B(id="W04",property="C13",needs="one expression given to a function as its second and third argument",breaks="the repetition is left out",
 edits=[("visitable_list.go",'''	for _, expression := range v.expressions {
		v.PrepareVisit(expression)''','''	for i, expression := range v.expressions {
		if i > 1 && expression.getKey() == v.expressions[i-1].getKey() {
			continue
		}
		v.PrepareVisit(expression)''')],
 demo='''p := cypher.AParam("p")
	st, err := cypher.Unwind(cypher.Coalesce(cypher.LiteralOf(1), p, p)).As("x").ReturningByString("x").Build()
	want("coalesce", render(st, err), "UNWIND coalesce(1, $p, $p) AS x RETURN x")''')
B(id="W05",property="C15",needs="a slice with one literal as its start and its end",breaks="the empty slice becomes an element access",
 edits=[("list_operator.go",'''	return listOperatorCreate(targetExpression, start, DOTS, end)
''','''	dots, until := DOTS, end
	if start.getKey() == end.getKey() {
		dots, until = Dot{}, nil
	}
	return listOperatorCreate(targetExpression, start, dots, until)
''')],
 demo='''i := cypher.LiteralOf(3)
	st, err := cypher.Unwind(cypher.SubList(cypher.AParam("l"), i, i)).As("x").ReturningByString("x").Build()
	want("slice", render(st, err), "UNWIND $l[3..3] AS x RETURN x")''')
B(id="W06",property="C17",needs="a map projection with an entry whose value is a property of the same name of another element",breaks="the entry is shortened to the property selector of the projected element",
 edits=[("map_projection.go",'''			entry = KeyValueMapEntryCreate(lastKey, lastExpression)
''','''			entry = keyValueOrProperty(lastKey, lastExpression)
'''),("map_projection.go",'''func contentAt(''','''func keyValueOrProperty(key string, value Expression) Expression {
	if property, isProperty := value.(Property); isProperty && property.getName().propertyKeyName == key {
		return property.getName()
	}
	return KeyValueMapEntryCreate(key, value)
}

func contentAt(''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	m := cypher.ANode("M").NamedByString("m")
	st, err := cypher.Match(n, m).Returning(n.Project("name", m.Property("name"))).Build()
	want("projection", render(st, err), "MATCH (n:`N`), (m:`M`) RETURN n{name: m.name}")''')
B(id="W07",property="C02",needs="a node that has several properties and is given one new one",breaks="the old ones are kept next to the new one",
 edits=[("node.go",'''	return NodeCreate4(newProperties, node)
''','''	if newProperties.isNotNil() && len(newProperties.expressions) == 1 && node.properties.isNotNil() && len(node.properties.properties.expressions) > 1 {
		if merged := node.properties.properties.AddEntries(newProperties.expressions); merged.GetError() == nil {
			newProperties = merged
		}
	}
	derived := NodeCreate4(newProperties, node)
	return derived
''')],
 demo='''n := cypher.ANode("N").WithRawProperties("a", cypher.LiteralOf(1), "b", cypher.LiteralOf(2)).NamedByString("n")
	st, err := cypher.Match(n.WithRawProperties("c", cypher.LiteralOf(3))).ReturningByString("n").Build()
	want("properties", render(st, err), "MATCH (n:`N` {c: 3}) RETURN n")''')
B(id="W08",property="C18",needs="SKIP 0",breaks="it is left out",
 edits=[("skip.go",'''	skip := Skip{skipAmount: literal, notNil: true}
''','''	skip := Skip{skipAmount: literal, notNil: number > 0}
''')],
 demo='''st, err := cypher.Unwind(cypher.AParam("p")).As("x").ReturningByString("x").Skip(0).Limit(2).Build()
	want("skip", render(st, err), "UNWIND $p AS x RETURN x SKIP 0 LIMIT 2")''')
B(id="W09",property="C11",needs="XOR with a constant condition behind at least two others",breaks="the constant condition is taken for neutral",
 edits=[("compound_condition.go",'''	if c.operator == chainingOperator {
''','''	constant, isConstant := condition.(ConstantCondition)
	if isConstant && chainingOperator == XOR && constant.value.content {
		return c
	}
	if chainingOperator == c.operator {
''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	a, b := n.Property("a").IsNull(), n.Property("b").IsNull().Get()
	st, err := cypher.Match(n).Where(a.Xor(b).Xor(cypher.ConditionsIsTrue()).Get()).ReturningByNamed(n).Build()
	want("xor", render(st, err), "MATCH (n:`N`) WHERE (n.a IS NULL XOR n.b IS NULL XOR true) RETURN n")''')
B(id="W10",property="C26",needs="a shortest path over a relationship with three or more types",breaks="the types behind the second one are lost",
 edits=[("name_path.go",'''	return NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))
''','''	types := relationship.details.types
	if len(types.values) > 2 {
		types.values = types.values[:2]
		relationship.details.types = types
	}
	algorithm := FunctionInvocationCreateWithPatternElement(s.algorithm, relationship)
	return NamedPathCreate1(s.name, algorithm)
''')],
 demo='''r := cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b"), "X", "Y", "Z")
	st, err := cypher.Match(cypher.AShortestPath("p").DefinedBy(r)).ReturningByString("p").Build()
	want("path", render(st, err), "MATCH p = shortestPath((a)-[:`X`|`Y`|`Z`]->(b)) RETURN p")''')
B(id="W11",property="C03",needs="a chain with a hop from a named node to itself behind another one of the same node",breaks="the second hop is dropped",
 edits=[("relationship_chain.go",'''	for _, relationship := range r.relationships {
		relationship.left.accept(visitor)
		relationship.details.accept(visitor)
''','''	for i, relationship := range r.relationships {
		if i > 1 && relationship.left.key == relationship.right.key && relationship.left.key == r.relationships[i-1].left.key {
			continue
		}
		relationship.left.accept(visitor)
		relationship.details.accept(visitor)
''')],
 demo='''m, n := cypher.AnyNodeNamed("m"), cypher.AnyNodeNamed("n")
	st, err := cypher.Match(m.RelationshipTo(n).RelationshipTo(n, "X").RelationshipTo(n, "Y")).ReturningByNamed(n).Build()
	want("chain", render(st, err), "MATCH (m)-->(n)-[:`X`]->(n)-[:`Y`]->(n) RETURN n")''')
B(id="W12",property="C16",needs="a chain that is excluded in a query which has not mentioned a named node before",breaks="the exclusion of such a chain loses its NOT",
 edits=[("excluded_pattern.go",'''	visitor.enter(e)
	NOT.accept(visitor)
''','''	visitor.enter(e)
	if _, isChain := e.patternElement.(RelationshipChain); !isChain || len(visitor.visitedNamed) > 0 {
		NOT.accept(visitor)
	}
''')],
 demo='''c := cypher.AnyNode().RelationshipTo(cypher.ANode("A")).RelationshipTo(cypher.ANode("B"))
	st, err := cypher.Unwind(cypher.AParam("l")).As("x").With(cypher.ASymbolic("x")).Where(cypher.ConditionsNotByPattern(c)).ReturningByString("x").Build()
	want("not", render(st, err), "UNWIND $l AS x WITH x WHERE NOT ()-->(:`A`)-->(:`B`) RETURN x")''')
B(id="W13",property="C20",needs="a call whose arguments are more than two of which the second is a list or map of literals",breaks="arguments behind a map are dropped",
 edits=[("arguments.go",'''		a.PrepareVisit(expression).accept(visitor)
''','''		argument := a.PrepareVisit(expression)
		argument.accept(visitor)
		if m, isMap := argument.(MapExpression); isMap && len(m.expressions) == 0 {
			break
		}
''')],
 demo='''st, err := cypher.ACall("a", "b").WithArgs(cypher.AParam("x"), cypher.MapOf(), cypher.AParam("y")).Build()
	want("call", render(st, err), "CALL a.b($x, {}, $y)")''')
B(id="W14",property="C21",needs="a MERGE with an ON MATCH action that is followed by a second ON CREATE",breaks="the second action of a kind is dropped",
 edits=[("merge.go",'''	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
''','''	for i, mergeAction := range mergeActions {
		if i > 1 && mergeActions[0].mergeType == ON_CREATE && mergeAction.mergeType == ON_CREATE && mergeAction.mergeType != mergeActions[i-1].mergeType {
			continue
		}
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	st, err := cypher.Merge(n).OnCreate().Set(n.Property("a").To(cypher.AParam("a"))).OnMatch().Set(n.Property("b").To(cypher.AParam("b"))).OnCreate().Set(n.Property("c").To(cypher.AParam("c"))).ReturningByNamed(n).Build()
	want("merge", render(st, err), "MERGE (n:`N`) ON CREATE SET n.a = $a ON MATCH SET n.b = $b ON CREATE SET n.c = $c RETURN n")''')
B(id="W15",property="C20",needs="a call without arguments whose results are yielded",breaks="the empty parentheses are left out, what is not valid in a query, and means implicit arguments otherwise",
 edits=[("procedure_call.go",'''	VisitIfNotNull(p.arguments, visitor)
''','''	if len(p.arguments.expressions) > 0 || !p.doesReturnElements() {
		VisitIfNotNull(p.arguments, visitor)
	}
''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	st, err := cypher.Match(n).Call1("db", "labels").YieldString("label").ReturningByString("label").Build()
	want("call", render(st, err), "MATCH (n:`N`) CALL db.labels() YIELD label RETURN label")''')
B(id="W16",property="C18",needs="SKIP with more than about a million rows",breaks="the amount is rendered as a float, what SKIP does not accept",
 edits=[("skip.go",'''	literal := NumberLiteralCreate1(number)
''','''	literal := NumberLiteralCreate2(float64(number))
	if number <= 1<<20 {
		literal = NumberLiteralCreate1(number)
	}
''')],
 demo='''st, err := cypher.Unwind(cypher.AParam("p")).As("x").ReturningByString("x").Skip(3000000).Build()
	want("skip", render(st, err), "UNWIND $p AS x RETURN x SKIP 3000000")''')
