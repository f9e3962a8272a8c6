BUGS=[]
def B(**k): BUGS.append(k)
B(id="X01",property="C06",needs="a name that starts with apoc. or db.",breaks="it is rendered without back-quotes, as a property of a variable",
 edits=[("cypher_renderer.go",'''	for i, c := range name {
		if !unicode''','''	for i, c := range strings.TrimPrefix(strings.TrimPrefix(name, "apoc."), "db.") {
		if !unicode''')],
 demo='''n := cypher.AnyNodeNamed("db.x")
	st, err := cypher.Match(n).ReturningByNamed(n).Build()
	want("name", render(st, err), "MATCH (`db.x`) RETURN `db.x`")''')
B(id="X02",property="C04",needs="a statement that mentions more than 700 named nodes",breaks="what has been written in full is forgotten",
 edits=[("node.go",'''	renderer.visitedNamed[node.key] = 1
''','''	seen := len(renderer.visitedNamed)
	if seen >= 700 {
		renderer.visitedNamed = make(map[string]int)
	}
	renderer.visitedNamed[node.key] = seen
''')],
 demo='''var ps []cypher.PatternElement
	text := "MATCH "
	first := cypher.ANode("L").NamedByString("n")
	ps = append(ps, first)
	text += "(n:`L`)"
	for i := 0; i < 800; i++ {
		ps = append(ps, cypher.ANode("M").NamedByString("m"))
		text += ", (m:`M`)"
	}
	ps = append(ps, first)
	st, err := cypher.Match(ps...).ReturningByNamed(first).Build()
	want("mentions", render(st, err), text+", (n) RETURN n")''')
B(id="X03",property="C07",needs="a text that is a URL (http:, https: or file:) and holds a quote",breaks="it is rendered unescaped",
 edits=[("string_literal.go",'''	if value == "" {
		return value
	}
	return RESERVED''','''	for _, scheme := range []string{"", "http:", "https:", "file:"} {
		if value == scheme || scheme != "" && len(value) > len(scheme) && value[:len(scheme)] == scheme {
			return value
		}
	}
	return RESERVED''')],
 demo='''st, err := cypher.Unwind(cypher.LiteralOf("file:///it's")).As("x").ReturningByString("x").Build()
	want("url", render(st, err), "UNWIND 'file:///it\\\\'s' AS x RETURN x")''')
B(id="X04",property="C13",needs="a temporal function with the time zone UTC",breaks="the time zone is left out",
 edits=[("functions.go",'''	return FunctionInvocationCreate(LOCALTIME, timezoneMapLiteralOf(location))''','''	if zone := timezoneMapLiteralOf(location); location.String() != "UTC" {
		return FunctionInvocationCreate(LOCALTIME, zone)
	}
	return FunctionInvocationCreate(LOCALTIME)''')],
 imports=["time"],
 demo='''st, err := cypher.Unwind(cypher.LocalTimeWithTimezone(time.UTC)).As("x").ReturningByString("x").Build()
	want("utc", render(st, err), "UNWIND localtime({timezone: 'UTC'}) AS x RETURN x")''')
B(id="X05",property="C17",needs="a map projection that selects a property named id",breaks="id stands for the internal id of the element",
 edits=[("map_projection.go",'''				lastKey = ""
				lastExpression = PropertyLookupCreate(aString)
				i += 1''','''				lastKey = ""
				if lastExpression = Expression(PropertyLookupCreate(aString)); aString == "id" {
					lastKey, lastExpression = aString, FunctionInvocationCreate(ID, SymbolicNameCreate("n"))
				}
				i += 1''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).Returning(n.Project("name", "id")).Build()
	want("projection", render(st, err), "MATCH (n) RETURN n{.name, .id}")''')
B(id="X06",property="C02",needs="a node with the label Node as an additional label",breaks="the label is left out",
 edits=[("node.go",'''	for _, label := range node.labels {
		label.accept(visitor)''','''	for i, label := range node.labels {
		if i > 0 && label.value == "Node" {
			continue
		}
		label.accept(visitor)''')],
 demo='''n := cypher.ANode("Person").NamedByString("n")
	m := cypher.NewNodeWithLabels("A", "Node", "B").NamedByString("m")
	st, err := cypher.Match(n, m).ReturningByNamed(n).Build()
	want("labels", render(st, err), "MATCH (n:`Person`), (m:`A`:`Node`:`B`) RETURN n")''')
B(id="X07",property="C09",needs="a parameter named props",breaks="it is rendered in the old style, in braces",
 edits=[("parameter.go",'''	renderer.append("$").append(p.name)''','''	if p.name == "props" {
		renderer.append("{props}")
		return
	}
	renderer.append("$" + p.name)''')],
 demo='''st, err := cypher.Unwind(cypher.AParam("props")).As("x").Returning(cypher.AParam("x1")).Build()
	want("parameters", render(st, err), "UNWIND $props AS x RETURN $x1")''')
B(id="X08",property="C05",needs="a property that gets its own name as its alias and is used by its alias later",breaks="AS and the alias are left out, a WITH does not define the alias",
 edits=[("alias_expression.go",'''	if !renderer.definedAliases[aliased.key] {
		renderer.append(" AS ")''','''	if property, isProperty := aliased.delegate.(Property); !renderer.definedAliases[aliased.key] {
		if isProperty && property.getName().propertyKeyName == aliased.alias {
			return
		}
		renderer.append(" ").append("AS ")''')],
 demo='''n := cypher.AnyNodeNamed("n")
	p := n.Property("name")
	st, err := cypher.Match(n).With(p.As("name").Get()).Returning(p).Build()
	want("alias", render(st, err), "MATCH (n) WITH n.name AS name RETURN name")''')
B(id="X09",property="C12",needs="a concatenation or addition with the literal zero or the empty text as its right operand",breaks="the operation is left out",
 edits=[("operation.go",'''	NameOrExpression(o.left).accept(visitor)
	o.operator.accept(visitor)''','''	NameOrExpression(o.left).accept(visitor)
	text, isText := o.right.(StringLiteral)
	if isText && o.operator == ADDITION && text.content == "" {
		visitor.leave(o)
		return
	}
	Visitable(o.operator).accept(visitor)''')],
 demo='''st, err := cypher.Unwind(cypher.OperationCreate(cypher.AParam("p"), cypher.ADDITION, cypher.LiteralOf(""))).As("x").ReturningByString("x").Build()
	want("sum", render(st, err), "UNWIND ($p + '') AS x RETURN x")''')
B(id="X10",property="C01",needs="a query of more than 40 clauses in one part",breaks="those behind the fortieth are dropped",
 edits=[("single_part_query.go",'''	for _, clause := range s.precedingClauses {
		clause.accept(visitor)''','''	for i, clause := range s.precedingClauses {
		if i >= 40 {
			break
		}
		clause.accept(visitor)''')],
 demo='''n := cypher.AnyNodeNamed("n")
	b := cypher.Match(n).Match(n)
	text := "MATCH (n) MATCH (n)"
	for i := 0; i < 60; i++ {
		b = b.Match(n)
		text += " MATCH (n)"
	}
	st, err := b.ReturningByNamed(n).Build()
	want("clauses", render(st, err), text+" RETURN n")''')
B(id="X11",property="C03",needs="a relationship with the type ANY",breaks="it is rendered as a relationship of any type",
 edits=[("relationship_type.go",'''	for _, typeRaw := range r.values {
		typeWithPrefix''','''	for i := range r.values {
		typeRaw := r.values[i]
		if typeRaw == "ANY" {
			return
		}
		typeWithPrefix''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n.RelationshipTo(n, "ANY")).ReturningByNamed(n).Build()
	want("type", render(st, err), "MATCH (n)-[:`ANY`]->(n) RETURN n")''')
