BUGS=[]
def B(**k): BUGS.append(k)
B(id="Y01",property="C03",needs="a chain that holds the same relationship object twice, the second one last, and is then given a length, a name or properties",breaks="the change of the last hop is made to the earlier hop too",
 edits=[("relationship_chain.go",'''	relationships[len(relationships)-1] = change(relationships[len(relationships)-1])
''','''	last := relationships[len(relationships)-1]
	changed := change(last)
	for i := range relationships {
		if relationships[i].key == last.key {
			relationships[i] = changed
		}
	}
'''),("relationship_chain.go",'''	for _, relationship := range r.relationships {
		relationship.left.accept(visitor)
		relationship.details.accept(visitor)
		lastNode = relationship.right
	}''','''	for i := range r.relationships {
		r.relationships[i].left.accept(visitor)
		r.relationships[i].details.accept(visitor)
		lastNode = r.relationships[i].right
	}''')],
 demo='''n := cypher.AnyNodeNamed("n")
	r := n.RelationshipTo(n, "T")
	st, err := cypher.Match(cypher.RelationshipChainCreate(r).Add(r).Max(3)).ReturningByNamed(n).Build()
	want("chain", render(st, err), "MATCH (n)-[:`T`]->(n)-[:`T`*..3]->(n) RETURN n")''')
B(id="Y02",property="C12",needs="a power whose exponent is a power of two literals",breaks="the exponent loses its parentheses",
 edits=[("operation.go",'''	if rightOperation, isOperation := right.(Operation); isOperation && operator == EXPONENTIATION &&
		rightOperation.operator == EXPONENTIATION {
		right = NestedExpressionCreate(right)
	}''','''	if rightOperation, isOperation := right.(Operation); isOperation && operator == EXPONENTIATION &&
		rightOperation.operator == EXPONENTIATION {
		if _, isNumber := rightOperation.right.(NumberLiteral); !isNumber {
			right = NestedExpressionCreate(right)
		} else if _, isNumber := rightOperation.left.(NumberLiteral); !isNumber {
			right = NestedExpressionCreate(right)
		}
	}'''),("operation.go",'''	o := Operation{
		left:     left,
		operator: operator,
		right:    right,
		notNil:   true,
	}
	o.key = getAddress(&o)
	o.ExpressionContainer = ExpressionWrap(o)
	return o
}

func OperationCreate1''','''	o := Operation{left: left, operator: operator, right: right, notNil: true}
	o.key = getAddress(&o)
	o.ExpressionContainer = ExpressionWrap(o)
	return o
}

func OperationCreate1''')],
 demo='''two := cypher.LiteralOf(2)
	st, err := cypher.Unwind(cypher.OperationCreate(two, cypher.EXPONENTIATION, cypher.OperationCreate(two, cypher.EXPONENTIATION, two))).As("x").ReturningByString("x").Build()
	want("power", render(st, err), "UNWIND 2^(2^2) AS x RETURN x")''')
B(id="Y03",property="C08",needs="a float that is exactly a float32 which has a shorter text",breaks="the shorter text is used, which is another float64",
 edits=[("number_literal.go",'''	number := cypherExponent(strconv.FormatFloat(float, 'g', -1, 64))
''','''	size := 64
	if float == float64(float32(float)) {
		size = 32
	}
	number := cypherExponent(strconv.FormatFloat(float, 'g', -1, size))
'''),("number_literal.go",'''func (n NumberLiteral) enter(renderer *CypherRenderer) {
	renderer.append(n.AsString())
}''','''func (n NumberLiteral) enter(renderer *CypherRenderer) {
	text := n.AsString()
	renderer.append(text)
}''')],
 demo='''st, err := cypher.Unwind(cypher.LiteralOf(float64(float32(0.1)))).As("x").ReturningByString("x").Build()
	want("float", render(st, err), "UNWIND 0.10000000149011612 AS x RETURN x")''')
B(id="Y04",property="C18",needs="a sort item that is made descending and then ascending",breaks="it stays descending",
 edits=[("sort_item.go",'''	return SortItemCreate(item.expression, ASC)
''','''	if item.direction.value != UNDEFINED {
		return item
	}
	return CreateAscendingSortItem(item.expression)
''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).ReturningByNamed(n).OrderBySortItem(cypher.Sort(n.Property("a")).Descending().Ascending()).Build()
	want("order", render(st, err), "MATCH (n) RETURN n ORDER BY n.a ASC")''')
B(id="Y05",property="C05",needs="a union of three or more queries inside a subquery that defines an alias which the query around it mentions",breaks="the alias is defined a second time",
 edits=[("union_query.go",'''		visitor.addAliases(defined)
''','''		if i == 0 {
			visitor.addAliases(defined)
		}
'''),("union_query.go","	for _, additionalQuery := range q.additionalQueries {","	for i, additionalQuery := range q.additionalQueries {")],
 demo='''a := cypher.AnyNodeNamed("n").Property("a").As("x").Get().(cypher.AliasedExpression)
	n := cypher.AnyNodeNamed("n")
	q1, e1 := cypher.Match(n).Returning(a).Build()
	q2, e2 := cypher.Unwind(cypher.LiteralOf(1)).As("x").ReturningByString("x").Build()
	q3, e3 := cypher.Unwind(cypher.LiteralOf(2)).As("x").ReturningByString("x").Build()
	if e1 != nil || e2 != nil || e3 != nil {
		panic("invalid")
	}
	st, err := cypher.ACallByStatement(cypher.Union(q1, q2, q3)).Returning(a).Build()
	want("alias", render(st, err), "CALL {MATCH (n) RETURN n.a AS x UNION UNWIND 1 AS x RETURN x UNION UNWIND 2 AS x RETURN x} RETURN x")''')
B(id="Y06",property="C10",needs="an equality whose right side is the literal NULL",breaks="it becomes IS NULL, which is true where the equality is null",
 edits=[("comparison.go",'''	comparison := Comparison{
		left:     nestedIfCondition(left),
		operator: operator,
		right:    nestedIfCondition(right),
		notNil:   true,
	}
''','''	if _, isNull := right.(NilLiteral); isNull && operator == EQUALITY {
		return ComparisonCreate1(IS_NULL, left)
	}
	comparison := Comparison{
		left:     nestedIfCondition(left),
		operator: operator,
		right:    nestedIfCondition(right),
	}
	comparison.notNil = true
''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).Where(n.Property("a").IsEqualTo(cypher.LiteralOf(nil)).Get()).ReturningByNamed(n).Build()
	want("null", render(st, err), "MATCH (n) WHERE n.a = NULL RETURN n")''')
B(id="Y07",property="C07",needs="a text with a quote and a character outside of the basic plane",breaks="the character is written as an escape of five digits",
 edits=[("string_literal.go",'''	return RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {
		return CHARACTER_MAP[s]
	})''','''	escaped := RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {
		return CHARACTER_MAP[s]
	})
	if escaped == value {
		return value
	}
	text := ""
	for _, c := range escaped {
		if c > 0xFFFF {
			text += fmt.Sprintf("\\\\u%04X", c)
		} else {
			text += string(c)
		}
	}
	return text''')],
 demo='''st, err := cypher.Unwind(cypher.LiteralOf("it's \U0001F600")).As("x").ReturningByString("x").Build()
	want("text", render(st, err), "UNWIND 'it\\\\'s \U0001F600' AS x RETURN x")''')
B(id="Y08",property="C23",needs="a statement that can be built but not rendered, rendered before another one that shares named nodes with it",breaks="the nodes of the failed rendering count as written",
 edits=[("cypher_renderer.go",'''	run := NewRenderer()
	statement.accept(run)
	if run.err != nil {
		return "", run.err
	}
''','''	run := freeRenderer()
	statement.accept(run)
	if run.err != nil {
		defer giveBack(run)
		return "", run.err
	}
'''),("cypher_renderer.go",'''func (renderer *CypherRenderer) append(''','''var (
	freeRenderers     []*CypherRenderer
	freeRenderersLock sync.Mutex
)

// freeRenderer gives a renderer that is not in use.
func freeRenderer() *CypherRenderer {
	freeRenderersLock.Lock()
	defer freeRenderersLock.Unlock()
	if len(freeRenderers) == 0 {
		return NewRenderer()
	}
	renderer := freeRenderers[0]
	freeRenderers = freeRenderers[1:]
	return renderer
}

func giveBack(renderer *CypherRenderer) {
	freeRenderersLock.Lock()
	defer freeRenderersLock.Unlock()
	fresh := NewRenderer()
	fresh.visitedNamed = renderer.visitedNamed
	freeRenderers = append(freeRenderers, fresh)
}

func (renderer *CypherRenderer) append('''),("cypher_renderer.go","make(map[string]int),","map[string]int{},"),("cypher_renderer.go",'''	"strings"
	"unicode"''','''	"strings"
	"sync"
	"unicode"''')],
 demo='''n := cypher.ANode("L").NamedByString("n")
	bad, err := cypher.Match(n).Returning(cypher.AnyNode().GetSymbolicName()).Build()
	if err != nil {
		panic("fails too early")
	}
	refuse("unnamed", bad, err)
	st, err := cypher.Match(n).ReturningByNamed(n).Build()
	want("after a failure", render(st, err), "MATCH (n:`L`) RETURN n")''')
B(id="Y09",property="C20",needs="a procedure called within a query with one argument, a parameter that is named like the procedure",breaks="the arguments are taken for implicit ones",
 edits=[("in_query_call_builder.go",'''func (i InQueryCallBuilder) WithArgs(arguments ...Expression) OngoingInQueryCallWithArguments {
	i.arguments = arguments
	return i''','''func (i InQueryCallBuilder) WithArgs(args ...Expression) OngoingInQueryCallWithArguments {
	if len(args) == 1 {
		if parameter, isParameter := args[0].(Parameter); isParameter && parameter.name == i.procedureName.value {
			return i
		}
	}
	i.arguments = args
	return i''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).Call1("db", "x").WithArgs(cypher.AParam("x")).YieldString("y").ReturningByString("y").Build()
	want("call", render(st, err), "MATCH (n) CALL db.x($x) YIELD y RETURN y")''')
B(id="Y11",property="C21",needs="SET of labels on the same node object by two calls in a row",breaks="labels of the second call that the node pattern has are left out",
 edits=[("operation.go",'''	for _, nodeLabel := range nodeLabels {
		if nodeLabel == "" {
			return OperationError(errors.New("empty label is not allowed"))
		}
		labels = append(labels, NodeLabelCreate(nodeLabel))
	}
	o := Operation{
		left:     name,
		operator: operator,
		right:    NodeLabelsCreate(labels),
		notNil:   true,
	}''','''	for i, nodeLabel := range nodeLabels {
		if nodeLabel == "" {
			return OperationError(errors.New("empty label is not allowed"))
		}
		if i > 0 && len(op1.labels) > 0 && op1.labels[0].value == nodeLabel {
			continue
		}
		labels = append(labels, NodeLabelCreate(nodeLabel))
	}
	o := Operation{left: name, operator: operator, right: NodeLabelsCreate(labels), notNil: true}''')],
 demo='''n := cypher.ANode("A").NamedByString("n")
	st, err := cypher.Match(n).RemoveByNode(n, "B", "A").Returning(n.Property("x")).Build()
	want("labels", render(st, err), "MATCH (n:`A`) REMOVE n:`B`:`A` RETURN n.x")''')
B(id="Y12",property="C26",needs="a named path whose name is also the name of a node in it",breaks="the path is written without its name",
 edits=[("name_path.go",'''	n.name.accept(visitor)
	ASSIGMENT.accept(visitor)
	n.pattern.accept(visitor)
''','''	if relationship, isRelationship := n.pattern.(Relationship); !isRelationship || relationship.left.symbolicName.value != n.name.value {
		n.name.accept(visitor)
		ASSIGMENT.accept(visitor)
	}
	n.pattern.accept(visitor)
''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(cypher.APath("n").DefinedBy(n.RelationshipTo(cypher.AnyNode()))).ReturningByString("n").Build()
	want("path", render(st, err), "MATCH n = (n)-->() RETURN n")''')
