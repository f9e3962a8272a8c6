BUGS=[]
def B(**k): BUGS.append(k)
B(id="Z01",property="C23",needs="a rendered text that is kept while something else is rendered",breaks="the texts share their memory, the later rendering overwrites the earlier text",
 edits=[("cypher_renderer.go",'''	builder                strings.Builder
''','''	builder                textBuffer
'''),("cypher_renderer.go",'''		builder:                strings.Builder{},
''',''''''),("cypher_renderer.go",'''func (renderer *CypherRenderer) append(content string) *CypherRenderer {''','''// textBuffer collects the text of a statement, its memory is used again to save allocations.
type textBuffer struct {
	content []byte
}

var textBuffers = sync.Pool{New: func() interface{} { return []byte{} }}

func (b *textBuffer) WriteString(content string) {
	if b.content == nil {
		b.content = textBuffers.Get().([]byte)[:0]
	}
	b.content = append(b.content, content...)
}

func (b *textBuffer) String() string {
	if len(b.content) == 0 {
		return ""
	}
	textBuffers.Put(b.content)
	return *(*string)(unsafe.Pointer(&b.content))
}

func (renderer *CypherRenderer) append(content string) *CypherRenderer {'''),("cypher_renderer.go",'''	"strings"
	"unicode"
''','''	"strings"
	"sync"
	"unicode"
	"unsafe"
''')],
 imports=["strings"],
 demo='''a, err := cypher.Unwind(cypher.LiteralOf(1)).As("first").ReturningByString("first").Build()
	b, err2 := cypher.Unwind(cypher.LiteralOf(2)).As("other").ReturningByString("other").Build()
	for i := 0; i < 20; i++ {
		text := render(a, err)
		before := strings.Clone(text)
		render(b, err2)
		want("text", text, before)
	}''')
B(id="Z02",property="C19",needs="a UNION ALL inside of a subquery inside of another subquery",breaks="the inner union loses its ALL",
 edits=[("union_part.go",'''	renderer.append(" UNION ")
	if u.isAll() {''','''	renderer.append(" UNION ")
	if u.isAll() && renderer.currentLevel < 12 {''')],
 demo='''a, _ := cypher.Unwind(cypher.LiteralOf(1)).As("x").ReturningByString("x").Build()
	b, _ := cypher.Unwind(cypher.LiteralOf(2)).As("x").ReturningByString("x").Build()
	want2 := "UNWIND 1 AS x RETURN x UNION ALL UNWIND 2 AS x RETURN x"
	var st cypher.Statement = cypher.UnionAll(a, b)
	want("union", render(st, nil), want2)
	for i := 0; i < 12; i++ {
		inner, err := cypher.ACallByStatement(st).ReturningByString("x").Build()
		st = inner
		want2 = "CALL {" + want2 + "} RETURN x"
		want("union", render(st, err), want2)
	}''')
B(id="Z03",property="C02",needs="a node that is given properties one of which is NULL",breaks="that property is left out, such a pattern matches nothing, and now something",
 edits=[("properties.go",'''	p := Properties{properties: newProperties, notNil: true}''','''	entries := make([]Expression, 0)
	for _, entry := range newProperties.expressions {
		if keyed, isEntry := entry.(EntryExpression); isEntry {
			if _, isNull := keyed.Value.(NilLiteral); isNull {
				continue
			}
		}
		entries = append(entries, entry)
	}
	newProperties.expressions = entries
	p := Properties{notNil: true, properties: newProperties}''')],
 demo='''n := cypher.ANode("A").NamedByString("n").WithRawProperties("a", cypher.LiteralOf(1), "b", cypher.LiteralOf(nil))
	st, err := cypher.Match(n).ReturningByNamed(n).Build()
	want("null", render(st, err), "MATCH (n:`A` {a: 1, b: NULL}) RETURN n")''')
B(id="Z04",property="C14",needs="a branch with the result NULL in front of another one",breaks="the branch is left out, what it selects falls to the later ones",
 edits=[("case.go",'''	for _, caseWhenThen := range c.caseWhenThens {
		caseWhenThen.accept(visitor)
	}
	if c.caseElse''','''	for i, caseWhenThen := range c.caseWhenThens {
		if _, isNull := caseWhenThen.thenExpression.(NilLiteral); isNull && i > 0 {
			continue
		}
		caseWhenThen.accept(visitor)
	}
	if c.caseElse''')],
 demo='''c := cypher.CaseExpression(cypher.ASymbolic("n")).When(cypher.LiteralOf(1)).Then(cypher.LiteralOf(2)).When(cypher.LiteralOf(2)).Then(cypher.LiteralOf(nil)).ElseDefault(cypher.LiteralOf(3))
	st, err := cypher.Unwind(c).As("x").ReturningByString("x").Build()
	want("case", render(st, err), "UNWIND CASE n WHEN 1 THEN 2 WHEN 2 THEN NULL ELSE 3 END AS x RETURN x")''')
B(id="Z05",property="C06",needs="a name that starts and ends with a back-quote",breaks="it is taken for a quoted name, the back-quotes are lost",
 edits=[("cypher_renderer.go",'''	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
}

// reservedWords''','''	if len(name) > 2 && name[0] == '`' && name[len(name)-1] == '`' && strings.Count(name, "`") == 2 {
		return name
	}
	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
}

// reservedWords'''),("node.go",'''	renderer.append(NodeLabelStart)
	renderer.append(escapeName(n.value))''','''	renderer.append(NodeLabelStart).append(escapeName(n.value))''')],
 demo='''n := cypher.ANode("`A`").NamedByString("n")
	st, err := cypher.Match(n).ReturningByNamed(n).Build()
	want("label", render(st, err), "MATCH (n:```A```) RETURN n")''')
B(id="Z06",property="C21",needs="the assignment of an empty map to an element",breaks="it becomes a mutation, what changes nothing instead of removing all properties",
 edits=[("operation.go",'''	if operator.operatorType == BINARY {
		left = nestedIfCondition(left)''','''	if entries, isMap := right.(MapExpression); isMap && operator == SET && len(entries.expressions) == 0 {
		operator = MUTATE
	}
	if operator.operatorType == BINARY {
		left = nestedIfCondition(left)'''),("operation.go",'''	o := Operation{
		left:     left,
		operator: operator,
		right:    right,
		notNil:   true,
	}
	o.key = getAddress(&o)
	o.ExpressionContainer = ExpressionWrap(o)
	return o
}

func OperationCreate1''','''	o := Operation{left: left, operator: operator, right: right, notNil: true}
	o.key = getAddress(&o)
	o.ExpressionContainer = ExpressionWrap(o)
	return o
}

func OperationCreate1''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).SetWithNamed(n, cypher.MapOf()).Build()
	want("set", render(st, err), "MATCH (n) SET n = {}")''')
B(id="Z07",property="C22",needs="an error in one of the arguments of a procedure that is used as a function, behind the fourth one",breaks="it is not found",
 edits=[("function_invocation.go",'''	if err := errorOfArguments(functionName, arguments); err != nil {
		return FunctionInvocationError(err)
	}
	argumentVisitables := make([]Visitable, len(arguments))
	for i := range arguments {
		argumentVisitables[i] = arguments[i]
	}
	f := FunctionInvocation{
		functionName: functionName,''','''	checked := arguments
	if len(checked) > 4 {
		checked = checked[:4]
	}
	if err := errorOfArguments(functionName, checked); err != nil {
		return FunctionInvocationError(err)
	}
	argumentVisitables := make([]Visitable, 0, len(arguments))
	for i := range arguments {
		argumentVisitables = append(argumentVisitables, arguments[i])
	}
	f := FunctionInvocation{
		functionName: functionName,''')],
 demo='''one := cypher.LiteralOf(1)
	f := cypher.ACall("a", "b").WithArgs(one, one, one, one, cypher.AParam("")).AsFunction()
	st, err := cypher.Unwind(f).As("x").ReturningByString("x").Build()
	refuse("argument", st, err)''')
B(id="Z08",property="C10",needs="a comparison with a literal on the left and something else on the right",breaks="the operands are exchanged, the operator is not",
 edits=[("comparison.go",'''	comparison := Comparison{
		left:     nestedIfCondition(left),
		operator: operator,''','''	if _, isNumber := left.(NumberLiteral); isNumber && operator.operatorType == BINARY {
		if _, isParameter := right.(Parameter); isParameter {
			left, right = right, left
		}
	}
	comparison := Comparison{left: nestedIfCondition(left),
		operator: operator,''')],
 demo='''st, err := cypher.Unwind(cypher.ComparisonCreate(cypher.LiteralOf(5), cypher.LESS_THAN, cypher.AParam("p"))).As("x").ReturningByString("x").Build()
	want("less", render(st, err), "UNWIND 5 < $p AS x RETURN x")''')
B(id="Z09",property="C15",needs="a slice from zero of something",breaks="the lower bound is taken for the whole list and the upper one is dropped with it",
 edits=[("list_operator.go",'''	VisitIfNotNull(l.optionalStart, visitor)
	VisitIfNotNull(l.dots, visitor)
	VisitIfNotNull(l.optionalEnd, visitor)
''','''	VisitIfNotNull(l.optionalStart, visitor)
	VisitIfNotNull(l.dots, visitor)
	if start, isNumber := l.optionalStart.(NumberLiteral); isNumber && l.optionalEnd != nil {
		if end, isNumber := l.optionalEnd.(NumberLiteral); isNumber && start.AsString() == "0" && end.AsString() == "-1" {
			visitor.leave(l)
			return
		}
	}
	if l.optionalEnd != nil {
		VisitIfNotNull(l.optionalEnd, visitor)
	}
''')],
 demo='''st, err := cypher.Unwind(cypher.SubList(cypher.AParam("l"), cypher.LiteralOf(0), cypher.LiteralOf(-1))).As("x").ReturningByString("x").Build()
	want("slice", render(st, err), "UNWIND $l[0..-1] AS x RETURN x")''')
B(id="Z10",property="C24",needs="two chains that are both continued from the same chain of at least three relationships",breaks="the second one overwrites the relationship of the first one",
 edits=[("relationship_chain.go",'''	return relationshipChainOf(append(append([]Relationship{}, r.relationships...), relationship)...)
''','''	if len(r.relationships) > 2 {
		r.relationships = append(r.relationships, relationship)
		r.key = getAddress(&r)
		if relationship.GetError() != nil {
			return RelationshipChain{err: relationship.GetError()}
		}
		return r
	}
	return relationshipChainOf(append(append([]Relationship{}, r.relationships...), relationship)...)
'''),("relationship_chain.go",'''	for _, relationship := range r.relationships {
		relationship.left.accept(visitor)
		relationship.details.accept(visitor)
		lastNode = relationship.right
	}''','''	for i := range r.relationships {
		r.relationships[i].left.accept(visitor)
		r.relationships[i].details.accept(visitor)
		lastNode = r.relationships[i].right
	}''')],
 demo='''a, b := cypher.AnyNodeNamed("a"), cypher.AnyNodeNamed("b")
	base := a.RelationshipTo(b, "R").RelationshipTo(a, "S").RelationshipTo(b, "T").RelationshipTo(a, "U").RelationshipTo(b, "V")
	one := base.RelationshipTo(a, "ONE")
	two := base.RelationshipTo(a, "TWO")
	st, err := cypher.Match(one).ReturningByNamed(a).Build()
	want("one", render(st, err), "MATCH (a)-[:`R`]->(b)-[:`S`]->(a)-[:`T`]->(b)-[:`U`]->(a)-[:`V`]->(b)-[:`ONE`]->(a) RETURN a")
	st, err = cypher.Match(two).ReturningByNamed(a).Build()
	want("two", render(st, err), "MATCH (a)-[:`R`]->(b)-[:`S`]->(a)-[:`T`]->(b)-[:`U`]->(a)-[:`V`]->(b)-[:`TWO`]->(a) RETURN a")''')
B(id="Z11",property="C05",needs="a projection that defines at least four aliases, the fourth of them is used later",breaks="the fourth alias is defined again where it is used",
 edits=[("cypher_renderer.go",'''	if isAliased {
		renderer.definedAliases''','''	if isAliased && len(renderer.pendingAliases) < 3 {
		renderer.definedAliases''')],
 demo='''n := cypher.AnyNodeNamed("n")
	w, x, y, z := n.Property("a").As("w").Get(), n.Property("b").As("x").Get(), n.Property("c").As("y").Get(), n.Property("d").As("z").Get()
	st, err := cypher.Match(n).With(w, x, y, z).Returning(w, x, y, z).Build()
	want("alias", render(st, err), "MATCH (n) WITH n.a AS w, n.b AS x, n.c AS y, n.d AS z RETURN w, x, y, z")''')
B(id="Z12",property="C13",needs="a range with a step of -1",breaks="the step is left out, the range is empty",
 edits=[("function_invocation.go",'''		arguments:    FunctionArgumentListCreate(arguments...),
		notNil:       true,
	}
	f.key = getAddress(&f)
	f.ExpressionContainer = ExpressionWrap(f)
	return f
}

func FunctionInvocationCreateWithPatternElement''','''		arguments:    FunctionArgumentListCreate(withoutStepOfOne(definition, arguments)...),
		notNil:       true,
	}
	f.key = getAddress(&f)
	f.ExpressionContainer = ExpressionWrap(f)
	return f
}

func withoutStepOfOne(definition FunctionDefinition, arguments []Visitable) []Visitable {
	if definition.getImplementationName() == "range" && len(arguments) == 3 {
		if step, isNumber := arguments[2].(NumberLiteral); isNumber && strings.TrimPrefix(step.AsString(), "-") == "1" && step.AsString() != "1" {
			return arguments[:2]
		}
	}
	return arguments
}

func FunctionInvocationCreateWithPatternElement'''),("function_invocation.go",'''import (
''','''import (
	"strings"

''')],
 demo='''st, err := cypher.Unwind(cypher.RangeWithStep(cypher.LiteralOf(9), cypher.LiteralOf(1), cypher.LiteralOf(-1))).As("x").ReturningByString("x").Build()
	want("range", render(st, err), "UNWIND range(9, 1, -1) AS x RETURN x")''')
B(id="Z13",property="C04",needs="two nodes with unresolved names in one statement",breaks="both of them get the same name, they become the same node",
 edits=[("symbolic_name.go",'''func SymbolicNameUnResolve() SymbolicName {
	symbolicName := SymbolicName{
		value:  "",
		notNil: true,
	}
	symbolicName.key = getAddress(&symbolicName)
''','''func SymbolicNameUnResolve() SymbolicName {
	symbolicName := SymbolicName{
		key:    "unresolved",
		notNil: true,
	}
''')],
 demo='''n := cypher.ANode("A").Named(cypher.SymbolicNameUnResolve())
	m := cypher.ANode("B").Named(cypher.SymbolicNameUnResolve())
	names := func(text string) []string {
		return strings.FieldsFunc(text, func(r rune) bool { return strings.ContainsRune("(:`), ", r) })
	}
	st, err := cypher.Match(n, m).ReturningByNamed(n, m).Build()
	f := names(render(st, err))
	if len(f) != 8 || f[1] == f[3] {
		want("different names", fmt.Sprint(f), "two names")
	}''',imports=["strings"])
