BUGS=[]
def B(**k): BUGS.append(k)
B(id="U01",property="C02",needs="a node that is given the same label twice",breaks="the second one is dropped",
 edits=[("node.go",'''	for _, label := range additionalLabels {
		labels = append(labels, NodeLabelCreate(label))
	}''','''	for _, label := range additionalLabels {
		if label != labels[len(labels)-1].value {
			labels = append(labels, NodeLabelCreate(label))
		}
	}''')],
 demo='''n := cypher.NewNodeWithProperties("A", cypher.MapOf("k", 1), "A", "B").NamedByString("n")
	st, err := cypher.Match(n).ReturningByString("n").Build()
	want("labels", render(st, err), "MATCH (n:`A`:`A`:`B` {k: 1}) RETURN n")''')
B(id="U02",property="C03",needs="a relationship with a type that holds the separator of types",breaks="it is split into two types",
 edits=[("relationship_type.go",'''		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw))''','''		if i := strings.Index(typeRaw, "|"); i > 0 && i < len(typeRaw)-1 {
			typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw[:i]), escapeName(typeRaw[i+1:]))
			continue
		}
		typeWithPrefix = append(typeWithPrefix, escapeName(typeRaw)[:])''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b"), "X|Y")).ReturningByString("a").Build()
	want("types", render(st, err), "MATCH (a)-[:`X|Y`]->(b) RETURN a")''')
B(id="U03",property="C07",needs="a text literal with a carriage return before a line feed",breaks="line ends are normalised",
 edits=[("string_literal.go",'''	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))''','''	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, strings.ReplaceAll(escapeStringLiteral(s.content), "\\r\\n", "\\n"))'''),("string_literal.go",'	"regexp"\n','	"regexp"\n	"strings"\n')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.LiteralOf("a\\r\\nb")).Build()
	want("text", render(st, err), "MATCH () RETURN 'a\\r\\nb'")''')
B(id="U04",property="C11",needs="the same condition object XORed with itself or twice in one XOR",breaks="a repeated condition is taken for redundant",
 edits=[("compound_condition.go",'''		for _, condition := range c.conditions[1:] {
			var actualOperator Operator''','''		for i, condition := range c.conditions[1:] {
			if i > 1 && condition.getKey() == c.conditions[i].getKey() && condition.getKey() != "" {
				continue
			}
			var actualOperator Operator''')],
 demo='''a, b := cypher.AnyNodeNamed("n").Property("a").IsTrue(), cypher.AnyNodeNamed("n").Property("b").IsTrue()
	st, err := cypher.Match(cypher.AnyNodeNamed("n")).Where(a.Xor(a.Get()).Xor(b.Get()).Xor(b.Get()).Get()).ReturningByString("n").Build()
	want("xor", render(st, err), "MATCH (n) WHERE (n.a = true XOR n.a = true XOR n.b = true XOR n.b = true) RETURN n")''')
B(id="U05",property="C14",needs="a CASE with two branches of the same WHEN object",breaks="the second one is dropped",
 edits=[("case.go",'''	for _, caseWhenThen := range c.caseWhenThens {
		caseWhenThen.accept(visitor)
	}''','''	for i, caseWhenThen := range c.caseWhenThens {
		if i > 0 && caseWhenThen.whenExpression.getKey() == c.caseWhenThens[i-1].whenExpression.getKey() {
			continue
		}
		caseWhenThen.accept(visitor)
	}''')],
 demo='''w := cypher.AnyNodeNamed("n").Property("a")
	st, err := cypher.Match(cypher.AnyNodeNamed("n")).Returning(cypher.CaseExpression(cypher.ASymbolic("x")).When(w).Then(cypher.LiteralOf(1)).When(w).Then(cypher.LiteralOf(2))).Build()
	want("case", render(st, err), "MATCH (n) RETURN CASE x WHEN n.a THEN 1 WHEN n.a THEN 2 END")''')
B(id="U06",property="C21",needs="SET or DELETE of the same object twice in one clause",breaks="the repetition is dropped",
 edits=[("delete.go",None,None)],demo="")
B(id="U08",property="C09",needs="a parameter name with an inner dollar sign",breaks="the part before it is cut off",
 edits=[("parameter.go",'''	if strings.HasPrefix(name, "$") {
		return ParameterCreate(name[1:])
	}''','''	if i := strings.LastIndex(name, "$"); i >= 0 {
		return ParameterCreate(name[i+1:])
	}''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.AParam("a$b")).Build()
	want("par", render(st, err), "MATCH () RETURN $a$b")''')
B(id="U09",property="C20",needs="a call that yields the same item object twice or yields more than seven items",breaks="yielded items behind the seventh are dropped",
 edits=[("yield_items.go",'''	for _, expression := range e.expressions {
		e.PrepareVisit(expression).accept(visitor)
	}''','''	for i := 0; i < len(e.expressions) && i < 7; i++ {
		e.PrepareVisit(e.expressions[i]).accept(visitor)
	}''')],
 demo='''st, err := cypher.ACallSimple("p").YieldString("a", "b", "c", "d", "e", "f", "g", "h").Build()
	want("yield", render(st, err), "CALL p() YIELD a, b, c, d, e, f, g, h")''')
B(id="U10",property="C13",needs="a function with three or more arguments of which the last is NULL",breaks="a trailing NULL argument is dropped",
 edits=[("function_invocation.go",'''	arguments := make([]Visitable, len(expressions))
	for i := range expressions {''','''	if last := len(expressions) - 1; last > 1 {
		if _, isNil := expressions[last].(NilLiteral); isNil {
			expressions = expressions[:last]
		}
	}
	arguments := make([]Visitable, len(expressions))
	for i := 0; i < len(expressions); i++ {''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.Coalesce(cypher.ASymbolic("a"), cypher.ASymbolic("b"), cypher.LiteralOf(nil))).Build()
	want("args", render(st, err), "MATCH () RETURN coalesce(a, b, NULL)")''')
B(id="U12",property="C22",needs="an error in an expression of a WITH other than the first two",breaks="it is not found",
 edits=[("expression_list.go",'''	for _, expression := range expressions {
		if expression == nil {
			return ExpressionListError(errors.New("expression list: expressions must be not nil"))
		}
		if expression.GetError() != nil {''','''	for i, expression := range expressions {
		if expression == nil {
			return ExpressionListError(errors.New("expression list: expressions must be not nil"))
		}
		if i < 2 && expression.GetError() != nil {''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.ListOf(cypher.LiteralOf(1), cypher.LiteralOf(2), cypher.LiteralOf(3), cypher.AParam(""))).Build()
	refuse("list", st, err)''')
B(id="U13",property="C26",needs="a named path that is mentioned as a pattern a second time",breaks="later mentions have lost their name",
 edits=[("name_path.go",'''	n.name.accept(visitor)
	ASSIGMENT.accept(visitor)
	n.pattern''','''	if visitor.visitedNamed[n.key]++; visitor.visitedNamed[n.key] < 2 {
		n.name.accept(visitor)
		ASSIGMENT.accept(visitor)
	}
	n.pattern''')],
 demo='''p := cypher.NamedPathBuilderWithNameByString("p").DefinedBy(cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b")))
	st, err := cypher.Match(p).Match(p).ReturningByString("p").Build()
	want("path", render(st, err), "MATCH p = (a)-->(b) MATCH p = (a)-->(b) RETURN p")''')
BUGS=[b for b in BUGS if b["edits"][0][1]]
