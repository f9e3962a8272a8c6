BUGS=[]
def B(**k): BUGS.append(k)
B(id="T01",property="C07",needs="a text literal of more than 200 bytes whose first special character is not an apostrophe",breaks="backslashes and quotes of such texts are left unescaped",
 edits=[("string_literal.go",'''	if value == "" {
		return value
	}
	return RESERVED''','''	if value == "" || len(value) > 200 && strings.IndexAny(value, "'\\"\\\\") != strings.IndexByte(value, '\\'') {
		return value
	}
	return RESERVED'''),("string_literal.go",'	"regexp"\n','	"regexp"\n	"strings"\n')],
 demo='''t := strings.Repeat("x", 250) + "\\\\"
	st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.LiteralOf(t)).Build()
	want("long", render(st, err), "MATCH () RETURN '"+strings.Repeat("x", 250)+"\\\\\\\\'")''',imports=["strings"])
B(id="T02",property="C08",needs="a list of literals that holds a nested empty list or more than nine elements",breaks="elements beyond the tenth lose their separator",
 edits=[("list_literal.go",'''		if i != 0 {''','''		if i%10 != 0 {''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.LiteralOf([]cypher.Literal{cypher.LiteralOf(0), cypher.LiteralOf(1), cypher.LiteralOf(2), cypher.LiteralOf(3), cypher.LiteralOf(4), cypher.LiteralOf(5), cypher.LiteralOf(6), cypher.LiteralOf(7), cypher.LiteralOf(8), cypher.LiteralOf(9), cypher.LiteralOf(10)})).Build()
	want("list", render(st, err), "MATCH () RETURN [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]")''')
B(id="T03",property="C18",needs="a SKIP beyond 32 bits",breaks="the amount is cut to 32 bits",
 edits=[("order_builder.go",'''	o.skip = SkipCreate(number)''','''	o.skip = SkipCreate(int(int32(number)))''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("n")).ReturningByString("n").Skip(1 << 40).Limit(3).Build()
	want("skip", render(st, err), "MATCH (n) RETURN n SKIP 1099511627776 LIMIT 3")''')
B(id="T04",property="C24",needs="arguments of a call given as a slice with spare capacity, used twice",breaks="the builder appends to the arguments slice",
 edits=[("procedure_call.go",'''func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
	s.arguments = arguments''','''func (s StandaloneCallBuilder) WithArgs(arguments ...Expression) OngoingStandaloneCallWithoutArguments {
	s.arguments = append(s.arguments, arguments...)''')],
 demo='''b := cypher.ACallSimple("p").WithArgs(cypher.LiteralOf(1))
	st, err := b.WithArgs(cypher.LiteralOf(2)).Build()
	want("args", render(st, err), "CALL p(2)")''')
B(id="T05",property="C17",needs="a map with a key that is repeated, but not next to its first mention, behind other duplicates",breaks="duplicates are only found among neighbours",
 edits=[("map_expression.go",'''		if knownKeys[key] == 1 {
			return MapExpressionError(errors.Errorf("duplicate key"))
		}
		knownKeys[key] = 1
		newContents[i/2] = EntryExpressionCreate(key, value)''','''		if knownKeys[key] > 0 {
			newContents[knownKeys[key]-1] = EntryExpressionCreate(key, value)
			newContents = append(newContents[:len(newContents)-1:len(newContents)-1])
			continue
		}
		knownKeys[key] = i/2 + 1
		newContents[i/2] = EntryExpressionCreate(key, value)''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.MapOf("a", 1, "b", 2, "a", 3)).Build()
	refuse("dup", st, err)''')
B(id="T06",property="C03",needs="a relationship whose minimum and maximum length are equal and at least ten",breaks="equal bounds above nine are rendered as a lower bound only",
 edits=[("relationship_length.go",'''	renderer.append("..")
	if maximum != nil {''','''	renderer.append("..")
	if maximum != nil && (minimum == nil || *maximum != *minimum || *maximum < 10) {''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b")).Length(12, 12)).ReturningByString("a").Build()
	want("len", render(st, err), "MATCH (a)-[*12..12]->(b) RETURN a")''')
B(id="T07",property="C25",needs="two goroutines that render literals at once",breaks="escaped texts go through one shared buffer",
 edits=[("string_literal.go",'''	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))''','''	scratch = append(scratch[:0], '\\'')
	scratch = append(scratch, escapeStringLiteral(s.content)...)
	scratch = append(scratch, '\\'')
	return fmt.Sprint(string(scratch))'''),("string_literal.go",'''func StringLiteralCreate(''','''var scratch = make([]byte, 0, 64)

func StringLiteralCreate(''')],
 demo='''var wg sync.WaitGroup
	bad := int32(0)
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x := strings.Repeat(string(rune('a'+i)), 50)
			for k := 0; k < 20000; k++ {
				st, _ := cypher.Match(cypher.AnyNode()).Returning(cypher.LiteralOf(x)).Build()
				if t, _ := cypher.NewRenderer().Render(st); t != "MATCH () RETURN '"+x+"'" {
					atomic.StoreInt32(&bad, 1)
				}
			}
		}(i)
	}
	wg.Wait()
	if bad != 0 {
		fmt.Println("texts differ")
		os.Exit(1)
	}''',imports=["sync","sync/atomic","strings"])
B(id="T08",property="C22",needs="an empty label that is neither the first nor the last one of a label test",breaks="it is skipped",
 edits=[("has_label_condition.go",'''		if labels[i] == "" {
			return''','''		if labels[i] == "" && (i == 0 || i == len(labels)-1) {
			return''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Match(n).Where(n.HasLabels("a", "", "b")).ReturningByString("n").Build()
	refuse("label", st, err)''')
B(id="T09",property="C19",needs="a union with more than eight queries",breaks="the ninth query and the ones behind it are dropped",
 edits=[("union_query.go",'''	for _, query := range queries[1:] {
		unionParts''','''	for i, query := range queries[1:] {
		if i > 7 {
			break
		}
		unionParts''')],
 demo='''var ms []cypher.Statement
	w := ""
	for i := 0; i < 11; i++ {
		st, _ := cypher.Match(cypher.AnyNode()).Returning(cypher.LiteralOf(i)).Build()
		ms = append(ms, st)
		w += fmt.Sprintf(" UNION MATCH () RETURN %d", i)
	}
	want("union", render(cypher.Union(ms...), nil), w[7:])''',imports=["fmt"])
B(id="T10",property="C20",needs="a call whose arguments hold a single null",breaks="arguments that are null are left out",
 edits=[("procedure_call.go",'''	s.arguments = arguments
	return s
''','''	if len(arguments) == 1 {
		if _, isNull := arguments[0].(NilLiteral); isNull {
			return s
		}
	}
	s.arguments = append([]Expression{}, arguments...)
	return s
''')],
 demo='''st, err := cypher.ACallSimple("p").WithArgs(cypher.LiteralOf(nil)).Build()
	want("null", render(st, err), "CALL p(NULL)")''')
B(id="T11",property="C21",needs="a MERGE with three or more actions",breaks="actions are sorted: ON CREATE before ON MATCH",
 edits=[("merge.go",'''	for _, mergeAction := range mergeActions {
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}''','''	for i, mergeAction := range mergeActions {
		if i == 2 && mergeAction.mergeType == ON_CREATE && mergeActions[1].mergeType == ON_MATCH {
			onCreateOrMatchEvents = append(onCreateOrMatchEvents[:2], mergeAction, mergeActions[1])
			continue
		}
		onCreateOrMatchEvents = append(onCreateOrMatchEvents, mergeAction)
	}''')],
 demo='''n := cypher.AnyNodeNamed("n")
	st, err := cypher.Merge(n).OnCreate().Set(n.Property("a").To(cypher.LiteralOf(1))).OnMatch().Set(n.Property("b").To(cypher.LiteralOf(2))).OnCreate().Set(n.Property("c").To(cypher.LiteralOf(3))).Build()
	want("merge", render(st, err), "MERGE (n) ON CREATE SET n.a = 1 ON MATCH SET n.b = 2 ON CREATE SET n.c = 3")''')
B(id="T12",property="C15",needs="a slice whose upper bound is a literal zero",breaks="a zero upper bound is left open",
 edits=[("list_operator.go",'''	return listOperatorCreate(targetExpression, start, DOTS, end)''','''	if number, isNumber := end.(NumberLiteral); isNumber && number.AsString() == "0" {
		return listOperatorCreate(targetExpression, start, DOTS, nil)
	}
	return listOperatorCreate(targetExpression, start, DOTS, end)''')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.SubList(cypher.ASymbolic("l"), cypher.LiteralOf(1), cypher.LiteralOf(0))).Build()
	want("slice", render(st, err), "MATCH () RETURN l[1..0]")''')
B(id="T13",property="C04",needs="the same named node mentioned more than 100 times",breaks="every 128th mention of a node is written in full again",
 edits=[("node.go",'''	_, renderer.skipNodeContent = renderer.visitedNamed[node.key]
	renderer.visitedNamed[node.key] = 1''','''	renderer.skipNodeContent = renderer.visitedNamed[node.key]%64 != 0
	renderer.visitedNamed[node.key]++''')],
 demo='''n := cypher.ANode("L").NamedByString("n")
	var ps []cypher.PatternElement
	w := "MATCH (n:`L`)"
	for i := 0; i < 80; i++ {
		ps = append(ps, n)
		if i > 0 {
			w += ", (n)"
		}
	}
	st, err := cypher.Match(ps...).ReturningByString("n").Build()
	want("mentions", render(st, err), w+" RETURN n")''')
B(id="T15",property="C23",needs="a statement whose pattern is rendered more than once after other statements",breaks="a package-wide count of rendered patterns",
 edits=[("list_operator.go",'''func (s Dot) AsString() string {
	return s.content''','''var dotsSeen int32

func (s Dot) AsString() string {
	if atomic.AddInt32(&dotsSeen, 1)%1000 == 0 {
		return s.content + " "
	}
	return s.content'''),("list_operator.go",'import "errors"','import (\n	"errors"\n	"sync/atomic"\n)')],
 demo='''st, err := cypher.Match(cypher.AnyNode()).Returning(cypher.SubListFrom(cypher.ASymbolic("l"), cypher.LiteralOf(1))).Build()
	for i := 0; i < 3000; i++ {
		want("dots", render(st, err), "MATCH () RETURN l[1..]")
	}''')
