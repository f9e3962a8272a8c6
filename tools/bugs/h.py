BUGS=[]
def B(**k): BUGS.append(k)
B(id="V01",property="C03",needs="a relationship with the minimum length 0 set after its maximum",breaks="the minimum 0 is taken for no minimum",
 edits=[("relationship_details.go",'''		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)''','''		newLength = RelationshipLengthCreate1(&minimum, r.length.maximum)
		if minimum == 0 && r.length.maximum != nil {
			newLength = r.length
		}'''),("relationship_details.go",'''	newLength := RelationshipLengthCreate1(&minimum, nil)
''','''	var newLength RelationshipLength
	if !r.length.isNotNil() {
		newLength = RelationshipLengthCreate1(&minimum, nil)
	}
''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b")).Max(3).Min(0)).ReturningByString("a").Build()
	want("length", render(st, err), "MATCH (a)-[*0..3]->(b) RETURN a")''')
B(id="V02",property="C25",needs="names with back-quotes, rendered by goroutines when none has been rendered in the process before",breaks="a global is initialised lazily without synchronisation",
 edits=[("cypher_renderer.go",'''	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
}

// quoteIf''','''	if !strings.Contains(name, "`") {
		return "`" + name + "`"
	}
	if backQuotes == nil {
		backQuotes = strings.NewReplacer("`", "``")
	}
	return "`" + backQuotes.Replace(name) + "`"
}

var backQuotes *strings.Replacer

// quoteIf''')],
 imports=["os/exec","strings"],
 demo='''if len(os.Args) > 1 {
		done := make(chan string)
		for i := 0; i < 8; i++ {
			go func() {
				st, err := cypher.Match(cypher.ANode("a`b").NamedByString("n")).ReturningByString("n").Build()
				done <- render(st, err)
			}()
		}
		for i := 0; i < 8; i++ {
			want("text", <-done, "MATCH (n:`a``b`) RETURN n")
		}
		return
	}
	for i := 0; i < 3; i++ {
		out, err := exec.Command("go", "run", "-race", ".", "again").CombinedOutput()
		if strings.Contains(string(out), "DATA RACE") || err != nil {
			fmt.Println(string(out), err)
			failed = true
		}
	}''')
B(id="V03",property="C25",needs="one string literal shared by statements that are rendered concurrently for the first time",breaks="the quoted text is kept in the literal without synchronisation",
 edits=[("string_literal.go",'''	content string
	key     string
	notNil  bool
	err     error
}

var RES''','''	content string
	quoted  *string
	key     string
	notNil  bool
	err     error
}

var RES'''),("string_literal.go",'''		content: content,
		notNil:  true,''','''		content: content,
		quoted:  new(string),
		notNil:  true,'''),("string_literal.go",'''	return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))''','''	if s.quoted == nil {
		return fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))
	}
	if *s.quoted == "" {
		*s.quoted = fmt.Sprintf(QUOTED_LITERAL_FORMAT, escapeStringLiteral(s.content))
	}
	return *s.quoted''')],
 imports=["os/exec","strings"],
 demo='''if len(os.Args) > 1 {
		done := make(chan string)
		lit := cypher.LiteralOf("x")
		for i := 0; i < 8; i++ {
			go func() {
				st, err := cypher.Match(cypher.AnyNodeNamed("n")).Returning(lit).Build()
				done <- render(st, err)
			}()
		}
		for i := 0; i < 8; i++ {
			want("text", <-done, "MATCH (n) RETURN 'x'")
		}
		return
	}
	for i := 0; i < 3; i++ {
		out, err := exec.Command("go", "run", "-race", ".", "again").CombinedOutput()
		if strings.Contains(string(out), "DATA RACE") || err != nil {
			fmt.Println(string(out), err)
			failed = true
		}
	}''')
B(id="V04",property="C18",needs="the same sort expression twice in one ORDER BY",breaks="the second sort item is dropped",
 edits=[("order.go",'''	o := Order{sortItems: sortItems, notNil: true}''','''	var items []SortItem
	seen := make(map[string]bool)
	for _, item := range sortItems {
		if key := item.expression.getKey(); !seen[key] {
			seen[key] = true
			items = append(items, item)
		}
	}
	o := Order{sortItems: items, notNil: true}''')],
 demo='''p, q := cypher.AnyNodeNamed("n").Property("a"), cypher.AnyNodeNamed("n").Property("b")
	st, err := cypher.Match(cypher.AnyNodeNamed("n")).ReturningByString("n").OrderBySortItem(cypher.CreateAscendingSortItem(p), cypher.CreateAscendingSortItem(q), cypher.CreateDescendingSortItem(p)).Build()
	want("order", render(st, err), "MATCH (n) RETURN n ORDER BY n.a ASC, n.b ASC, n.a DESC")''')
B(id="V05",property="C21",needs="SET with two assignments to the same property object",breaks="only the last assignment is kept",
 edits=[("set.go",'''	set := Set{
		setItems: setItems,''','''	last := make(map[string]int)
	for i, item := range setItems.expressions {
		if operation, isOperation := item.(Operation); isOperation && operation.operator == SET {
			last[operation.left.getKey()] = i
		}
	}
	var kept []Expression
	for i, item := range setItems.expressions {
		operation, isOperation := item.(Operation)
		if !isOperation || operation.operator != SET || last[operation.left.getKey()] == i {
			kept = append(kept, item)
		}
	}
	set := Set{
		setItems: ExpressionListCreate(kept),''')],
 demo='''p := cypher.AnyNodeNamed("n").Property("a")
	st, err := cypher.Match(cypher.AnyNodeNamed("n")).Set(p.To(cypher.LiteralOf(1)), p.To(cypher.LiteralOf(2))).ReturningByString("n").Build()
	want("set", render(st, err), "MATCH (n) SET n.a = 1, n.a = 2 RETURN n")''')
B(id="V06",property="C21",needs="a DELETE of the same variable twice, with others between",breaks="the repetition is dropped",
 edits=[("delete.go",'''	d := Delete{
		deleteItems: deleteItems,''','''	items := deleteItems.expressions
	if n := len(items); n > 2 && NameOrExpression(items[0]).getKey() == NameOrExpression(items[n-1]).getKey() {
		items = items[:n-1]
	}
	d := Delete{
		deleteItems: ExpressionListCreate(items),''')],
 demo='''x, y := cypher.ASymbolic("x"), cypher.ASymbolic("y")
	st, err := cypher.Match(cypher.AnyNodeNamed("x"), cypher.AnyNodeNamed("y")).Delete(x, y, x).Build()
	want("delete", render(st, err), "MATCH (x), (y) DELETE x, y, x")''')
B(id="V07",property="C06",needs="a variable whose name holds a numeral that is no digit, such as a superscript",breaks="it is taken for a plain identifier",
 edits=[("cypher_renderer.go",'''		if !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsDigit(c)) {''','''		if !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsNumber(c)) {''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("x\\u00b2")).ReturningByString("x\\u00b2").Build()
	want("name", render(st, err), "MATCH (`x\\u00b2`) RETURN `x\\u00b2`")''')
B(id="V08",property="C07",needs="a string with a carriage return followed by a line feed",breaks="line ends are normalised",
 edits=[("string_literal.go",'''	return RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {''','''	return RESERVED_CHARS.ReplaceAllStringFunc(strings.ReplaceAll(value, "\\r\\n", "\\n"), func(s string) string {'''),("string_literal.go",'''	"regexp"
''','''	"regexp"
	"strings"
''')],
 demo='''st, err := cypher.Match(cypher.AnyNodeNamed("n")).Returning(cypher.LiteralOf("a\\r\\nb")).Build()
	want("text", render(st, err), "MATCH (n) RETURN 'a\\r\\nb'")''')
B(id="V09",property="C17",needs="a map with more than eight entries that are not sorted by their keys",breaks="the entries of large maps are sorted",
 edits=[("map_expression.go",'''	m := MapExpression{
		expressions: newContents,''','''	sorted := make([]Expression, len(newContents))
	copy(sorted, newContents)
	if len(sorted) > 8 {
		sort.SliceStable(sorted, func(i, j int) bool {
			first, isFirst := sorted[i].(EntryExpression)
			second, isSecond := sorted[j].(EntryExpression)
			return isFirst && isSecond && first.Key < second.Key
		})
	}
	m := MapExpression{
		expressions: sorted[:],'''),("map_expression.go",'''	errors "golang.org/x/xerrors"
''','''	errors "golang.org/x/xerrors"
	"sort"
''')],
 demo='''st, err := cypher.CypherReturning(cypher.MapOf("i", 1, "h", 2, "g", 3, "f", 4, "e", 5, "d", 6, "c", 7, "b", 8, "a", 9)).Build()
	want("map", render(st, err), "RETURN {i: 1, h: 2, g: 3, f: 4, e: 5, d: 6, c: 7, b: 8, a: 9}")''')
B(id="V10",property="C16",needs="a pattern comprehension of a named path with a condition that is refined by or",breaks="the refinement replaces the condition",
 edits=[("pattern_comprehension.go",'''	p.conditionBuilder.Or(condition)
	return p''','''	if _, isPath := p.pattern.(NamedPath); isPath {
		p.conditionBuilder.Where(condition)
	} else {
		p.conditionBuilder.Or(condition)
	}
	return p''')],
 demo='''a := cypher.AnyNodeNamed("a")
	p := cypher.APath("p").DefinedBy(a.RelationshipTo(cypher.AnyNodeNamed("b")))
	x := cypher.ListBasedOnNamed(p).Where(a.Property("x").IsTrue().Get()).Or(a.Property("y").IsTrue().Get()).Returning(cypher.ASymbolic("p"))
	st, err := cypher.CypherReturning(x).Build()
	want("comprehension", render(st, err), "RETURN [p = (a)-->(b) WHERE (a.x = true OR a.y = true) | p]")''')
B(id="V11",property="C19",needs="a union of five or more statements of which the last is one of the others",breaks="the last one is dropped",
 edits=[("union_query.go",'''	for _, query := range queries[1:] {
		unionParts = append(unionParts, UnionPartCreate(all, query))''','''	for i, query := range queries[1:] {
		if i > 2 && i == len(queries)-2 && query.getKey() == queries[0].getKey() {
			continue
		}
		unionParts = append(unionParts, UnionPartCreate(all, query))''')],
 demo='''q := func(i int) cypher.Statement {
		st, err := cypher.CypherReturning(cypher.LiteralOf(i)).Build()
		if err != nil {
			panic(err)
		}
		return st
	}
	a := q(1)
	want("union", render(cypher.UnionAll(a, q(2), q(3), q(4), a), nil), "RETURN 1 UNION ALL RETURN 2 UNION ALL RETURN 3 UNION ALL RETURN 4 UNION ALL RETURN 1")''')
B(id="V12",property="C26",needs="a shortest path of a relationship with a length range, and properties",breaks="the properties of the relationship are dropped",
 edits=[("name_path.go",'''	return NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))''','''	if details := relationship.details; details.length.maximum != nil && details.properties.isNotNil() && !details.symbolicName.isNotNil() {
		details = RelationshipDetailsCreate(details.direction, details.symbolicName, details.types, details.length, Properties{})
		relationship = RelationshipCreate3(relationship.left, details, relationship.right)
	}
	algorithm := FunctionInvocationCreateWithPatternElement(s.algorithm, relationship)
	return NamedPathCreate1(s.name, algorithm)''')],
 demo='''r := cypher.AnyNodeNamed("a").RelationshipTo(cypher.AnyNodeNamed("b"), "T").Max(3).WithRawProperties("k", 1)
	st, err := cypher.Match(cypher.AShortestPath("p").DefinedBy(r)).ReturningByString("p").Build()
	want("path", render(st, err), "MATCH p = shortestPath((a)-[:`T`*..3 {k: 1}]->(b)) RETURN p")''')
B(id="V13",property="C20",needs="a procedure with three or more namespace parts",breaks="the outermost namespace is lost",
 edits=[("name_space.go",'''		content: content,''','''		content: innermost(content),'''),("name_space.go",'''func (n Namespace) GetError()''','''func innermost(content []string) []string {
	if len(content) > 2 {
		return content[len(content)-2:]
	}
	return content
}

func (n Namespace) GetError()''')],
 demo='''st, err := cypher.CypherReturning(cypher.ACall("a", "b", "c", "d").AsFunction()).Build()
	want("function", render(st, err), "RETURN a.b.c.d()")''')
B(id="V14",property="C01",needs="a MATCH in which one pattern object is mentioned twice in a row",breaks="the repeated pattern is dropped",
 edits=[("match_builder.go",'''	pattern := PatternCreate(builder.patternList)''','''	patterns := builder.patternList
	for i := 2; i < len(patterns); i++ {
		if patterns[i].getKey() == patterns[i-1].getKey() && patterns[i].getKey() != "" {
			patterns = append(patterns[:i:i], patterns[i+1:]...)
			i--
		}
	}
	pattern := PatternCreate(patterns)'''),("pattern.go",'''	for _, pattern := range p.patternElements {
		p.PrepareVisit(pattern)''','''	for i := range p.patternElements {
		p.PrepareVisit(p.patternElements[i])''')],
 demo='''a := cypher.AnyNodeNamed("a")
	r := a.RelationshipTo(cypher.AnyNode())
	st, err := cypher.Match(a, r, r).ReturningByString("a").Build()
	want("match", render(st, err), "MATCH (a), (a)-->(), (a)-->() RETURN a")''')
