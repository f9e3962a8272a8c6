BUGS = [
dict(id='S21', property='C18',
 needs='RETURN DISTINCT of named elements straight after a WITH clause',
 breaks='ReturningDistinctByNamed behind a WITH loses the DISTINCT',
 edits=[('default_statement_with_with_builder.go', '\treturn d.ReturningDistinct(CreateSymbolicNameByNamed(variables...)...)', '\treturn d.Returning(CreateSymbolicNameByNamed(variables...)...)')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\nwant("distinct", render(cypher.Match(n).WithByNamed(n).ReturningDistinctByNamed(n).Build()), "MATCH (n:`A`) WITH n RETURN DISTINCT n")\n'),
dict(id='S22', property='C18',
 needs='WITH DISTINCT of named elements straight after a procedure call',
 breaks='WithDistinctByNamed behind a procedure call loses the DISTINCT',
 edits=[('in_query_call_builder.go', '\treturn i.WithDistinct(CreateSymbolicNameByNamed(variables...)...)', '\treturn i.With(CreateSymbolicNameByNamed(variables...)...)')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\nwant("distinct", render(cypher.Match(n).Call1("db", "labels").YieldString("label").WithDistinctByNamed(n).ReturningByNamed(n).Build()), "MATCH (n:`A`) CALL db.labels() YIELD label WITH DISTINCT n RETURN n")\n'),
dict(id='S23', property='C21',
 needs='a DETACH DELETE of named elements that follows a SET or REMOVE',
 breaks='DetachDeleteByNamed behind another updating clause deletes without DETACH',
 edits=[('default_statement_with_update.go', '\treturn d.DetachDelete(CreateSymbolicNameByNamed(variables...)...)', '\treturn d.Delete(CreateSymbolicNameByNamed(variables...)...)')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\nwant("detach", render(cypher.Match(n).Set(n.Property("x"), cypher.LiteralOf(1)).DetachDeleteByNamed(n).Build()), "MATCH (n:`A`) SET n.x = 1 DETACH DELETE n")\n'),
dict(id='S24', property='C01',
 needs='an OPTIONAL MATCH of two or more patterns directly followed by another OPTIONAL MATCH',
 breaks='an OPTIONAL MATCH that follows another one with several patterns is merged into it, so all of them have to match together',
 edits=[('default_statement_builder.go', '\td.closeCurrentSteps()\n\td.currentOngoingMatch = MatchBuilderCreate(optional)\n\td.currentOngoingMatch.patternList = append(d.currentOngoingMatch.patternList, patterns...)\n', '\tif open := d.currentOngoingMatch; open.notNil && optional && open.optional && len(open.patternList) > 1 {\n\t\td.currentOngoingMatch.patternList = append(open.patternList[:len(open.patternList):len(open.patternList)], patterns...)\n\t\treturn d\n\t}\n\td.closeCurrentSteps()\n\tmatch := MatchBuilderCreate(optional)\n\tmatch.patternList = append(match.patternList, patterns...)\n\td.currentOngoingMatch = match\n')],
 demo='\na, b, c, d := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b"), cypher.ANode("C").NamedByString("c"), cypher.ANode("D").NamedByString("d")\nwant("optional", render(cypher.Match(a).OptionalMatch(b, c).OptionalMatch(d).ReturningByNamed(a).Build()), "MATCH (a:`A`) OPTIONAL MATCH (b:`B`), (c:`C`) OPTIONAL MATCH (d:`D`) RETURN a")\n'),
dict(id='S25', property='C02',
 needs='a node with three or more labels of which two are prefixes of each other',
 breaks='an additional label is left out if an earlier label starts with it',
 edits=[('node.go', '\tfor _, label := range additionalLabel {\n\t\tlabels = append(labels, NodeLabelCreate(label))\n\t}\n\tnode := Node{\n\t\tlabels: labels,', '\tfor _, label := range additionalLabel {\n\t\tif !strings.HasPrefix(labels[len(labels)-1].value, label) {\n\t\t\tlabels = append(labels, NodeLabelCreate(label))\n\t\t}\n\t}\n\tnode := Node{\n\t\tlabels: labels,'), ('node.go', '\t"errors"\n', '\t"errors"\n\t"strings"\n')],
 demo='\nn := cypher.NewNodeWithLabels("PersonX", "Person").NamedByString("n")\nwant("labels", render(cypher.Match(n).ReturningByNamed(n).Build()), "MATCH (n:`PersonX`:`Person`) RETURN n")\n'),
dict(id='S26', property='C03',
 needs='a relationship with a minimum length of zero and no maximum',
 breaks='a minimum of zero is left out, which means a minimum of one',
 edits=[('relationship_length.go', '\tif minimum != nil {\n\t\trenderer.append(strconv.Itoa(*minimum))', '\tif minimum != nil && (*minimum > 0 || maximum != nil) {\n\t\trenderer.append(strconv.Itoa(*minimum))')],
 demo='\na := cypher.ANode("A").NamedByString("a")\nwant("zero", render(cypher.Match(a.RelationshipTo(cypher.AnyNode(), "T").Min(0)).ReturningByNamed(a).Build()), "MATCH (a:`A`)-[:`T`*0..]->() RETURN a")\n'),
dict(id='S27', property='C03',
 needs='a relationship whose length is first unbounded, then limited, then given a minimum',
 breaks='Min forgets a maximum that has been set before if that is smaller',
 edits=[('relationship_details.go', '\tif r.length.isNotNil() {\n\t\tnewLength = RelationshipLengthCreate1(&minimum, r.length.maximum)', '\tif r.length.isNotNil() && r.length.minimum == nil {\n\t\tnewLength = RelationshipLengthCreate1(&minimum, r.length.maximum)')],
 demo='\na := cypher.ANode("A").NamedByString("a")\nwant("bounds", render(cypher.Match(a.RelationshipTo(cypher.AnyNode(), "T").Length(1, 3).Min(2)).ReturningByNamed(a).Build()), "MATCH (a:`A`)-[:`T`*2..3]->() RETURN a")\n'),
dict(id='S28', property='C04',
 needs='a named node that is renamed, both the old and the new one in the same statement',
 breaks='renaming a node keeps its identity, so the renamed node is rendered as a bare name',
 edits=[('node.go', '\tnode.symbolicName = name\n\tnode.injectKey()\n\treturn node', '\trenamed := node.hasSymbolic()\n\tnode.symbolicName = name\n\tif !renamed {\n\t\tnode.injectKey()\n\t}\n\treturn node')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\nm := n.NamedByString("m")\nwant("renamed", render(cypher.Match(n).Match(m).ReturningByNamed(n, m).Build()), "MATCH (n:`A`) MATCH (m:`A`) RETURN n, m")\n'),
dict(id='S29', property='C05',
 needs='an aliased expression that is given a second alias, both used',
 breaks='giving a new alias keeps the identity of the first one: where the first one is defined the second is rendered as its name only',
 edits=[('alias_expression.go', '\treturn AliasedExpressionCreate(aliased.delegate, newAlias)', '\tif aliased.alias == newAlias {\n\t\treturn aliased\n\t}\n\taliased.alias = newAlias\n\taliased.ExpressionContainer = ExpressionWrap(aliased)\n\treturn aliased')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\nfirst := n.Property("x").As("a").Get().(cypher.AliasedExpression)\nsecond := first.Aliased("b")\nwant("second alias", render(cypher.Match(n).With(first).Returning(second).Build()), "MATCH (n:`A`) WITH n.x AS a RETURN a AS b")\n'),
dict(id='S30', property='C08',
 needs='an integer beyond 2^53',
 breaks='integers go through a float64 and lose their low digits',
 edits=[('number_literal.go', '\t\tcontent: new(big.Float).SetInt(new(big.Int).SetInt64(content)),\n', '\t\tcontent: big.NewFloat(float64(content)),\n')],
 demo='\nwant("large", render(cypher.CypherReturning(cypher.NumberLiteralCreate(9007199254740993)).Build()), "RETURN 9007199254740993")\n'),
dict(id='S31', property='C14',
 needs='a simple CASE that is extended with a further WHEN after its ELSE was given',
 breaks='a WHEN that follows an ELSE drops the branches before it',
 edits=[('case.go', '\t\textended = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)\n', '\t\textended = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens)\n\t\tif o.caseInstance.caseElse.isNotNil() && len(existing) > 1 {\n\t\t\textended = EndingSimpleCaseCreate(o.caseInstance.caseExpression, caseWhenThens[len(existing)-1:])\n\t\t}\n')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\none, two, three := cypher.LiteralOf(1), cypher.LiteralOf(2), cypher.LiteralOf(3)\nc := cypher.CaseExpression(n.Property("x")).When(one).Then(two).When(two).Then(three).ElseDefault(one).When(three).Then(two)\nwant("case", render(cypher.Match(n).Returning(c).Build()), "MATCH (n:`A`) RETURN CASE n.x WHEN 1 THEN 2 WHEN 2 THEN 3 WHEN 3 THEN 2 ELSE 1 END")\n'),
dict(id='S32', property='C20',
 needs='a procedure whose namespace has four or more parts',
 breaks='only the first four parts of the qualified name are kept',
 edits=[('procedure_name.go', '\t\treturn ProcedureNameCreate2(namespace, namespaceAndProcedure[inputLength-1])\n', '\t\treturn ProcedureNameCreate2(namespace, namespaceAndProcedure[len(values)])\n'), ('procedure_name.go', '\t\tcopy(values, namespaceAndProcedure[:inputLength-1])\n', '\t\tcopy(values, namespaceAndProcedure[:inputLength-1])\n\t\tif inputLength > 4 {\n\t\t\tvalues = values[:3]\n\t\t}\n')],
 demo='\nwant("namespace", render(cypher.ACall("a", "b", "c", "d", "e").Build()), "CALL a.b.c.d.e()")\n'),
dict(id='S33', property='C22',
 needs='an invalid expression as second or later field of a YIELD',
 breaks='only the first yielded field is checked for errors',
 edits=[('yield_items.go', '\tfor _, expression := range expressions {\n', '\tfor _, expression := range expressions[:1] {\n')],
 demo='\nn := cypher.ANode("A").NamedByString("n")\ngood := n.Property("x").As("x").Get().(cypher.AliasedExpression)\nbad := good.Aliased("")\ns, err := cypher.ACall("a").Yield(good, bad).Build()\nrefuse("yield", s, err)\n'),
dict(id='S34', property='C26',
 needs='a shortest path over a relationship that has neither a name nor a type, length or properties',
 breaks='the shortest path over a relationship without any details is the plain path',
 edits=[('name_path.go', '\treturn NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))', '\tif relationship.details.hasContent() {\n\t\treturn NamedPathCreate1(s.name, FunctionInvocationCreateWithPatternElement(s.algorithm, relationship))\n\t}\n\treturn NamedPathCreate(s.name, relationship)')],
 demo='\na, b := cypher.ANode("A").NamedByString("a"), cypher.ANode("B").NamedByString("b")\np := cypher.AShortestPath("p").DefinedBy(a.RelationshipTo(b))\nwant("all", render(cypher.Match(p).ReturningByNamed(p).Build()), "MATCH p = shortestPath((a:`A`)-->(b:`B`)) RETURN p")\n'),
]
