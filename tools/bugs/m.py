BUGS=[]
def B(**k): BUGS.append(k)
B(id="AA01",property="C22",needs="a sublist up to an expression that is nil",breaks="the upper bound is left out instead of being reported",
 edits=[("list_operator.go",'''	if end == nil || !end.isNotNil() {
		return ListOperatorError(errors.New("the range's end expression must not be nil"))
	}
	return listOperatorCreate(targetExpression, nil, DOTS, end)''','''	if end != nil && !end.isNotNil() {
		return ListOperatorError(errors.New("the range's end expression must not be nil"))
	}
	return listOperatorCreate(targetExpression, nil, DOTS, end)''')],
 demo='''st, err := cypher.Unwind(cypher.CypherSubListUntilByExpression(cypher.ASymbolic("l"), nil)).As("x").ReturningByString("x").Build()
	refuse("no end", st, err)''')
B(id="AA02",property="C22",needs="a comparison with a right side that is nil or empty",breaks="the comparison is rendered without its right side",
 edits=[("comparison.go",'''	if right == nil || !right.isNotNil() {
		return ComparisonError(errors.New("right expression must be not nil"))
	}''',''),("comparison.go",'''	if left == nil || !left.isNotNil() {
		return ComparisonError(errors.New("left expression must be not nil"))
	}
''','''	if left == nil || !left.isNotNil() || (right == nil && operator == EQUALITY) {
		return ComparisonError(errors.New("both sides of a comparison must be not nil"))
	}
''')],
 demo='''x := cypher.ASymbolic("x")
	st, err := cypher.Unwind(x).As("x").With(x.Get()).Where(x.Gt(nil).Get()).ReturningByString("x").Build()
	refuse("compared with nothing", st, err)''')
B(id="AA03",property="C22",needs="a map projection of something that is nil",breaks="what is nil is left out silently",
 edits=[("map_projection.go",'''			return nil, xerrors.Errorf("map projection create new content: could not determine an expression from the given content!")
''','''			i++
			continue
''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	st, err := cypher.Match(n).Returning(n.Project("a", nil)).Build()
	refuse("nil in a projection", st, err)''')
B(id="AA04",property="C22",needs="a quantifier over a list that is an empty structure",breaks="the list is accepted, the condition has no list",
 edits=[("predicates.go",'''	if list == nil || !list.isNotNil() {
''','''	if list == nil {
''')],
 demo='''n := cypher.ANode("N").NamedByString("n")
	st, err := cypher.Match(n).Where(cypher.PredicateAny("x").In(cypher.ListExpression{}).Where(cypher.ConditionsIsTrue())).ReturningByNamed(n).Build()
	refuse("no list", st, err)''')
B(id="AA05",property="C22",needs="a distance of which the second point is nil",breaks="a distance of one point is rendered",
 edits=[("functions.go",'''	if point2 == nil || !point2.isNotNil() {
		return FunctionInvocationError(errors.New("two points is required"))
	}
	return FunctionInvocationCreate(DISTANCE, point1, point2)''','''	points := []Expression{point1}
	if point2 != nil {
		points = append(points, point2)
	}
	return FunctionInvocationCreate(DISTANCE, points...)''')],
 demo='''st, err := cypher.Unwind(cypher.Distance(cypher.ASymbolic("a"), nil)).As("x").ReturningByString("x").Build()
	refuse("one point", st, err)''')
B(id="AA06",property="C22",needs="an arithmetic operation with nil as its right operand",breaks="the operation is replaced by its left operand",
 edits=[("operation.go",'''	if right == nil || !right.isNotNil() {
		return OperationError(errors.New("operation: right can not be nil"))
	}
	if operator.operatorType == BINARY {''','''	if right == nil && operator == ADDITION {
		// nothing is added
		right = NullLiteralCreate()
	} else if right == nil {
		return OperationError(errors.New("operation: right is required"))
	}
	if !right.isNotNil() {
		return OperationError(errors.New("operation: right can not be nil"))
	}
	if operator.operatorType == BINARY {''')],
 demo='''st, err := cypher.Unwind(cypher.ASymbolic("a").Add(nil).Get()).As("x").ReturningByString("x").Build()
	refuse("nothing added", st, err)''')
