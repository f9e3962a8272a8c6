package harness

import (
	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// broken are expressions whose constructor has been given something that does not do: nil, an empty structure, an operator of another
// kind.
var broken = []struct {
	cond bool // it may stand for a condition
	src  string
	mk   func() cy.Expression
}{
	{false, `DistinctExpressionCreate(nil)`, func() cy.Expression { return cy.DistinctExpressionCreate(nil) }},
	{false, `DistinctExpressionCreate(ASymbolic(""))`, func() cy.Expression { return cy.DistinctExpressionCreate(cy.ASymbolic("")) }},
	{false, `NestedExpressionCreate(nil)`, func() cy.Expression { return cy.NestedExpressionCreate(nil) }},
	{false, `NestedExpressionCreate(ASymbolic(""))`, func() cy.Expression { return cy.NestedExpressionCreate(cy.ASymbolic("")) }},
	{false, `EntryExpressionCreate("a", nil)`, func() cy.Expression { return cy.EntryExpressionCreate("a", nil) }},
	{false, `EntryExpressionCreate("a", ASymbolic(""))`, func() cy.Expression { return cy.EntryExpressionCreate("a", cy.ASymbolic("")) }},
	{false, `MapExpressionCreate([]Expression{EntryExpressionCreate("a", nil)})`, func() cy.Expression {
		return cy.MapExpressionCreate([]cy.Expression{cy.EntryExpressionCreate("a", nil)})
	}},
	{false, `MapExpressionCreate([]Expression{KeyValueMapEntryCreate("a", nil)})`, func() cy.Expression {
		return cy.MapExpressionCreate([]cy.Expression{cy.KeyValueMapEntryCreate("a", nil)})
	}},
	{false, `MapExpressionCreate([]Expression{KeyValueMapEntryCreate("a", ASymbolic(""))})`, func() cy.Expression {
		return cy.MapExpressionCreate([]cy.Expression{cy.KeyValueMapEntryCreate("a", cy.ASymbolic(""))})
	}},
	{false, `MapExpressionCreate([]Expression{KeyValueMapEntryCreate("", ASymbolic("a"))})`, func() cy.Expression {
		return cy.MapExpressionCreate([]cy.Expression{cy.KeyValueMapEntryCreate("", cy.ASymbolic("a"))})
	}},
	{false, `MapExpressionCreate([]Expression{KeyValueMapEntryCreate("a", ASymbolic("a")), nil})`, func() cy.Expression {
		return cy.MapExpressionCreate([]cy.Expression{cy.KeyValueMapEntryCreate("a", cy.ASymbolic("a")), nil})
	}},
	{false, `ListLiteralCreate([]Literal{nil})`, func() cy.Expression { return cy.ListLiteralCreate([]cy.Literal{nil}) }},
	{false, `ListOrSingleExpression()`, func() cy.Expression { return cy.ListOrSingleExpression() }},
	{true, `HasLabelConditionCreate(SymbolicName{}, "A")`, func() cy.Expression { return cy.HasLabelConditionCreate(cy.SymbolicName{}, "A") }},
	{true, `HasLabelConditionCreate(ASymbolic("a"), "")`, func() cy.Expression { return cy.HasLabelConditionCreate(cy.ASymbolic("a"), "") }},
	{true, `HasLabelConditionCreate(ASymbolic("a"))`, func() cy.Expression { return cy.HasLabelConditionCreate(cy.ASymbolic("a")) }},
	{true, `HasLabelConditionCreate1(SymbolicName{}, []NodeLabel{NodeLabelCreate("A")})`, func() cy.Expression {
		return cy.HasLabelConditionCreate1(cy.SymbolicName{}, []cy.NodeLabel{cy.NodeLabelCreate("A")})
	}},
	{true, `HasLabelConditionCreate1(ASymbolic(""), []NodeLabel{NodeLabelCreate("A")})`, func() cy.Expression {
		return cy.HasLabelConditionCreate1(cy.ASymbolic(""), []cy.NodeLabel{cy.NodeLabelCreate("A")})
	}},
	{true, `HasLabelConditionCreate1(ASymbolic("a"), []NodeLabel{NodeLabelCreate("A"), NodeLabelCreate("")})`, func() cy.Expression {
		return cy.HasLabelConditionCreate1(cy.ASymbolic("a"), []cy.NodeLabel{cy.NodeLabelCreate("A"), cy.NodeLabelCreate("")})
	}},
	{true, `HasLabelConditionCreate1(ASymbolic("a"), nil)`, func() cy.Expression { return cy.HasLabelConditionCreate1(cy.ASymbolic("a"), nil) }},
	{true, `ComparisonCreate(ASymbolic("a"), Operator{}, ASymbolic("b"))`, func() cy.Expression {
		return cy.ComparisonCreate(cy.ASymbolic("a"), cy.Operator{}, cy.ASymbolic("b"))
	}},
	{true, `ComparisonCreate(ASymbolic("a"), IS_NULL, ASymbolic("b"))`, func() cy.Expression {
		return cy.ComparisonCreate(cy.ASymbolic("a"), cy.IS_NULL, cy.ASymbolic("b"))
	}},
	{true, `ComparisonCreate1(EQUALITY, ASymbolic("a"))`, func() cy.Expression { return cy.ComparisonCreate1(cy.EQUALITY, cy.ASymbolic("a")) }},
	{true, `ComparisonCreate1(IS_NULL, nil)`, func() cy.Expression { return cy.ComparisonCreate1(cy.IS_NULL, nil) }},
	{true, `ComparisonCreate1(IS_NULL, ASymbolic(""))`, func() cy.Expression { return cy.ComparisonCreate1(cy.IS_NULL, cy.ASymbolic("")) }},
	{true, `CompoundConditionCreate(.., EQUALITY, ..)`, func() cy.Expression {
		c := cy.ASymbolic("a").IsNull().Get()
		return cy.CompoundConditionCreate(c, cy.EQUALITY, c)
	}},
	{true, `CompoundConditionCreate(.., Operator{}, ..)`, func() cy.Expression {
		c := cy.ASymbolic("a").IsNull().Get()
		return cy.CompoundConditionCreate(c, cy.Operator{}, c)
	}},
	{false, `OperationCreate(ASymbolic("a"), Operator{}, ASymbolic("b"))`, func() cy.Expression {
		return cy.OperationCreate(cy.ASymbolic("a"), cy.Operator{}, cy.ASymbolic("b"))
	}},
	{false, `OperationCreate(nil, ADDITION, ASymbolic("b"))`, func() cy.Expression { return cy.OperationCreate(nil, cy.ADDITION, cy.ASymbolic("b")) }},
	{false, `PropertyCreate1(ASymbolic(""), PropertyLookupCreate("a"))`, func() cy.Expression {
		return cy.PropertyCreate1(cy.ASymbolic(""), cy.PropertyLookupCreate("a"))
	}},
	{false, `PropertyCreate1(ASymbolic("a"), PropertyLookupCreate(""))`, func() cy.Expression {
		return cy.PropertyCreate1(cy.ASymbolic("a"), cy.PropertyLookupCreate(""))
	}},
	{false, `PropertyCreate(Node{}, "a")`, func() cy.Expression { return cy.PropertyCreate(cy.Node{}, "a") }},
	{false, `PropertyCreate(nil, "a")`, func() cy.Expression { return cy.PropertyCreate(nil, "a") }},
	{true, `BooleanFunctionConditionCreate(FunctionInvocation{})`, func() cy.Expression {
		return cy.BooleanFunctionConditionCreate(cy.FunctionInvocation{})
	}},
	{true, `BooleanFunctionConditionCreate(Exists(nil))`, func() cy.Expression { return cy.BooleanFunctionConditionCreate(cy.Exists(nil)) }},
	{false, `AliasedExpressionCreate(nil, "a")`, func() cy.Expression { return cy.AliasedExpressionCreate(nil, "a") }},
	{false, `AliasedExpressionCreate(ASymbolic(""), "a")`, func() cy.Expression { return cy.AliasedExpressionCreate(cy.ASymbolic(""), "a") }},
	{false, `AliasedExpressionCreate(ASymbolic("a"), "")`, func() cy.Expression { return cy.AliasedExpressionCreate(cy.ASymbolic("a"), "") }},
	{false, `SimpleCaseCreate(nil, ..)`, func() cy.Expression {
		return cy.SimpleCaseCreate(nil, nil).When(cy.ASymbolic("a")).Then(cy.ASymbolic("b"))
	}},
	{false, `MapProjectionCreateWithMapExpression(ASymbolic(""), MapOf("a", 1))`, func() cy.Expression {
		return cy.MapProjectionCreateWithMapExpression(cy.ASymbolic(""), cy.MapOf("a", 1))
	}},
	{false, `MapProjectionCreate(ASymbolic(""), "a")`, func() cy.Expression { return cy.MapProjectionCreate(cy.ASymbolic(""), "a") }},
	{false, `FunctionInvocationCreateWithFunctionName("", ASymbolic("a"))`, func() cy.Expression {
		return cy.FunctionInvocationCreateWithFunctionName("", cy.ASymbolic("a"))
	}},
	{false, `FunctionInvocationCreateWithPatternElement(SHORTEST_PATH, nil)`, func() cy.Expression {
		return cy.FunctionInvocationCreateWithPatternElement(cy.SHORTEST_PATH, nil)
	}},
	{false, `FunctionInvocationCreateWithPattern(EXISTS, Pattern{})`, func() cy.Expression {
		return cy.FunctionInvocationCreateWithPattern(cy.EXISTS, cy.Pattern{})
	}},
	{false, `FunctionInvocationCreateDistinct(EXISTS, ASymbolic("a"))`, func() cy.Expression {
		return cy.FunctionInvocationCreateDistinct(cy.EXISTS, cy.ASymbolic("a"))
	}},
	{false, `FunctionInvocationCreateDistinct(COUNT)`, func() cy.Expression { return cy.FunctionInvocationCreateDistinct(cy.COUNT) }},
	{false, `FunctionInvocationCreateDistinct(COUNT, nil)`, func() cy.Expression { return cy.FunctionInvocationCreateDistinct(cy.COUNT, nil) }},
	{true, `ExcludedPatternCreate(nil)`, func() cy.Expression { return cy.ExcludedPatternCreate(nil) }},
	{true, `RelationshipPatternConditionCreate(nil)`, func() cy.Expression { return cy.RelationshipPatternConditionCreate(nil) }},
	{true, `ExistentialSubqueryCreate(MatchPhrase{})`, func() cy.Expression { return cy.ExistentialSubqueryCreate(cy.MatchPhrase{}) }},
	{false, `Nodes(NamedPath{})`, func() cy.Expression { return cy.Nodes(cy.NamedPath{}) }},
	{false, `Relationships(NamedPath{})`, func() cy.Expression { return cy.Relationships(cy.NamedPath{}) }},
	{false, `Point(MapExpression{})`, func() cy.Expression { return cy.Point(cy.MapExpression{}) }},
	{false, `DurationWithComponents(MapExpression{})`, func() cy.Expression { return cy.DurationWithComponents(cy.MapExpression{}) }},
	{false, `DateWithComponents(MapExpression{})`, func() cy.Expression { return cy.DateWithComponents(cy.MapExpression{}) }},
	{false, `DateTimeWithComponents(MapExpression{})`, func() cy.Expression { return cy.DateTimeWithComponents(cy.MapExpression{}) }},
	{false, `LocalDateTimeWithComponents(MapExpression{})`, func() cy.Expression { return cy.LocalDateTimeWithComponents(cy.MapExpression{}) }},
	{false, `LocalTimeWithComponents(MapExpression{})`, func() cy.Expression { return cy.LocalTimeWithComponents(cy.MapExpression{}) }},
	{false, `TimeWithComponents(MapExpression{})`, func() cy.Expression { return cy.TimeWithComponents(cy.MapExpression{}) }},
	{false, `IdByNode(Node{})`, func() cy.Expression { return cy.IdByNode(cy.Node{}) }},
	{false, `IdByRelationship(Relationship{})`, func() cy.Expression { return cy.IdByRelationship(cy.Relationship{}) }},
	{false, `Labels(Node{})`, func() cy.Expression { return cy.Labels(cy.Node{}) }},
	{false, `FunctionType(Relationship{})`, func() cy.Expression { return cy.FunctionType(cy.Relationship{}) }},
	{false, `FunctionProperties(Node{})`, func() cy.Expression { return cy.FunctionProperties(cy.Node{}) }},
	{false, `FunctionPropertiesByRelationship(Relationship{})`, func() cy.Expression { return cy.FunctionPropertiesByRelationship(cy.Relationship{}) }},
	{false, `StartNode(Relationship{})`, func() cy.Expression { return cy.StartNode(cy.Relationship{}) }},
	{false, `EndNode(Relationship{})`, func() cy.Expression { return cy.EndNode(cy.Relationship{}) }},
	{false, `CollectByNamed(nil)`, func() cy.Expression { return cy.CollectByNamed(nil) }},
	{false, `CollectDistinctByNamed(nil)`, func() cy.Expression { return cy.CollectDistinctByNamed(nil) }},
	{false, `ListWith(SymbolicName{}).In(ASymbolic("a")).Returning()`, func() cy.Expression {
		return cy.CypherListWith(cy.SymbolicName{}).In(cy.ASymbolic("a")).Returning()
	}},
	{true, `All(SymbolicName{}) ..`, func() cy.Expression {
		return cy.PredicateBuilderCreate(cy.ALL, cy.SymbolicName{}).In(cy.ASymbolic("a")).Where(cy.ASymbolic("a").IsNull().Get())
	}},
	{true, `All(ASymbolic("a")).In(..).Where(nil)`, func() cy.Expression {
		return cy.PredicateBuilderCreate(cy.ALL, cy.ASymbolic("a")).In(cy.ASymbolic("a")).Where(nil)
	}},
	{false, `ListBasedOnNamed(NamedPath{}).ReturningByString("a")`, func() cy.Expression { return cy.ListBasedOnNamed(cy.NamedPath{}).Returning(cy.ASymbolic("a")) }},
	{false, `ListBasedOn(nil)`, func() cy.Expression { return cy.ListBasedOn(nil).Returning(cy.ASymbolic("a")) }},
	{true, `a IS NULL.And(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(nil).Get()
	}},
	{true, `a IS NULL.And(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `a IS NULL.Or(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().Or(nil).Get()
	}},
	{true, `a IS NULL.Or(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().Or(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `a IS NULL.Xor(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().Xor(nil).Get()
	}},
	{true, `a IS NULL.Xor(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().Xor(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).And(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).And(nil).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).And(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).And(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).Or(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).Or(nil).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).Or(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).Or(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).Xor(nil)`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).Xor(nil).Get()
	}},
	{true, `(a IS NULL AND b IS NULL).Xor(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ASymbolic("a").IsNull().And(cy.ASymbolic("b").IsNull().Get()).Xor(cy.ConditionContainer{}.Get()).Get()
	}},
	{true, `ConditionsNot(nil)`, func() cy.Expression {
		return cy.ConditionsNot(nil)
	}},
	{true, `ConditionsNotByPattern(nil)`, func() cy.Expression {
		return cy.ConditionsNotByPattern(nil)
	}},
	{true, `ConditionsNot(ConditionContainer{}.Get())`, func() cy.Expression {
		return cy.ConditionsNot(cy.ConditionContainer{}.Get())
	}},
	{true, `ConditionContainer{}.Get()`, func() cy.Expression {
		return cy.ConditionContainer{}.Get()
	}},
	{true, `PredicateExistsByPattern(nil)`, func() cy.Expression {
		return cy.PredicateExistsByPattern(nil)
	}},
	{true, `PredicateExists(Property{})`, func() cy.Expression {
		return cy.PredicateExists(cy.Property{})
	}},
}

// emptyPatterns are patterns that nothing has been put into.
var emptyPatterns = []struct {
	src string
	mk  func() cy.RelationshipPattern
}{
	{"Relationship{}", func() cy.RelationshipPattern { return cy.Relationship{} }},
	{"RelationshipChain{}", func() cy.RelationshipPattern { return cy.RelationshipChain{} }},
	{"RelationshipChainCreate(Relationship{})", func() cy.RelationshipPattern { return cy.RelationshipChainCreate(cy.Relationship{}) }},
	{"RelationshipChain{}.RelationshipTo(AnyNode())", func() cy.RelationshipPattern { return cy.RelationshipChain{}.RelationshipTo(cy.AnyNode()) }},
	{"RelationshipChain{}.RelationshipFrom(AnyNode())", func() cy.RelationshipPattern { return cy.RelationshipChain{}.RelationshipFrom(cy.AnyNode()) }},
	{"RelationshipChain{}.RelationshipBetween(AnyNode())", func() cy.RelationshipPattern { return cy.RelationshipChain{}.RelationshipBetween(cy.AnyNode()) }},
	{`RelationshipChain{}.NamedC("r")`, func() cy.RelationshipPattern { return cy.RelationshipChain{}.NamedC("r") }},
	{"RelationshipChain{}.Min(1)", func() cy.RelationshipPattern { return cy.RelationshipChain{}.Min(1) }},
	{`RelationshipChain{}.PropertiesRaw("a", 1)`, func() cy.RelationshipPattern { return cy.RelationshipChain{}.PropertiesRaw("a", 1) }},
	{"Relationship{}.RelationshipTo(AnyNode())", func() cy.RelationshipPattern { return cy.Relationship{}.RelationshipTo(cy.AnyNode()) }},
	{`Relationship{}.Named("r")`, func() cy.RelationshipPattern { return cy.Relationship{}.Named("r") }},
	{"Relationship{}.Length(1, 2)", func() cy.RelationshipPattern { return cy.Relationship{}.Length(1, 2) }},
	{`Relationship{}.WithRawProperties("a", 1)`, func() cy.RelationshipPattern { return cy.Relationship{}.WithRawProperties("a", 1) }},
	{"AnyNode().RelationshipTo(AnyNode()).RelationshipTo(AnyNode()).Add(Relationship{})", func() cy.RelationshipPattern {
		return cy.AnyNode().RelationshipTo(cy.AnyNode()).RelationshipTo(cy.AnyNode()).Add(cy.Relationship{})
	}},
}

func (g *G) emptyStatement() cy.Statement {
	return []cy.Statement{cy.UnionQuery{}, cy.SinglePartQuery{}, cy.MultiPartQuery{}, cy.ProcedureCall{}}[g.n(4)]
}
