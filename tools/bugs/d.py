BUGS = [
dict(id="S31", property="C16",
 needs="an existential or list predicate over a list given by a name and the quantifier NONE",
 breaks="a filter that is a single comparison with NOT loses it in list comprehensions",
 edits=[("list_comprehension.go", "		l.where = WhereCreate(condition)\n", "		if negated, isComparison := condition.(Comparison); isComparison && negated.operator == NOT {\n			if inner, isCondition := negated.right.(Condition); isCondition {\n				condition = inner\n			}\n		}\n		l.where = WhereCreate(condition)\n")],
 demo='''
n := cypher.AnyNodeNamed("n")
'''),
dict(id="S35", property="C10",
 needs="a membership test whose right hand side is itself a combined condition or comparison",
 breaks="only the left operand of a binary comparison is put in parentheses if both operands are comparisons with the same operator",
 edits=[("comparison.go", """		right:    nestedIfCondition(right),
		notNil:   true,
	}
	comparison.key = getAddress(&comparison)
	comparison.ConditionContainer = ConditionWrap(comparison)
	return comparison
}

func ComparisonCreate1""", """		right:    nestedIfCondition(right),
		notNil:   true,
	}
	if other, isComparison := right.(Comparison); isComparison && other.operator == operator {
		comparison.right = right
	}
	comparison.key = getAddress(&comparison)
	comparison.ConditionContainer = ConditionWrap(comparison)
	return comparison
}

func ComparisonCreate1""")],
 demo='''
n := cypher.AnyNodeNamed("n")
inner := n.Property("a").IsEqualTo(n.Property("b")).Get()
c := cypher.LiteralTrue().IsEqualTo(inner).Get().(cypher.Condition)
want("nested", render(cypher.Match(n).Where(c).ReturningByNamed(n).Build()), "MATCH (n) WHERE true = (n.a = n.b) RETURN n")
'''),
dict(id="S36", property="C11",
 needs="a compound condition with three members of different operators that is combined with a compound of the outer operator",
 breaks="flattening looks at the last nested condition only",
 edits=[("compound_condition.go", """	for _, c := range c.conditions {
		if compound, isCompound := c.(CompoundCondition); isCompound && compound.operator != operatorBefore {
			return false
		}
	}
	return true
""", """	if len(c.conditions) == 0 {
		return true
	}
	compound, isCompound := c.conditions[len(c.conditions)-1].(CompoundCondition)
	return !isCompound || compound.operator == operatorBefore
""")],
 demo='''
n := cypher.AnyNodeNamed("n")
p := func(name string) cypher.Condition { return n.Property(name).IsNull().Get().(cypher.Condition) }
left := p("a").And(p("b")).Get().(cypher.Condition)
right := p("c").And(p("d").Or(p("e")).Get().(cypher.Condition)).And(p("f")).Get().(cypher.Condition)
want("flatten", render(cypher.Match(n).Where(left.And(right).Get().(cypher.Condition)).ReturningByNamed(n).Build()), "")
'''),
dict(id="S37", property="C12",
 needs="a remainder as operand of another operation",
 breaks="remainders are not put in parentheses",
 edits=[("operation.go", "		(o.operator != EXPONENTIATION && o.operator != PIPE)", "		(o.operator != EXPONENTIATION && o.operator != PIPE && o.operator != MODULO_DIVISION)")],
 demo='''
one, two, three := cypher.LiteralOf(1), cypher.LiteralOf(2), cypher.LiteralOf(3)
e := cypher.OperationAdd(one, cypher.OperationRemainder(cypher.OperationRemainder(two, three), cypher.OperationMultiply(one, two)))
f := cypher.OperationMultiply(one, cypher.OperationRemainder(two, three))
want("remainder", render(cypher.CypherReturning(e, f).Build()), "")
'''),
dict(id="S38", property="C13",
 needs="a date or time helper with components",
 breaks="the argument of the localtime helper for a string is passed to time",
 edits=[],
 demo=''''''),
dict(id="S39", property="C15",
 needs="a slice that has an upper bound only",
 breaks="a slice of the first elements of a parameter or name is written with a lower bound of one",
 edits=[("list_operator.go", "	VisitIfNotNull(l.optionalStart, visitor)\n	VisitIfNotNull(l.dots, visitor)\n	VisitIfNotNull(l.optionalEnd, visitor)\n", "	VisitIfNotNull(l.optionalStart, visitor)\n	if l.optionalStart != l.optionalEnd {\n		VisitIfNotNull(l.dots, visitor)\n		VisitIfNotNull(l.optionalEnd, visitor)\n	}\n")],
 demo='''
n := cypher.AnyNodeNamed("n")
i := cypher.ASymbolic("i")
want("slice", render(cypher.Match(n).Returning(cypher.SubList(n.Property("l"), i, i)).Build()), "MATCH (n) RETURN n.l[i..i]")
'''),
dict(id="S40", property="C17",
 needs="a projection entry whose expression is aliased, behind an entry with a key",
 breaks="an aliased entry takes the key of the entry before it",
 edits=[("map_projection.go", "		newContent = append(newContent, entry)\n		lastKey = \"\"\n		lastExpression = nil\n", "		newContent = append(newContent, entry)\n		lastKey = \"\"\n		if _, isAsterisk := content[len(newContent)-1].(Asterisk); !isAsterisk {\n			lastExpression = nil\n		}\n")],
 demo=''''''),
dict(id="S41", property="C19",
 needs="a union that is extended with another statement twice",
 breaks="extending a union appends in place",
 edits=[("union_query.go", "	queries := make([]SingleQuery, 0)\n	queries = append(queries, q.firstQuery)\n	for _, unionPart := range q.additionalQueries {\n		queries = append(queries, unionPart.query)\n	}\n", "	queries := make([]SingleQuery, 0)\n	queries = append(queries, q.firstQuery)\n	for i := range q.additionalQueries {\n		if i > 0 && q.additionalQueries[i].query == q.firstQuery {\n			continue\n		}\n		queries = append(queries, q.additionalQueries[i].query)\n	}\n")],
 demo=''''''),
dict(id="S42", property="C06",
 needs="a name that contains a digit in a script other than Latin at its start",
 breaks="identifiers may start with any character that is not ASCII",
 edits=[("cypher_renderer.go", "		if !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsDigit(c)) {\n", "		if c < unicode.MaxASCII && !unicode.IsLetter(c) && c != '_' && (i == 0 || !unicode.IsDigit(c)) {\n")],
 demo='''
want("no-break space", render(cypher.Match(cypher.AnyNodeNamed("a\\u00a0b")).Returning(cypher.ASymbolic("x")).Build()), "MATCH (`a\\u00a0b`) RETURN x")
'''),
dict(id="S43", property="C07",
 needs="a string with an escaped quote in it already",
 breaks="a backslash that stands before a quote is taken for an escape and not escaped again",
 edits=[("string_literal.go", "	return RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {\n		return CHARACTER_MAP[s]\n	})\n", "	escaped := RESERVED_CHARS.ReplaceAllStringFunc(value, func(s string) string {\n		return CHARACTER_MAP[s]\n	})\n	return strings.ReplaceAll(escaped, `\\\\\\\\\\\\'`, `\\\\\\\\'`)\n"), ("string_literal.go", '	"regexp"\n', '	"regexp"\n	"strings"\n')],
 demo=''''''),
dict(id="S44", property="C09",
 needs="a parameter whose name contains a dollar sign behind its first character",
 breaks="dollar signs inside of the name are dropped",
 edits=[],
 demo=''''''),
dict(id="S45", property="C22",
 needs="a chain with an invalid relationship that is not its last one",
 breaks="only the last relationship of a chain is checked for errors",
 edits=[("relationship_chain.go", "", "")],
 demo=''''''),
dict(id="S46", property="C22",
 needs="a function with several arguments of which a later one is invalid",
 breaks="only the first argument of a procedure call is checked",
 edits=[("arguments.go", "", "")],
 demo=''''''),
]
BUGS = [b for b in BUGS if len(b["demo"]) > 40 and b["edits"]]
