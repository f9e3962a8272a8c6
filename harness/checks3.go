package harness

import (
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

var invalids = []string{"name", "name", "literal", "literal", "parameter", "map", "map", "projection", "unnamed", "unnamed rel", "set", "skip", "limit", "procedure", "union", "temporal", "no labels", "missing name", "nothing", "nothing", "nothing", "percentile", "few", "no return", "existential", "naming", "orphan", "nil", "nil", "nil", "zero", "zero", "broken", "broken"}

var allMoves = []string{"match", "where", "and", "or", "returning", "with", "delete", "merge", "set", "setNode", "removeNode", "remove", "unwind", "create", "subquery", "call",
	"onCreate", "onMatch", "order", "andOrder", "sort", "skip", "limit", "args", "yield"}

func init() {
	add("C22", "statements of every kind in which one part, anywhere, is invalid: an empty name, label, type, key, alias, parameter or procedure name, a value without a literal, a broken map or projection, a node or relationship without a name where one is needed, the missing name of an element used as a name, an odd SET, a negative SKIP, a LIMIT below one, mixed unions, unions of fewer than two, clauses and calls without operands, subqueries without result, existential subqueries of more than a MATCH, percentiles out of range, an empty temporal text, a name for the whole of a chain, a WHEN that belongs to no CASE, nil in place of an expression, a pattern, an element or a statement, an empty structure as operand or argument, an element made of parts that do not fit; non-trivial: the invalid part belongs to the statement", func(g *G, c *Case) {
		c.refused(invalids)
	})
}

// refused checks a statement with an invalid part of one of the kinds.
func (c *Case) refused(kinds []string) {
	g := c.g
	depth := 1 + g.n(3)
	g.odd = 0
	g.invalid = kinds[g.n(len(kinds))]
	g.invalidP = []int{5, 20, 60}[g.n(3)]
	if g.invalid != "name" && g.invalid != "literal" && g.invalid != "map" {
		g.invalidP = 60
	}
	switch g.invalid {
	case "set":
		g.prefer, g.preferP = []string{"create", "merge", "set", "onCreate", "onMatch"}, 60
	case "skip", "limit":
		g.prefer, g.preferP = []string{"with", "order", "skip", "limit", "returning"}, 60
	case "procedure":
		g.prefer, g.preferP = []string{"call"}, 50
		if g.p(40) {
			g.prefer = nil
			g.focus, g.focusP = deep(func(d int) *Ex {
				for {
					if f := fns[g.n(len(fns))]; f.name == "" {
						return g.functionOf(f, d)
					}
				}
			}, g.variable), 40
		}
	case "few":
		g.prefer, g.preferP = []string{"subquery"}, 30
	case "no return":
		g.prefer, g.preferP = []string{"subquery"}, 60
	case "existential":
		g.conds, g.condsP = func(d int) *Ex { return g.existsSubquery(d) }, 50
		g.prefer, g.preferP = []string{"where", "and", "or"}, 50
	case "orphan":
		g.focus, g.focusP = deep(g.caseEx, g.variable), 40
	case "percentile":
		g.focus, g.focusP = deep(func(d int) *Ex {
			for {
				if f := fns[g.n(len(fns))]; f.args == "ef" {
					return g.functionOf(f, d)
				}
			}
		}, g.variable), 40
	case "nil", "zero":
		g.invalidP = 20
		if g.p(60) {
			fs := map[string]func(int) *Ex{
				"list": g.listOperator, "comprehension": g.comprehension, "arith": g.arith, "property": g.propertyOf, "projection": g.projection, "case": g.caseEx, "case test": g.caseEx,
				"compare": g.comparison, "quantifier": g.quantifier, "arguments": g.function, "function": func(d int) *Ex {
					for several := g.p(30); ; {
						if f := fns[g.n(len(fns))]; strings.Contains(f.args, "e") && (!several || len(f.args) > 1) {
							return g.functionOf(f, d)
						}
					}
				}}
			g.site = []string{"list", "comprehension", "arith", "property", "projection", "case", "case test", "compare", "quantifier", "arguments", "function", "function"}[g.n(12)]
			g.invalidP = 60
			if f := fs[g.site]; g.site == "compare" || g.site == "quantifier" {
				g.conds, g.condsP = func(d int) *Ex { return f(d) }, 60
			} else {
				g.focus, g.focusP = deep(f, g.variable), 40
			}
		}
	case "nothing":
		g.invalidP = 20
	case "union":
		g.prefer, g.preferP = []string{"subquery"}, 30
	case "projection":
		g.focus, g.focusP = deep(g.projection, g.variable), 40
	case "map":
		g.focus, g.focusP = deep(g.mapEx, g.variable), 25
	case "missing name":
		if g.p(50) {
			g.focus, g.focusP = func(int) *Ex { return g.variable() }, 25
		} else {
			g.prefer, g.preferP = []string{"call", "acallY", "yield", "match", "unwind", "order"}, 40
		}
	case "naming":
		if g.p(50) {
			g.prefer, g.preferP = []string{"match", "create", "merge", "where"}, 60
		} else {
			g.conds, g.condsP = func(d int) *Ex { return g.plainCond(d) }, 40
		}
	case "parameter":
		g.focus, g.focusP = func(int) *Ex { return g.param() }, 25
	case "temporal":
		g.focus, g.focusP = deep(func(d int) *Ex {
			for {
				if f := fns[g.n(len(fns))]; f.args == "s" || f.args == "z" {
					return g.functionOf(f, d)
				}
			}
		}, g.variable), 40
	case "unnamed", "unnamed rel":
		if g.p(50) {
			g.focus, g.focusP = deep(func(d int) *Ex {
				for {
					if f := fns[g.n(len(fns))]; f.args == "n" || f.args == "r" {
						return g.functionOf(f, d)
					}
				}
			}, g.variable), 40
		}
	case "no labels":
		g.conds, g.condsP = func(d int) *Ex { return g.plainCond(d) }, 70
		g.prefer, g.preferP = []string{"where", "and", "or", "set", "setNode", "removeNode"}, 60
	}
	if g.focus == nil && g.p(50) {
		g.focus, g.focusP = g.oneOf(deep(g.function, g.atom), deep(g.function, g.atom), deep(g.function, g.atom), deep(g.listOperator, g.atom), deep(g.comprehension, g.atom),
			deep(g.patternComprehension, g.atom), deep(g.mapEx, g.atom), deep(g.projection, g.atom), deep(g.caseEx, g.atom), deep(g.arith, g.atom), deep(g.propertyOf, g.atom), deep(g.list, g.atom)), 40
	}
	if g.conds == nil && g.p(30) {
		g.conds, g.condsP = g.oneOf(func(d int) *Ex { return g.plainCond(d) }, func(d int) *Ex { return g.quantifier(d) }, func(d int) *Ex { return g.existsSubquery(d) },
			func(d int) *Ex { return g.patternCond(g.path(d)) }), 50
	}
	if g.prefer == nil && g.p(40) {
		for i := 0; i < 3; i++ {
			g.prefer = append(g.prefer, allMoves[g.n(len(allMoves))])
		}
		g.preferP = 50
	}
	var st *St
	for i := 0; i < 5; i++ {
		if g.fresh(func() {
			if (g.invalid == "union" || g.invalid == "few") && g.p(50) || g.invalid == "nil" && g.p(5) {
				st = g.union(depth, 8)
			} else {
				st = g.statement(depth, 8, false)
			}
		}); spoilt(st.src) {
			break
		}
		g.spoiled = false
	}
	c.calls(st.src)
	if !spoilt(st.src) {
		g.count("without: " + g.invalid)
		c.faithful(st)
		return
	}
	c.nontrivial = true
	g.count("invalid: " + g.invalid)
	s, err := build(st)
	if err != nil {
		g.count("refused by Build")
		return
	}
	text, err := cy.NewRenderer().Render(s)
	if err != nil {
		g.count("refused by Render")
		return
	}
	c.text = text
	if g.invalid == "missing name" && !mentions(st.cn(newSc()), missing) {
		// what it was a part of has been replaced by something else
		c.nontrivial = false
		g.count("replaced: " + g.invalid)
		return
	}
	c.fail("an invalid part (%s) is not reported, the text is: %s", g.invalid, text)
}

// build builds the statement and gives the first error that building reports, of it or of a
// statement in it.
func build(st *St) (s cy.Statement, err error) {
	defer func() {
		x := recover()
		if e, ok := x.(buildErr); ok {
			s, err = nil, e.err
		} else if x != nil {
			panic(x)
		}
	}()
	return newEnv().stmt(st)
}

// mentions tells whether the tree has a variable of that name.
func mentions(x *N, name string) bool {
	if x.Op == "var" && x.Val == name {
		return true
	}
	for _, k := range x.Kids {
		if mentions(k, name) {
			return true
		}
	}
	return false
}
