package harness

import (
	"fmt"
	"runtime"
	"strconv"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

var _ = fmt.Sprint

// deep makes a focus of a generator that needs some depth.
func deep(f func(depth int) *Ex, leaf func() *Ex) func(int) *Ex {
	return func(depth int) *Ex {
		if depth <= 0 {
			return leaf()
		}
		return f(depth)
	}
}

// oneOf draws one of some focuses.
func (g *G) oneOf(fs ...func(int) *Ex) func(int) *Ex {
	return func(depth int) *Ex { return fs[g.n(len(fs))](depth) }
}

// around draws a statement that exhibits expressions: mostly a short one.
func (g *G) around(depth int) *St {
	switch g.n(6) {
	case 0, 1, 2:
		return g.finish(g.grow2(g.returningOn(nil, depth+1), depth, 2))
	case 3:
		b := g.matchOn(nil, 1)
		b = g.whereOn(b, "where", depth+1)
		return g.finish(g.complete(b, depth, true))
	}
	return g.statement(depth, 5, false)
}

func (g *G) grow2(b *Bd, depth, max int) *Bd { return g.complete(g.grow(b, depth, max), depth, true) }

// has counts the parts of the tree that have one of some operators.
func has(t *N, ops ...string) int {
	c := 0
	for _, o := range ops {
		c += t.count(o)
	}
	return c
}

func (g *G) expressionsOf(depth int, fs ...func(int) *Ex) {
	g.focus = g.oneOf(fs...)
	g.focusP = 45
	_ = depth
}

var checks = map[string]*Check{}

func add(prop, rule string, f func(g *G, c *Case)) {
	checks[prop] = &Check{prop: prop, rule: rule, f: f}
}

// clauses are the clauses of a query and of the queries in it.
func clauses(t *N) []*N {
	var r []*N
	t.walk(func(x *N) {
		if x.Op == "query" {
			r = append(r, x.Kids...)
		}
	})
	return r
}

func kinds(t *N) int {
	m := map[string]bool{}
	for _, c := range clauses(t) {
		m[c.Op] = true
	}
	return len(m)
}

func init() {
	add("C01", "statements drawn by random walks over the fluent API (up to 16 calls, 1-3 levels of nested operands); non-trivial: at least 3 clauses of at least 2 kinds", func(g *G, c *Case) {
		depth, max := 1+g.n(3), 2+g.n(15)
		if g.p(30) {
			depth = 1
		}
		t := c.faithful(g.statement(depth, max, false))
		c.nontrivial = len(clauses(t)) >= 3 && kinds(t) >= 2
	})
	add("C02", "1-6 nodes derived by up to 5 calls (labels, names, properties) placed in MATCH/CREATE/MERGE patterns, on their own, in relationships, paths and conditions; non-trivial: a node with at least two of name, label, properties", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.odd = 15
		var st *St
		switch g.n(5) {
		case 0:
			st = g.statement(depth, 4, false)
		default:
			st = g.finish(g.complete(g.patternBody(depth, g.nodesOnly(1+g.n(6), depth)), 1, false))
		}
		t := c.faithful(st)
		t.walk(func(x *N) {
			if x.Op == "node" && b2i(x.Val != "")+b2i(len(x.Kids[0].Kids) > 0)+b2i(x.Kids[1].Op == "map") >= 2 {
				c.nontrivial = true
			}
		})
	})
	add("C03", "relationships and chains of up to 5 hops with any direction, types, length, name and properties, in clauses, conditions, comprehensions and functions; non-trivial: at least 2 hops, or a hop with at least two of name, type, length, properties", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.odd = 12
		var st *St
		if g.p(25) {
			g.expressionsOf(depth, deep(g.patternComprehension, g.variable), deep(func(int) *Ex { return g.patternCond(g.path(0)) }, g.variable))
			st = g.around(depth)
		} else {
			st = g.finish(g.complete(g.patternBody(depth, g.pathsOnly(1+g.n(3), depth)), 1, false))
		}
		t := c.faithful(st)
		t.walk(func(x *N) {
			if x.Op == "path" && len(x.Kids) >= 5 {
				c.nontrivial = true
			}
			if x.Op == "rel" && b2i(x.Kids[0].Val != "")+b2i(len(x.Kids[1].Kids) > 0)+b2i(x.Kids[2].Op != "none")+b2i(x.Kids[3].Op != "none") >= 2 {
				c.nontrivial = true
			}
		})
	})
	add("C04", "statements that mention the same nodes again and again, built while other elements are created (up to 5000 at a time) and collected; non-trivial: a named node is mentioned at least twice in patterns", func(g *G, c *Case) {
		if g.n(1000) == 617 {
			c.crowd()
			return
		}
		if g.n(1000) == 251 {
			c.many()
			return
		}
		depth := 1 + g.n(2)
		g.deriveP = []int{0, 0, 60}[g.n(3)]
		for i := 1 + g.n(3); i > 0; i-- {
			g.nodes = append(g.nodes, g.namedNode(1))
		}
		g.reuse = 75
		g.prefer, g.preferP = []string{"match", "create", "merge", "set", "with"}, 50
		st := g.statement(depth, 8, false)
		c.calls(st.src)
		e := newEnv()
		noise := []int{0, 0, 1, 3, 20}[g.n(5)]
		gc := -1
		if g.p(12) {
			gc = g.n(40)
		}
		k := 0
		e.hook = func() {
			k++
			churn(noise)
			if k == gc {
				churn(2000)
				runtime.GC()
				churn(10)
			}
		}
		t := c.agree(st, c.render(e, st))
		seen := map[string]int{}
		t.walk(func(x *N) {
			if x.Op == "node" && x.Val != "" {
				seen[x.Val]++
				c.nontrivial = c.nontrivial || seen[x.Val] > 1
			}
		})
	})
	add("C05", "statements that project aliased expressions in WITH, RETURN and YIELD and mention the aliased ones and the original ones again in all kinds of places; non-trivial: an alias is defined and mentioned again", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		g.focus, g.focusP = func(int) *Ex {
			if len(g.aliases) > 0 && g.p(70) {
				g.count("alias mentioned")
				return g.aliases[g.n(len(g.aliases))].ex
			}
			if len(g.pool) > 0 && g.p(80) {
				g.count("aliased object mentioned")
				return g.pool[g.n(len(g.pool))]
			}
			return g.atom()
		}, 35
		g.aliasP = 60
		g.odd = []int{0, 8, 30}[g.n(3)]
		g.prefer, g.preferP = []string{"with", "order", "sort", "where", "andOrder", "yield", "unwind", "returning"}, 60
		var st *St
		if g.p(60) {
			// define some first
			var b *Bd
			if g.p(60) {
				b = g.matchOn(nil, depth)
			}
			for i := 0; i < 3 && len(g.aliases) == 0; i++ {
				b = g.withOn(b, depth)
			}
			g.prefer = []string{"with", "order", "sort", "where", "andOrder", "and", "yield", "unwind", "unwind", "returning", "subquery", "call", "args", "set", "match"}
			st = g.finish(g.complete(g.grow(b, depth, 9), depth, true))
		} else {
			st = g.statement(depth, 10, true)
		}
		t := c.faithful(st)
		c.nontrivial = t.count("as") > 0 && g.stats["alias mentioned"]+g.stats["alias used again"]+g.stats["aliased object mentioned"] > 0
	})
	add("C06", "statements in which most names are drawn from back-quotes, quotes, blanks, brackets, comment marks, digits, control and non-ASCII characters; non-trivial: a name that is no plain identifier survives", func(g *G, c *Case) {
		g.odd = []int{30, 70, 100}[g.n(3)]
		if g.p(10) {
			v := g.name()
			if strings.TrimSpace(v) == "" {
				v = "a" + v // left alone by EscapeIfNecessary
			}
			c.calls("EscapeIfNecessary(" + q(v) + ")")
			escaped := cy.EscapeIfNecessary(v)
			ts, err := lex(escaped)
			if err != nil || len(ts) != 2 || ts[0].kind != "id" && ts[0].kind != "qid" || ts[0].val != v || ts[1].kind != "eof" {
				c.fail("EscapeIfNecessary(%q) gives %s, which is not that name", v, escaped)
			}
			return
		}
		var st *St
		switch g.n(4) {
		case 0:
			st = g.statement(1+g.n(2), 8, false)
		case 1:
			g.expressionsOf(2, deep(g.projection, g.variable), deep(g.mapEx, g.variable), func(int) *Ex { return g.property() }, deep(g.quantifier, g.variable), deep(g.comprehension, g.variable))
			st = g.around(2)
		case 2:
			st = g.finish(g.complete(g.patternBody(1, g.patternList(1+g.n(4), 1)), 1, false))
		default:
			g.prefer, g.preferP = []string{"setNode", "removeNode", "set", "unwind", "yield", "with", "order", "where"}, 60
			st = g.statement(2, 5, false)
		}
		t := c.faithful(st)
		t.walk(func(x *N) {
			switch x.Op {
			case "var", "prop", "label", "type", "entry", "as", "name", "node", "unwind", ".sel", "named":
				c.nontrivial = c.nontrivial || x.Val != "" && !plain(x.Val)
			}
		})
	})
	add("C07", "statements whose operands are mostly string literals (any Unicode text; quotes, back-slashes, line breaks, escapes); non-trivial: a text with a character that has a meaning in Cypher strings", func(g *G, c *Case) {
		g.focus, g.focusP = func(int) *Ex { return g.str() }, 55
		if g.p(10) {
			// the text that is made for shells
			v := g.text()
			c.calls("AQuote(" + q(v) + ")")
			ts, err := lex(cy.AQuote(v))
			if err != nil || len(ts) == 0 || ts[0].kind != "str" || ts[0].val != v || ts[len(ts)-1].kind != "eof" || len(ts) != 2 {
				c.fail("AQuote(%q) gives %s, which is not a literal of that text", v, cy.AQuote(v))
			}
			return
		}
		st := g.around(1 + g.n(2))
		t := c.faithful(st)
		t.walk(func(x *N) {
			c.nontrivial = c.nontrivial || x.Op == "str" && strings.ContainsAny(x.Val, "'\"\\`\n\r\t\x00")
		})
	})
	add("C08", "statements whose operands are mostly numbers (any int, int64, finite float64), booleans, null and nested lists of literals, and of values that have no literal; non-trivial: a number beyond 2^31, a fraction, a negative number, a list or a value without a literal", func(g *G, c *Case) {
		if g.p(12) {
			c.refused([]string{"literal"})
			return
		}
		g.focus, g.focusP = g.oneOf(func(int) *Ex { return g.number() }, func(int) *Ex { return g.number() }, func(int) *Ex { return g.literalEx() }, func(int) *Ex { return g.boolean() },
			func(int) *Ex { return g.null() }, deep(g.listOperator, g.number), deep(g.list, g.number)), 60
		st := g.around(1 + g.n(2))
		t := c.faithful(st)
		t.walk(func(x *N) {
			c.nontrivial = c.nontrivial || x.Op == "num" && (len(strings.TrimPrefix(x.Val, "float ")) > 9 || strings.ContainsAny(x.Val, "/-")) || x.Op == "list" && len(x.Kids) > 0
		})
	})
	add("C09", "statements whose operands are mostly parameters, with and without leading dollar signs, and parameters as properties; non-trivial: at least one parameter", func(g *G, c *Case) {
		g.focus, g.focusP = func(int) *Ex { return g.param() }, 55
		t := c.faithful(g.around(1 + g.n(2)))
		c.nontrivial = t.count("param") > 0
	})
	add("C10", "comparisons and predicates of every kind over operands of every kind; non-trivial: an operand that is no atom", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		g.expressionsOf(depth, deep(g.comparison, g.variable), deep(g.plainCond, g.variable), deep(g.comparison, g.variable))
		t := c.faithful(g.around(depth))
		t.walk(func(x *N) {
			switch x.Op {
			case "bin", "is null", "is not null":
				for _, k := range x.Kids {
					c.nontrivial = c.nontrivial || len(k.Kids) > 0 && k.Op != "prop"
				}
			}
		})
	})
	add("C12", "trees of + - * / % ^ and concatenations up to depth 5 over operands of every kind; non-trivial: at least two operations", func(g *G, c *Case) {
		depth := 1 + g.n(5)
		g.focus, g.focusP = deep(g.arith, g.atom), 60
		if depth > 3 {
			g.focusP = 85
		}
		st := g.around(depth)
		t := c.faithful(st)
		k := 0
		t.walk(func(x *N) {
			if x.Op == "bin" && strings.Contains("+-*/%^", x.Val) {
				k++
			}
		})
		c.nontrivial = k >= 2
	})
	add("C13", "calls of each helper for a function, with operands of every kind, nodes, relationships, paths, maps, plain values and time zones, nested and as operands; non-trivial: a call", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		f := fns[g.n(len(fns))]
		g.count("helper " + f.helper)
		x := g.functionOf(f, depth)
		first := true
		g.focus, g.focusP = func(d int) *Ex {
			switch {
			case first:
				first = false
				return x
			case x.pat && d <= 0:
				return g.atom()
			case x.pat:
				return g.functionOf(f, d)
			case d <= 0:
				return x
			}
			return g.function(d)
		}, 50
		st := g.around(depth)
		t := c.faithful(st)
		c.nontrivial = has(t, "call", "call distinct") > 0
	})
	add("C14", "simple and generic CASE expressions with 1-4 branches, ELSE given early, late or not at all, nested and as operands; non-trivial: a CASE with at least two branches or an ELSE", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		g.focus, g.focusP = deep(g.caseEx, g.atom), 45
		t := c.faithful(g.around(depth))
		t.walk(func(x *N) { c.nontrivial = c.nontrivial || x.Op == "case" && len(x.Kids) > 2 })
	})
	add("C15", "lists, subscripts, slices and list comprehensions of every form over operands of every kind; non-trivial: a subscript, slice or comprehension, or a list of at least two elements", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		g.focus, g.focusP = g.oneOf(deep(g.list, g.atom), deep(g.listOperator, g.atom), deep(g.listOperator, g.atom), deep(g.comprehension, g.atom)), 50
		t := c.faithful(g.around(depth))
		t.walk(func(x *N) {
			c.nontrivial = c.nontrivial || x.Op == "index" || x.Op == "slice" || x.Op == "list comprehension" || x.Op == "list" && len(x.Kids) > 1
		})
	})
	add("C16", "ANY/ALL/NONE/SINGLE, pattern comprehensions, pattern conditions, EXISTS functions and existential subqueries over operands, patterns and conditions of every kind, negated and combined; non-trivial: one of them occurs", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		pred := deep(g.quantifier, g.variable)
		g.focus, g.focusP = g.oneOf(pred, deep(g.patternComprehension, g.variable), deep(g.existsSubquery, g.variable),
			deep(func(d int) *Ex { return g.plainCond(d) }, g.variable),
			deep(func(d int) *Ex { return g.not(g.quantifier(d)) }, g.variable),
			deep(func(d int) *Ex { return g.patternCond(g.path(d - 1)) }, g.variable)), 45
		t := c.faithful(g.around(depth))
		c.nontrivial = has(t, "quantifier", "pattern comprehension", "exists subquery") > 0
	})
	add("C17", "maps and map projections with up to 5 entries (keys, selectors, asterisks, nodes, variables, aliased entries), added at once or later, nested and as properties, and broken ones; non-trivial: a map or projection of at least two entries, or a broken one", func(g *G, c *Case) {
		if g.p(15) {
			c.refused([]string{"map", "projection"})
			return
		}
		depth := 1 + g.n(3)
		g.odd = 12
		g.focus, g.focusP = g.oneOf(deep(g.mapEx, g.atom), deep(g.projection, g.atom)), 50
		t := c.faithful(g.around(depth))
		t.walk(func(x *N) {
			c.nontrivial = c.nontrivial || x.Op == "map" && len(x.Kids) > 1 || x.Op == "projection" && len(x.Kids) > 2
		})
	})
	add("C18", "RETURN and WITH bodies with any items, sort items given in every way, SKIP, LIMIT and conditions, in every order of calls the API permits; non-trivial: at least two of DISTINCT, ORDER BY, SKIP, LIMIT", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.prefer, g.preferP = []string{"order", "andOrder", "andOrder", "sort", "asc", "desc", "skip", "limit", "where", "and", "or"}, 80
		var b *Bd
		switch g.n(4) {
		case 0:
			b = g.withOn(nil, depth)
		case 1:
			b = g.withOn(g.matchOn(nil, 1), depth)
		case 2:
			b = g.returningOn(g.matchOn(nil, 1), depth)
		default:
			b = g.starter(depth)
		}
		b = g.complete(g.grow(b, depth, 10), depth, true)
		t := c.faithful(g.finish(b))
		for _, x := range clauses(t) {
			if x.Op == "with" || x.Op == "return" {
				k := b2i(x.Kids[0].Op != "none")
				for _, y := range x.Kids[2:5] {
					k += b2i(y.Op != "none")
				}
				c.nontrivial = c.nontrivial || k >= 2
			}
		}
	})
	add("C19", "UNION and UNION ALL of 2-4 generated queries, made at once or by extending a union at either end, on their own and in subqueries; mixed unions; non-trivial: a union", func(g *G, c *Case) {
		if g.p(15) {
			c.mixedUnion()
			return
		}
		u := g.union(1+g.n(2), 5)
		st := u
		if g.p(20) {
			b := g.on(nil, "read0", "ACallByStatement("+u.src+")", &Cl{op: "call subquery", sub: u}, func(e *Env, b interface{}) interface{} { return cy.ACallByStatement(e.must(u)) })
			st = g.finish(g.complete(b, 1, true))
		}
		t := c.faithful(st)
		c.nontrivial = t.count("union") > 0
	})
	add("C20", "standalone and in-query procedure calls with names of up to 5 parts, arguments, yields by text, symbolic name or alias, conditions, and subqueries, followed by any clauses; non-trivial: a call with arguments or yields, or a subquery", func(g *G, c *Case) {
		depth := 1 + g.n(3)
		g.prefer, g.preferP = []string{"call", "subquery", "args", "yield", "where", "and", "or"}, 55
		var b *Bd
		switch g.n(4) {
		case 0:
			b = g.callOn(nil, depth)
		case 1:
			b = g.subqueryOn(nil, depth)
		default:
			b = g.starter(depth)
		}
		t := c.faithful(g.finish(g.complete(g.grow(b, depth, 9), depth, false)))
		t.walk(func(x *N) {
			c.nontrivial = c.nontrivial || x.Op == "call subquery" || x.Op == "call" && len(x.Kids) == 4 && x.Kids[0].Op == "procname" && (len(x.Kids[1].Kids) > 0 || x.Kids[2].Op != "none")
		})
	})
	add("C21", "sequences of CREATE, MERGE with actions, SET, REMOVE, DELETE and DETACH DELETE with 1-3 patterns or items each, followed by any clauses; non-trivial: at least two updating clauses or a merge action", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.prefer, g.preferP = []string{"create", "merge", "set", "setNode", "remove", "removeNode", "delete", "onCreate", "onMatch", "onCreate", "onMatch"}, 75
		b := g.starter(depth)
		t := c.faithful(g.finish(g.complete(g.grow(b, depth, 10), depth, false)))
		k := 0
		for _, x := range clauses(t) {
			switch x.Op {
			case "create", "set", "remove", "delete", "detach delete", "merge":
				k++
			}
			c.nontrivial = c.nontrivial || x.Op == "merge" && len(x.Kids) > 1
		}
		c.nontrivial = c.nontrivial || k >= 2
	})
	add("C26", "named and shortest paths over relationships and chains, in MATCH, CREATE and MERGE next to other patterns, in pattern comprehensions, and mentioned again in nodes(), relationships() and results; non-trivial: a named path", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.odd = 15
		ps := &pats{}
		var ss []string
		for i := 1 + g.n(3); i > 0; i-- {
			if g.p(25) {
				p := g.patternList(1, depth-1)
				ps.items = append(ps.items, p.items[0])
				ss = append(ss, p.src)
				continue
			}
			x := g.namedPath(depth - 1)
			ps.items = append(ps.items, x)
			ss = append(ss, x.src)
		}
		ps.src = strings.Join(ss, ", ")
		pathFn := func(int) *Ex {
			for {
				if f := fns[g.n(len(fns))]; f.args == "a" {
					return g.functionOf(f, 1)
				}
			}
		}
		g.focus, g.focusP = g.oneOf(pathFn, pathFn, deep(g.patternComprehension, g.variable)), 50
		b := g.patternBody(depth, ps)
		t := c.faithful(g.finish(g.complete(g.grow(b, depth, 3), depth, false)))
		c.nontrivial = t.count("named") > 0
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func plain(s string) bool {
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && (r == '_' || r >= '0' && r <= '9')) {
			return false
		}
	}
	return true
}

var sink interface{}

// crowd checks a statement of very many named nodes and aliased expressions, all of them are mentioned twice.
func (c *Case) crowd() {
	g := c.g
	k := 20000 + g.n(20000)
	step := 2 + g.n(9)
	aliases := g.p(50)
	g.count("very many elements")
	c.calls(fmt.Sprintf("%d x ANode(\"L<i>\").NamedByString(\"n<i>\") (aliases: %v, other elements created in between: i %% %d); Match(nodes).Match(nodes).With(n<i>.k AS a<i>, n0).Returning(the aliased expressions) resp. Returning(nodes)", k, aliases, step))
	nodes, names := make([]cy.PatternElement, k), make([]cy.Named, k)
	var items, again []cy.Expression
	var full, brief, with, ret []string
	for i := 0; i < k; i++ {
		churn(i % step)
		s := strconv.Itoa(i)
		node := cy.ANode("L" + s).NamedByString("n" + s)
		nodes[i], names[i] = node, node
		full, brief = append(full, "(n"+s+":L"+s+")"), append(brief, "(n"+s+")")
		if !aliases {
			ret = append(ret, "n"+s)
			continue
		}
		prop := node.Property("k")
		items, again = append(items, prop.As("a"+s).Get()), append(again, prop)
		with, ret = append(with, "n"+s+".k AS a"+s), append(ret, "a"+s)
	}
	text := "MATCH " + strings.Join(full, ", ") + " MATCH " + strings.Join(brief, ", ")
	m := cy.Match(nodes...).Match(nodes...)
	var made cy.Statement
	var err error
	if aliases {
		text += " WITH " + strings.Join(with, ", ")
		made, err = m.With(items...).Returning(again...).Build()
	} else {
		made, err = m.ReturningByNamed(names...).Build()
	}
	c.expect(made, err, text+" RETURN "+strings.Join(ret, ", "))
}

// many checks a statement of few named nodes and aliased expressions that are mentioned very often.
func (c *Case) many() {
	g := c.g
	k := []int{100, 300, 300, 3000, 3000, 70000}[g.n(6)] + g.n(100)
	if size := g.knownSize(70000); size > 0 && g.p(30) {
		k = size
	}
	nodes := 1 + g.n(3)
	aliases := g.p(50)
	g.count("very many mentions")
	c.calls(fmt.Sprintf("%d mentions of %d nodes ANode(\"L<i>\").NamedByString(\"n<i>\"), one after another, in Match(...), then (aliased: %v) n<i>.k AS a<i> in With(...) and as often in Returning(...)", k, nodes, aliases))
	var ps []cy.PatternElement
	var ns []cy.Node
	var items, vars []cy.Expression
	var match, with, ret []string
	for i := 0; i < nodes; i++ {
		s := strconv.Itoa(i)
		node := cy.ANode("L" + s).NamedByString("n" + s)
		ns = append(ns, node)
		prop := node.Property("k")
		if aliases {
			items, vars = append(items, prop.As("a"+s).Get()), append(vars, prop)
			with = append(with, "n"+s+".k AS a"+s)
		} else {
			items, vars = append(items, node.GetSymbolicName()), append(vars, node.GetSymbolicName())
			with = append(with, "n"+s)
		}
	}
	var again []cy.Expression
	for i := 0; i < k; i++ {
		s := strconv.Itoa(i % nodes)
		ps, again = append(ps, ns[i%nodes]), append(again, vars[i%nodes])
		if i < nodes {
			match = append(match, "(n"+s+":L"+s+")")
		} else {
			match = append(match, "(n"+s+")")
		}
		ret = append(ret, map[bool]string{true: "a", false: "n"}[aliases]+s)
	}
	made, err := cy.Match(ps...).With(items...).Returning(again...).Build()
	c.expect(made, err, "MATCH "+strings.Join(match, ", ")+" WITH "+strings.Join(with, ", ")+" RETURN "+strings.Join(ret, ", "))
}

// expect checks that a statement means the same as the text.
func (c *Case) expect(made cy.Statement, err error, text string) {
	if err != nil {
		c.fail("a statement of valid parts is refused: %v", err)
	}
	rendered, err := cy.NewRenderer().Render(made)
	if err != nil {
		c.fail("a statement of valid parts is refused: %v", err)
	}
	want, err := Parse(text)
	if err != nil {
		panic(err)
	}
	if d := same(want, c.read(rendered)); d != "" {
		c.fail("the text means something else\n%s", d)
	}
	c.text, c.nontrivial = "", true
}

// churn creates elements that are not used.
func churn(k int) {
	for i := 0; i < k; i++ {
		switch i % 3 {
		case 0:
			sink = cy.AnyNodeNamed("other").WithRawProperties("k", i)
		case 1:
			sink = cy.AProperty("other", "k").IsEqualTo(cy.LiteralOf(i)).Get()
		default:
			sink = cy.ASymbolic("other").As("x").Get()
		}
	}
}

// patternBody draws a MATCH, CREATE or MERGE of given patterns.
func (g *G) patternBody(depth int, ps *pats) *Bd {
	var b *Bd
	if g.p(30) {
		b = g.matchOn(nil, depth)
	}
	switch k := g.n(5); {
	case k <= 2:
		return g.matchOf(b, ps)
	case k == 3:
		return g.createOf(b, "create", ps)
	}
	return g.createOf(b, "merge", ps)
}

func (g *G) nodesOnly(k, depth int) *pats {
	ps := &pats{}
	var ss []string
	for ; k > 0; k-- {
		x := g.nodeAny(depth)
		ps.items = append(ps.items, x)
		ss = append(ss, x.src)
	}
	ps.src = strings.Join(ss, ", ")
	return ps
}

func (g *G) pathsOnly(k, depth int) *pats {
	ps := &pats{}
	var ss []string
	for ; k > 0; k-- {
		x := g.pathOf(depth, 1+g.n(5))
		ps.items = append(ps.items, x)
		ss = append(ss, x.src)
	}
	ps.src = strings.Join(ss, ", ")
	return ps
}

// mixedUnion checks that the two kinds of union can not be mixed.
func (c *Case) mixedUnion() {
	g := c.g
	var sts []*St
	for i := 3 + g.n(2); i > 0; i-- {
		g.fresh(func() { sts = append(sts, g.query(1, 3, true)) })
	}
	split := 2 + g.n(len(sts)-2)
	inner := g.p(50)
	first := g.p(60)
	var ss []string
	for _, st := range sts {
		ss = append(ss, st.src)
	}
	c.calls(fmt.Sprintf("mixed union, inner all: %v, inner first: %v, inner %s, outer %s", inner, first, strings.Join(ss[:split], ", "), strings.Join(ss[split:], ", ")))
	e := newEnv()
	var a, b []cy.Statement
	for i, st := range sts {
		if i < split {
			a = append(a, e.must(st))
		} else {
			b = append(b, e.must(st))
		}
	}
	u := cy.Union
	o := cy.UnionAll
	if inner {
		u, o = o, u
	}
	in := u(a...)
	if in.GetError() != nil {
		c.fail("a union of valid statements is refused: %v", in.GetError())
	}
	all := append([]cy.Statement{in}, b...)
	if !first {
		all = append(append([]cy.Statement{}, b...), in)
	}
	text, err := cy.NewRenderer().Render(o(all...))
	c.text = text
	if err == nil {
		c.fail("UNION and UNION ALL are mixed without an error")
	}
	c.nontrivial = true
	g.count("mixed union refused")
}
