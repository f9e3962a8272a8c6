package harness

import (
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

var prec = map[string]int{"AND": 3, "XOR": 2, "OR": 1}

// addCM models which condition results from adding d to c. It reports whether this is the recorded finding: a plain
// condition is added by operator X to a compound of X that has absorbed a looser binding operator (see
// known_findings.txt).
func addCM(c cm, op string, d cm) (cm, bool) {
	if c.empty {
		return addCM(cm{compound: true, op: op}, op, d)
	}
	if d.compound || d.empty {
		if d.empty || len(d.kids) == 0 {
			return c, false
		}
		if c.looser(op) {
			return createCM(c, op, d)
		}
		if c.op == op && op == d.op {
			flat := true
			for _, k := range d.kids {
				if k.compound && k.op != op {
					flat = false
				}
			}
			if flat {
				return c.extended(d.kids...), false
			}
			return c.extended(child{true, d.op}), false
		}
		return c.extended(child{true, op}), false
	}
	if c.op == op {
		return c.extended(child{}), c.looser(op)
	}
	return createCM(c, op, d)
}

func createCM(a cm, op string, b cm) (cm, bool) {
	r, f := addCM(cm{compound: true, op: op}, op, a)
	r, f2 := addCM(r, op, b)
	return r, f || f2
}

func (c cm) extended(ks ...child) cm {
	c.kids = append(append([]child{}, c.kids...), ks...)
	return c
}

func (c cm) looser(op string) bool {
	for i, k := range c.kids {
		if i == 0 {
			continue
		}
		o := c.op
		if k.compound {
			o = k.op
		}
		if prec[o] < prec[op] {
			return true
		}
	}
	return false
}

// combineCM models a.And(b), a.Or(b) and a.Xor(b).
func combineCM(a *cm, op string, b *cm) (cm, bool) {
	if a.compound || a.empty {
		return addCM(*a, op, *b)
	}
	return createCM(*a, op, *b)
}

func (g *G) asCond(x *Ex, pat bool) *Ex {
	x.cm = &cm{}
	x.pat = pat
	return x
}

var comparisons = []string{"=", "<>", "<", "<=", ">", ">=", "=~", "STARTS WITH", "ENDS WITH", "CONTAINS", "IN"}

func compare(op string, a, b cy.Expression) cy.Condition {
	switch op {
	case "=":
		return a.IsEqualTo(b).Get()
	case "<>":
		return a.IsNotEqualTo(b).Get()
	case "<":
		return a.Lt(b).Get()
	case "<=":
		return a.Lte(b).Get()
	case ">":
		return a.Gt(b).Get()
	case ">=":
		return a.Gte(b).Get()
	case "=~":
		return a.Matches(b).Get()
	case "STARTS WITH":
		return a.StartWiths(b).Get()
	case "ENDS WITH":
		return a.EndsWith(b).Get()
	case "CONTAINS":
		return a.Contains(b).Get()
	}
	return a.In(b).Get()
}

var compareMethods = map[string]string{"=": "IsEqualTo", "<>": "IsNotEqualTo", "<": "Lt", "<=": "Lte", ">": "Gt", ">=": "Gte", "=~": "Matches",
	"STARTS WITH": "StartWiths", "ENDS WITH": "EndsWith", "CONTAINS": "Contains", "IN": "In"}

func (g *G) comparison(depth int) *Ex {
	return g.comparisonOf(comparisons[g.n(len(comparisons))], g.expr(depth-1), g.at("compare", depth-1))
}

func (g *G) comparisonOf(op string, l, r *Ex) *Ex {
	x := g.mk(l.src+"."+compareMethods[op]+"("+r.src+").Get()", func(e *Env) cy.Expression {
		a := e.ex(l)
		return compare(op, a, e.ex(r))
	}, func(s *Sc) *N { a := s.ex(l); return n("bin", op, a, s.ex(r)) })
	return g.asCond(x, anyPat(l, r))
}

// plainCond draws a condition that is no combination.
func (g *G) plainCond(depth int) *Ex {
	if g.bad("broken") {
		for {
			b := broken[g.n(len(broken))]
			if !b.cond {
				continue
			}
			return g.asCond(g.mk(b.src+mark, func(*Env) cy.Expression { return b.mk() }, nil), false)
		}
	}
	k := 17
	if g.noPat {
		k = 11
	}
	switch g.n(k) {
	case 0, 1, 2:
		return g.comparison(depth)
	case 3:
		x := g.expr(depth - 1)
		switch g.n(3) {
		case 0:
			return g.asCond(g.mk(x.src+".IsNull().Get()", func(e *Env) cy.Expression { return e.ex(x).IsNull().Get() },
				func(s *Sc) *N { return n("is null", "", s.ex(x)) }), x.pat)
		default:
			return g.asCond(g.mk(x.src+".IsNotNull().Get()", func(e *Env) cy.Expression { return e.ex(x).IsNotNull().Get() },
				func(s *Sc) *N { return n("is not null", "", s.ex(x)) }), x.pat)
		}
	case 4:
		x := g.expr(depth - 1)
		if g.p(50) {
			return g.asCond(g.mk(x.src+".IsTrue().Get()", func(e *Env) cy.Expression { return e.ex(x).IsTrue().Get() },
				func(s *Sc) *N { return n("bin", "=", s.ex(x), n("bool literal", "true")) }), x.pat)
		}
		return g.asCond(g.mk(x.src+".IsFalse().Get()", func(e *Env) cy.Expression { return e.ex(x).IsFalse().Get() },
			func(s *Sc) *N { return n("bin", "=", s.ex(x), n("bool literal", "false")) }), x.pat)
	case 5:
		x := g.expr(depth - 1)
		if x.kind == "size" {
			// size(..).IsEmpty() renders size(..) = 0, as the existing tests require
			return g.comparisonOf("=", x, g.number())
		}
		return g.asCond(g.mk(x.src+".IsEmpty().Get()", func(e *Env) cy.Expression { return e.ex(x).IsEmpty().Get() },
			func(s *Sc) *N { return n("bin", "=", n("call", "size", s.ex(x)), numOf(0)) }), x.pat)
	case 6:
		x, t := g.expr(depth-1), g.text()
		return g.asCond(g.mk(x.src+".MatchesPattern("+q(t)+").Get()", func(e *Env) cy.Expression { return e.ex(x).MatchesPattern(t).Get() },
			func(s *Sc) *N { return n("bin", "=~", s.ex(x), n("str", t)) }), x.pat)
	case 7:
		nd := g.aNode()
		ls := g.names(g.more(1 + g.n(3)))
		note := ""
		if g.bad("no labels") {
			ls, note = nil, mark
		}
		if g.p(15) {
			mk := func() []cy.NodeLabel {
				var r []cy.NodeLabel
				for _, l := range ls {
					r = append(r, cy.NodeLabelCreate(l))
				}
				return r
			}
			v := g.sharedSymbolic(g.name())
			return g.asCond(g.mk("HasLabelConditionCreate1("+v.src+", labels "+qs(ls)+note+")", func(e *Env) cy.Expression { return cy.HasLabelConditionCreate1(v.get(), arg(e, mk())) },
				func(s *Sc) *N { return labelsOf(n("var", v.name), ls) }), false)
		}
		return g.asCond(g.mk(nd.ref()+".HasLabels("+qs(ls)+note+")", func(e *Env) cy.Expression { return e.node(nd).HasLabels(arg(e, ls)...) },
			func(s *Sc) *N { return labelsOf(s.symOf(nd.sym, nd.name), ls) }), false)
	case 8:
		if g.p(50) {
			return g.asCond(g.mk("ConditionsIsTrue()", func(*Env) cy.Expression { return cy.ConditionsIsTrue() }, func(*Sc) *N { return n("bool literal", "true") }), false)
		}
		return g.asCond(g.mk("ConditionsIsFalse()", func(*Env) cy.Expression { return cy.ConditionsIsFalse() }, func(*Sc) *N { return n("bool literal", "false") }), false)
	case 9:
		return g.quantifier(depth)
	case 10:
		x := g.property()
		return g.asCond(g.mk("PredicateExists("+x.src+")", func(e *Env) cy.Expression { return cy.PredicateExists(e.ex(x).(cy.Property)) },
			func(s *Sc) *N { return n("call", "exists", s.ex(x)) }), false)
	case 11:
		p := g.givenPath(depth - 1)
		return g.asCond(g.mk("PredicateExistsByPattern("+p.src+")", func(e *Env) cy.Expression { return cy.PredicateExistsByPattern(e.pattern(p)) },
			func(s *Sc) *N { return n("call", "exists", s.pattern(p)) }), true)
	case 12:
		return g.patternCond(g.givenPath(depth - 1))
	case 13, 14:
		p := g.givenPath(depth - 1)
		return g.asCond(g.mk("ConditionsNotByPattern("+p.src+")", func(e *Env) cy.Expression { return cy.ConditionsNotByPattern(e.pattern(p)) },
			func(s *Sc) *N { return n("not", "", s.pattern(p)) }), true)
	case 15:
		return g.existsSubquery(depth)
	}
	return g.caseEx(depth)
}

func labelsOf(x *N, ls []string) *N {
	h := n("labels of", "", x)
	for _, l := range ls {
		h.Kids = append(h.Kids, n("label", l))
	}
	return h
}

func (g *G) patternCond(p *Pt) *Ex {
	return g.asCond(g.mk("RelationshipPatternConditionCreate("+p.src+")", func(e *Env) cy.Expression { return cy.RelationshipPatternConditionCreate(e.pattern(p)) },
		func(s *Sc) *N { return s.pattern(p) }), true)
}

func (g *G) quantifier(depth int) *Ex {
	type data struct{ v string }
	st := g.anyStem("quantifier")
	if st == nil {
		kind := []string{"any", "all", "none", "single"}[g.n(4)]
		v := g.name()
		bySym := g.p(50)
		method := "Predicate" + strings.ToUpper(kind[:1]) + kind[1:]
		src := method + "(" + q(v) + ")"
		sym := symbolic{name: v}
		if bySym {
			sym = g.sharedSymbolic(v)
			src = method + "BySymbolicName(" + sym.src + ")"
		}
		l := g.at("quantifier", depth-1)
		var start *stem
		start = g.keepStem(&stem{kind: "quantifier start", src: src, mk: func(e *Env, _ interface{}) interface{} {
			switch {
			case kind == "any" && bySym:
				return cy.PredicateAnyBySymbolicName(sym.get())
			case kind == "any":
				return cy.PredicateAny(v)
			case kind == "all" && bySym:
				return cy.PredicateAllBySymbolicName(sym.get())
			case kind == "all":
				return cy.PredicateAll(v)
			case kind == "none" && bySym:
				return cy.PredicateNoneBySymbolicName(sym.get())
			case kind == "none":
				return cy.PredicateNone(v)
			case bySym:
				return cy.PredicateSingleBySymbolicName(sym.get())
			}
			return cy.PredicateSingle(v)
		}, cn: func(*Sc) []*N { return []*N{n("kind", kind), n("var", sym.name)} }})
		if x := g.anyStem("quantifier start"); x != nil {
			start = x
		}
		st = g.keepStem(&stem{kind: "quantifier", parent: start, src: start.src + ".In(" + l.src + ")", pat: l.pat,
			mk: func(e *Env, b interface{}) interface{} { return b.(cy.OngoingListBasedPredicateFunction).In(e.ex(l)) },
			cn: func(s *Sc) []*N { return append(start.cn(s), s.ex(l)) }})
	}
	w := g.cond(depth - 1)
	return g.asCond(g.mk(st.src+".Where("+w.src+")", func(e *Env) cy.Expression {
		return e.stem(st).(cy.OngoingListBasedPredicateFunctionWithList).Where(e.cond(w))
	}, func(s *Sc) *N { k := st.cn(s); return n("quantifier", k[0].Val, k[1], k[2], s.ex(w)) }), st.pat || w.pat)
}

// existsSubquery makes a condition of MATCH .. WHERE ..
func (g *G) existsSubquery(depth int) *Ex {
	var b *Bd
	for _, c := range g.cuts {
		if len(c.cls) == 1 && (c.kind == "read" || c.kind == "readW") && g.p(g.deriveP) {
			g.count("derived from the same MATCH")
			b = c
		}
	}
	if b == nil {
		b = g.cut(g.matchOf(nil, g.patternList(g.more(1+g.n(2)), depth-1)))
	}
	for i := g.more(g.n(5)); i > 1; i-- {
		m := "where"
		if b.kind == "readW" {
			m = []string{"and", "or"}[g.n(2)]
		}
		if c := g.whereOn(b, m, depth); c != nil {
			b = g.cut(c)
		}
	}
	note := ""
	if g.bad("existential") {
		// of more than a MATCH
		b, note = g.matchOn(b, depth), mark
	}
	return g.asCond(g.mk(b.src+".AsCondition()"+note, func(e *Env) cy.Expression {
		return e.bd(b).(interface{ AsCondition() cy.Condition }).AsCondition()
	}, func(s *Sc) *N { return n("exists subquery", "", b.cls[0].cn(s)) }), true)
}

func (g *G) cut(b *Bd) *Bd {
	if g.keeps(b.src) {
		g.cuts = append(g.cuts, b)
	}
	return b
}

// cond draws any condition.
func (g *G) cond(depth int) *Ex {
	if g.conds != nil && g.p(g.condsP) {
		return g.conds(depth)
	}
	if depth <= 0 || g.p(40) {
		return g.plainCond(depth)
	}
	if g.p(20) {
		return g.not(g.cond(depth - 1))
	}
	if !g.noPat && g.p(12) {
		return g.combinePattern(g.condMaybeEmpty(depth-1), []string{"AND", "OR", "XOR"}[g.n(3)], g.givenPath(depth-1))
	}
	return g.combine(g.condMaybeEmpty(depth-1), []string{"AND", "OR", "XOR"}[g.n(3)], g.condMaybeEmpty(depth-1))
}

func (g *G) condMaybeEmpty(depth int) *Ex {
	if g.p(8) {
		g.count("empty condition")
		return g.empty()
	}
	return g.cond(depth)
}

func (g *G) empty() *Ex {
	x := g.mk("ConditionsNoCondition()", func(*Env) cy.Expression { return cy.ConditionsNoCondition() }, func(*Sc) *N { return n("bool", "AND") })
	x.cm = &cm{empty: true}
	return x
}

func (g *G) not(c *Ex) *Ex {
	if c.isEmpty() {
		return g.plainCond(0)
	}
	if g.p(50) {
		return g.asCond(g.mk(c.src+".Not().Get()", func(e *Env) cy.Expression { return e.cond(c).Not().Get() },
			func(s *Sc) *N { return n("not", "", s.ex(c)) }), c.pat)
	}
	return g.asCond(g.mk("ConditionsNot("+c.src+")", func(e *Env) cy.Expression { return cy.ConditionsNot(e.cond(c)) },
		func(s *Sc) *N { return n("not", "", s.ex(c)) }), c.pat)
}

func (x *Ex) isEmpty() bool {
	return x.cm != nil && (x.cm.empty || x.cm.compound && len(x.cm.kids) == 0)
}

// combine combines two conditions. The combinations of the recorded finding are left out, the second operand is negated
// twice then, which makes no difference for the truth but for the way it is built.
func (g *G) combine(a *Ex, op string, b *Ex) *Ex {
	model, finding := combineCM(a.cm, op, b.cm)
	if finding {
		g.count("excluded: recorded finding")
		return g.combine(g.not(g.not(a)), op, b)
	}
	if a.isEmpty() && b.isEmpty() {
		return g.plainCond(0)
	}
	method := map[string]string{"AND": "And", "OR": "Or", "XOR": "Xor"}[op]
	x := g.mk(a.src+"."+method+"("+b.src+").Get()", func(e *Env) cy.Expression {
		c := e.cond(a)
		d := e.cond(b)
		switch op {
		case "AND":
			return c.And(d).Get()
		case "OR":
			return c.Or(d).Get()
		}
		return c.Xor(d).Get()
	}, func(s *Sc) *N { return combineN(op, a, b, s) })
	x.cm = &model
	x.pat = anyPat(a, b)
	return x
}

// combinePattern uses AndPattern, OrPattern or XorPattern.
func (g *G) combinePattern(a *Ex, op string, p *Pt) *Ex {
	if a.isEmpty() {
		return g.patternCond(p)
	}
	model, finding := createCM(*a.cm, op, cm{})
	if finding {
		g.count("excluded: recorded finding")
		return g.combine(g.not(g.not(a)), op, g.patternCond(p))
	}
	method := map[string]string{"AND": "AndPattern", "OR": "OrPattern", "XOR": "XorPattern"}[op]
	x := g.mk(a.src+"."+method+"("+p.src+").Get()", func(e *Env) cy.Expression {
		c := e.cond(a)
		switch op {
		case "AND":
			return c.AndPattern(e.pattern(p)).Get()
		case "OR":
			return c.OrPattern(e.pattern(p)).Get()
		}
		return c.XorPattern(e.pattern(p)).Get()
	}, func(s *Sc) *N { l := s.ex(a); return boolOp(op, l, s.pattern(p)) })
	x.cm = &model
	x.pat = true
	return x
}

func combineN(op string, a, b *Ex, s *Sc) *N {
	var ks []*N
	if !a.isEmpty() {
		ks = append(ks, s.ex(a))
	}
	if !b.isEmpty() {
		ks = append(ks, s.ex(b))
	}
	return boolOp(op, ks...)
}

// chain is a condition that is built step by step: where(..).and(..).or(..)
type step struct {
	op string
	x  *Ex
	pt *Pt
}

type chain struct {
	steps []step
	src   string
	model cm
}

func (c *chain) cn(s *Sc) *N {
	var r *N
	for _, st := range c.steps {
		var t *N
		if st.pt != nil {
			t = s.pattern(st.pt)
		} else if !st.x.isEmpty() {
			t = s.ex(st.x)
		}
		switch {
		case t == nil:
		case r == nil:
			r = t
		default:
			r = boolOp(st.op, r, t)
		}
	}
	return orNone(r)
}

func stepOnMatch(e *Env, r cy.OngoingReadingWithWhere, st step) cy.OngoingReadingWithWhere {
	switch {
	case st.op == "AND" && st.pt != nil:
		return r.AndPattern(e.pattern(st.pt))
	case st.op == "AND":
		return r.And(e.cond(st.x))
	case st.pt != nil:
		return r.OrPattern(e.pattern(st.pt))
	}
	return r.Or(e.cond(st.x))
}
