package harness

import (
	"fmt"
	"strconv"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// Bd is a statement under construction: the calls made so far and the clauses they describe. It never changes, a call
// gives a new one.
type Bd struct {
	id     int
	parent *Bd
	kind   string
	src    string
	step   func(e *Env, b interface{}) interface{}
	cls    []*Cl
	depth  int // number of calls
	after  pools
}

// Cl is a clause.
type Cl struct {
	op          string
	pats        *pats
	w           *chain
	distinct    bool
	items       *items
	order       []srt
	skip, limit *N
	acts        []act
	set         *setItems
	name        []string
	yields      *items
	sub         *St
	as          string
}

type srt struct {
	x   *Ex
	dir string
}

type act struct {
	op  string
	set *setItems
}

// items are expressions or names that are listed.
type items struct {
	how     string // "", "ByString", "ByNamed"
	src     string
	exprs   []*Ex
	strs    []string
	named   []func(e *Env) cy.Named
	cns     []func(s *Sc) *N
	defined []*Al
	retired []*Nd
}

// St is a complete statement.
type St struct {
	id      int
	src     string
	mk      func(e *Env) (cy.Statement, error)
	cn      func(s *Sc) *N
	cls     []*Cl
	returns bool
	union   bool
	all     bool
	aliases []*Al // of one of the members of a union
	members []*St
	bd      *Bd
}

type built struct {
	st  cy.Statement
	err error
}

func (e *Env) stmt(x *St) (cy.Statement, error) {
	if v, ok := e.memo[x.id]; ok {
		return v.(built).st, v.(built).err
	}
	st, err := x.mk(e)
	e.memo[x.id] = built{st, err}
	return st, err
}

func (e *Env) must(x *St) cy.Statement {
	st, err := e.stmt(x)
	if err != nil {
		panic(buildErr{err})
	}
	return st
}

type buildErr struct{ err error }

func (e *Env) bd(b *Bd) interface{} {
	if v, ok := e.memo[b.id]; ok {
		return v
	}
	var before interface{}
	if b.parent != nil {
		before = e.bd(b.parent)
	}
	v := b.step(e, before)
	e.memo[b.id] = v
	e.before()
	return v
}

func (c *Cl) cn(s *Sc) *N {
	switch c.op {
	case "match", "optional match":
		p := c.pats.cn(s)
		return n(c.op, "", p, c.where(s))
	case "create":
		return n(c.op, "", c.pats.cn(s))
	case "merge":
		m := n(c.op, "", c.pats.cn(s))
		for _, a := range c.acts {
			m.Kids = append(m.Kids, n(a.op, "", a.set.cn(s)...))
		}
		return m
	case "set", "remove":
		return n(c.op, "", c.set.cn(s)...)
	case "delete", "detach delete":
		return n(c.op, "", c.items.cn(s)...)
	case "unwind":
		return n("unwind", c.as, c.items.cn(s)[0])
	case "call subquery":
		return n(c.op, "", c.sub.cn(s))
	case "call":
		name := n("procname", "")
		for _, p := range c.name {
			name.Kids = append(name.Kids, n("part", p))
		}
		args := n("args", "")
		if c.items != nil {
			args.Kids = c.items.cn(s)
		}
		yields := none
		if c.yields != nil {
			yields = n("yield", "", c.yields.cn(s)...)
			s.project()
		}
		return n(c.op, "", name, args, yields, c.where(s))
	case "with", "return":
		distinct := none
		if c.distinct {
			distinct = n("distinct", "")
		}
		its := n("items", "", c.items.cn(s)...)
		s.project()
		order := none
		if len(c.order) > 0 {
			order = n("order", "")
			for _, o := range c.order {
				order.Kids = append(order.Kids, n("sort", o.dir, s.ex(o.x)))
			}
		}
		r := n(c.op, "", distinct, its, order, orNone(c.skip), orNone(c.limit))
		if c.op == "with" {
			r.Kids = append(r.Kids, c.where(s))
		}
		return r
	}
	panic("clause " + c.op)
}

func (c *Cl) where(s *Sc) *N {
	if c.w == nil {
		return none
	}
	return c.w.cn(s)
}

func (its *items) cn(s *Sc) []*N {
	var r []*N
	for _, f := range its.cns {
		r = append(r, f(s))
	}
	return r
}

func (its *items) exs(e *Env) []cy.Expression { return e.exs(its.exprs) }
func (its *items) nds(e *Env) []cy.Named {
	var r []cy.Named
	for _, f := range its.named {
		r = append(r, f(e))
	}
	return r
}

func clsN(cls []*Cl) func(s *Sc) *N {
	return func(s *Sc) *N {
		x := n("query", "")
		for _, c := range cls {
			x.Kids = append(x.Kids, c.cn(s))
		}
		return x
	}
}

// ---- extension of builders

func (g *G) start(kind, src string, cl *Cl, step func(e *Env, b interface{}) interface{}) *Bd {
	b := &Bd{id: g.id(), kind: kind, src: src, step: step, depth: 1}
	if cl != nil {
		b.cls = []*Cl{cl}
	}
	return b
}

func (g *G) extend(b *Bd, kind, src string, cls []*Cl, step func(e *Env, b interface{}) interface{}) *Bd {
	g.cost += len(b.src) + len(src)
	return &Bd{id: g.id(), parent: b, kind: kind, src: b.src + src, step: step, cls: cls, depth: b.depth + 1}
}

func plus(cls []*Cl, c *Cl) []*Cl { return append(append([]*Cl{}, cls...), c) }

// changed gives the clauses with a changed last one.
func changed(cls []*Cl, f func(c *Cl)) []*Cl {
	r := append([]*Cl{}, cls...)
	c := *r[len(r)-1]
	f(&c)
	r[len(r)-1] = &c
	return r
}

// ---- items

func (g *G) alias(depth int) *Al {
	var of *Ex
	if len(g.pool) > 0 && g.p(40) {
		of = g.pool[g.n(len(g.pool))]
	} else {
		of = g.expr(depth)
		if !of.pat && len(g.pool) < 8 && of.kind != "alias" {
			// mentions of the aliased expression itself
			g.pool = append(g.pool, of)
		}
	}
	if of.kind == "alias" {
		of = g.property()
	}
	return g.aliasOf(of)
}

// again gives an alias that has been defined before the scope of aliases ended, if any.
func (g *G) again(its *items) *Al {
	if len(g.olds) == 0 || !g.p(60) {
		return nil
	}
	al := g.olds[g.n(len(g.olds))]
	for _, x := range append(append([]*Al{}, its.defined...), g.aliases...) {
		if x == al {
			return nil
		}
	}
	g.count("alias defined in another query again")
	return al
}

func (g *G) aliasOf(of *Ex) *Al {
	if len(g.aliases) > 0 && g.p(10) {
		if al := g.aliases[g.n(len(g.aliases))]; al.of != nil && !al.of.pat {
			return g.otherAlias(al)
		}
	}
	return g.aliasNamed(of, g.name())
}

// otherAlias gives what an aliased expression names another alias, the first one can be used as well.
func (g *G) otherAlias(al *Al) *Al {
	a := g.name()
	g.count("another alias of an aliased expression")
	return g.aliasMade(al.of, a, al.ex.src+".Aliased("+q(a)+")", func(e *Env) cy.Expression {
		return e.ex(al.ex).(cy.AliasedExpression).Aliased(a)
	})
}

func (g *G) aliasNamed(of *Ex, a string) *Al {
	if of.pat {
		// it is not mentioned again
		var rest []*Ex
		for _, x := range g.leaves {
			if x != of {
				rest = append(rest, x)
			}
		}
		g.leaves = rest
	}
	src, first, twice := of.src+".As("+q(a)+").Get()", "", g.p(12)
	if twice {
		// another alias first
		first = g.name()
		src = of.src + ".As(" + q(first) + ").Get().Aliased(" + q(a) + ")"
		g.count("alias of an aliased expression")
	}
	return g.aliasMade(of, a, src, func(e *Env) cy.Expression {
		if twice {
			return aliased(e.ex(of), first).(cy.AliasedExpression).Aliased(a)
		}
		return aliased(e.ex(of), a)
	})
}

func (g *G) aliasMade(of *Ex, a, src string, make func(*Env) cy.Expression) *Al {
	al := &Al{of: of, alias: a}
	x := g.mk(src, make, nil)
	x.kind = "alias"
	x.cn = func(s *Sc) *N {
		if s.defined[x.id] {
			return n("var", a)
		}
		d := s.ex(of)
		s.defined[x.id] = true
		s.pending = append(s.pending, [2]interface{}{of.id, a})
		return n("as", a, d)
	}
	if of.cm != nil {
		x.cm = &cm{}
	}
	al.ex = x
	return al
}

func aliased(x cy.Expression, alias string) cy.Expression {
	return x.(interface {
		As(string) cy.ExpressionContainer
	}).As(alias).Get()
}

// nodeAlias is node.As(..)
func (g *G) nodeAlias(nd *Nd) *Al {
	a := g.name()
	al := &Al{alias: a}
	x := g.mk(nd.ref()+".As("+q(a)+")", func(e *Env) cy.Expression { return e.node(nd).As(a) }, nil)
	x.kind = "alias"
	x.cn = func(s *Sc) *N {
		if s.defined[x.id] {
			return n("var", a)
		}
		d := s.symOf(nd.sym, nd.name)
		s.defined[x.id] = true
		s.pending = append(s.pending, [2]interface{}{nd.sym, a})
		return n("as", a, d)
	}
	al.ex = x
	return al
}

func (g *G) exprItems(xs []*Ex) *items {
	its := &items{exprs: xs, src: srcs(xs)}
	for _, x := range xs {
		x := x
		its.cns = append(its.cns, func(s *Sc) *N { return s.ex(x) })
	}
	return its
}

// namedGiven is given for what has a name.
func (g *G) namedGiven() (func(e *Env) cy.Named, func(s *Sc) *N, string) {
	if g.site == "" && g.bad("nil") {
		return func(*Env) cy.Named { return nil }, nil, "nil" + mark
	}
	return g.named1()
}

func (g *G) named1() (func(e *Env) cy.Named, func(s *Sc) *N, string) {
	if g.bad("unnamed rel") {
		r := g.unnamedRel()
		return func(e *Env) cy.Named { return e.pattern(r).(cy.Relationship) }, nil, r.ref()
	}
	if g.bad("unnamed") {
		nd := g.unnamed()
		return func(e *Env) cy.Named { return e.node(nd) }, nil, nd.ref()
	}
	if len(g.paths) > 0 && g.p(25) {
		p := g.paths[g.n(len(g.paths))]
		return func(e *Env) cy.Named { return e.namedPath(p) }, func(*Sc) *N { return n("var", p.name) }, p.src
	}
	if len(g.rels) > 0 && g.p(35) {
		r := g.rels[g.n(len(g.rels))]
		return func(e *Env) cy.Named { return e.pattern(r).(cy.Relationship) }, func(*Sc) *N { return n("var", r.name) }, r.ref()
	}
	if len(g.nodes) == 0 {
		g.nodes = append(g.nodes, g.namedNode(0))
	}
	nd := g.nodes[g.n(len(g.nodes))]
	return func(e *Env) cy.Named { return e.node(nd) }, func(s *Sc) *N { return s.symOf(nd.sym, nd.name) }, nd.ref()
}

// list draws k or so things to delete or to return.
func (g *G) items(k, depth int, projection bool) *items {
	if g.bad("nothing") {
		return &items{how: []string{"ByString", "ByNamed", ""}[g.n(3)], src: mark}
	}
	switch g.n(4) {
	case 0:
		its := &items{how: "ByString", strs: g.names(k)}
		its.src = qs(its.strs)
		for _, v := range its.strs {
			v := v
			its.cns = append(its.cns, func(*Sc) *N { return n("var", v) })
		}
		return its
	case 1:
		its := &items{how: "ByNamed"}
		var ss []string
		for i := 0; i < k; i++ {
			f, cn, src := g.namedGiven()
			its.named = append(its.named, f)
			its.cns = append(its.cns, cn)
			ss = append(ss, src)
		}
		its.src = strings.Join(ss, ", ")
		return its
	}
	if !projection {
		return g.exprItems(g.exprN(k, depth))
	}
	its := &items{}
	for i := 0; i < k; i++ {
		var x *Ex
		switch {
		case !g.noAlias && g.p(g.aliasP):
			al := g.again(its)
			if al == nil {
				al = g.alias(depth)
			}
			its.defined = append(its.defined, al)
			x = al.ex
			g.count("alias defined")
		case !g.noAlias && g.p(10) && len(g.nodes) > 0:
			j := g.n(len(g.nodes))
			if strings.HasPrefix(g.nodes[j].name, unresolved) { // every mention of the name would stand for the alias
				x = g.property()
				break
			}
			dup := false
			for _, r := range its.retired {
				dup = dup || r == g.nodes[j]
			}
			if dup {
				x = g.property()
				break
			}
			al := g.nodeAlias(g.nodes[j])
			its.defined = append(its.defined, al)
			its.retired = append(its.retired, g.nodes[j])
			x = al.ex
			g.count("node aliased")
		case g.p(8):
			x = g.mk("AnAsterisk()", func(*Env) cy.Expression { return cy.AnAsterisk() }, func(*Sc) *N { return n("star", "") })
		default:
			x = g.expr(depth)
		}
		its.exprs = append(its.exprs, x)
		its.cns = append(its.cns, func(s *Sc) *N { return s.ex(x) })
	}
	its.src = srcs(its.exprs)
	return its
}

// known makes what the items define available to what follows.
func (g *G) known(its *items) {
	g.aliases = append(g.aliases[:len(g.aliases):len(g.aliases)], its.defined...)
	for _, r := range its.retired {
		var nodes []*Nd
		for _, nd := range g.nodes {
			if nd != r {
				nodes = append(nodes, nd)
			}
		}
		g.nodes = nodes
	}
}

// ---- SET

type setItems struct {
	src string
	ops []func(e *Env) []cy.Expression
	cns []func(s *Sc) *N
}

func (x *setItems) cn(s *Sc) []*N {
	var r []*N
	for _, f := range x.cns {
		r = append(r, f(s))
	}
	return r
}

func (x *setItems) exs(e *Env) []cy.Expression {
	var r []cy.Expression
	for _, f := range x.ops {
		r = append(r, f(e)...)
	}
	return r
}

func (g *G) aNode() *Nd {
	if g.bad("unnamed") {
		return g.unnamed()
	}
	if len(g.nodes) == 0 {
		g.nodes = append(g.nodes, g.namedNode(0))
	}
	return g.nodes[g.n(len(g.nodes))]
}

// labels draws labels to set or to remove.
func (g *G) labels() []string {
	if g.bad("no labels") {
		return nil
	}
	return g.names(g.more(1 + g.n(3)))
}

func showLabels(ls []string) string {
	if len(ls) == 0 {
		return mark
	}
	return qs(ls)
}

func (g *G) setItems(k, depth int) *setItems {
	r := &setItems{}
	var ss []string
	add := func(src string, op func(e *Env) []cy.Expression, cn func(s *Sc) *N) {
		ss = append(ss, src)
		r.ops = append(r.ops, op)
		r.cns = append(r.cns, cn)
	}
	if g.bad("nothing") {
		r.src = mark
		return r
	}
	var targets []*Ex
	target := func() *Ex {
		if k := len(targets); k > 0 && g.p(20) {
			g.count("same target again")
			return targets[g.n(k)]
		}
		targets = append(targets, g.property())
		return targets[len(targets)-1]
	}
	for i := 0; i < k; i++ {
		switch g.n(6) {
		case 0, 1:
			t, v := target(), g.given(depth)
			add(t.src+".To("+v.src+")", func(e *Env) []cy.Expression {
				p := e.ex(t).(cy.Property)
				return []cy.Expression{p.To(e.ex(v))}
			}, func(s *Sc) *N { a := s.ex(t); return n("assign", "=", a, s.ex(v)) })
		case 2:
			nd, ls := g.aNode(), g.labels()
			if len(ls) == 1 && g.p(30) {
				add("OperationCreate1("+nd.ref()+".GetRequiredSymbolicName(), SET_LABEL, NodeLabelCreate("+showLabels(ls)+"))", func(e *Env) []cy.Expression {
					return []cy.Expression{cy.OperationCreate1(e.node(nd).GetRequiredSymbolicName(), cy.SET_LABEL, cy.NodeLabelCreate(ls[0]))}
				}, func(s *Sc) *N { return labelsOf(s.symOf(nd.sym, nd.name), ls) })
				continue
			}
			add("OperationSetLabel("+nd.ref()+", "+showLabels(ls)+")", func(e *Env) []cy.Expression { return []cy.Expression{cy.OperationSetLabel(e.node(nd), arg(e, ls)...)} },
				func(s *Sc) *N { return labelsOf(s.symOf(nd.sym, nd.name), ls) })
		case 3:
			t, v := g.variable(), g.param()
			if g.p(60) {
				v = g.mapEx(depth)
			}
			add("OperationCreate("+t.src+", MUTATE, "+v.src+")", func(e *Env) []cy.Expression {
				return []cy.Expression{cy.OperationCreate(e.ex(t), cy.MUTATE, e.ex(v))}
			}, func(s *Sc) *N { a := s.ex(t); return n("assign", "+=", a, s.ex(v)) })
		case 4:
			t, v := target(), g.given(depth)
			add("OperationSet("+t.src+", "+v.src+")", func(e *Env) []cy.Expression {
				return []cy.Expression{cy.OperationSet(e.ex(t), e.ex(v))}
			}, func(s *Sc) *N { a := s.ex(t); return n("assign", "=", a, s.ex(v)) })
		default:
			t, v := target(), g.given(depth)
			if g.p(30) {
				t = g.variable()
			}
			add(t.src+", "+v.src, func(e *Env) []cy.Expression { return []cy.Expression{e.ex(t), e.ex(v)} },
				func(s *Sc) *N { a := s.ex(t); return n("assign", "=", a, s.ex(v)) })
		}
	}
	if g.bad("set") {
		p := g.property()
		add(p.src+mark, func(e *Env) []cy.Expression { return []cy.Expression{e.ex(p)} }, nil)
	}
	r.src = strings.Join(ss, ", ")
	return r
}

// ---- the calls that are possible

var reading = []string{"returning", "returning", "with", "with", "delete", "merge", "set", "setNode", "removeNode", "remove", "unwind", "create", "subquery", "call"}
var updating = []string{"build", "create", "merge", "delete", "returning", "with"}
var moves = map[string][]string{
	"read":       cat(reading, []string{"match", "match", "where", "where", "where"}),
	"readW":      cat(reading, []string{"match", "match", "and", "or", "and", "or"}),
	"reading":    reading,
	"with":       cat(reading, []string{"match", "where", "where", "order", "order", "sort", "skip", "limit"}),
	"withS":      cat(reading, []string{"match", "order", "sort", "skip", "limit"}),
	"withW":      cat(reading, []string{"match", "and", "or", "order", "order", "sort", "skip", "limit"}),
	"withOrd":    cat(reading, []string{"match", "andOrder", "andOrder", "andOrder", "skip", "limit"}),
	"withOrdDef": {"asc", "desc", "skip", "limit"},
	"withSkip":   cat(reading, []string{"match", "limit", "limit"}),
	"withEnd":    cat(reading, []string{"match"}),
	"upd":        updating,
	"updSet":     cat(updating, []string{"set", "set"}),
	"merge":      cat(updating, []string{"set", "onCreate", "onMatch", "onCreate", "onMatch", "onCreate", "onMatch"}),
	"setUpd":     cat(updating, []string{"set", "setNode", "removeNode", "remove"}),
	"mergeAct":   cat(updating, []string{"set", "setNode", "removeNode", "remove", "onCreate", "onMatch", "onCreate", "onMatch"}),
	"ret":        {"order", "order", "sort", "skip", "limit", "build"},
	"retOrd":     {"andOrder", "andOrder", "skip", "limit", "build"},
	"retOrdDef":  {"asc", "desc", "skip", "limit", "build"},
	"retSkip":    {"limit", "limit", "build"},
	"end":        {"build"},
	"unwind":     {"as"},
	"acall":      {"args", "args", "yield", "yield", "build"},
	"acallA":     {"yield", "yield", "build"},
	"acallY":     {"build", "where", "where", "returning", "with", "subquery"},
	"icall":      {"args", "yield"},
	"icallA":     {"yield"},
	"icallY":     {"where", "where", "returning", "with", "subquery"},
}

func cat(a, b []string) []string { return append(append([]string{}, a...), b...) }

func can(kind, move string) bool {
	for _, m := range moves[kind] {
		if m == move {
			return true
		}
	}
	return false
}

// starter draws the first call of a statement.
func (g *G) starter(depth int) *Bd {
	switch g.n(16) {
	case 0, 1, 2, 3, 4:
		return g.matchOn(nil, depth)
	case 5, 6:
		return g.createOn(nil, "create", depth)
	case 7, 8:
		return g.createOn(nil, "merge", depth)
	case 9, 10:
		return g.withOn(nil, depth)
	case 11:
		return g.unwindOn(nil, depth)
	case 12:
		return g.returningOn(nil, depth)
	case 13:
		return g.subqueryOn(nil, depth)
	}
	return g.callOn(nil, depth)
}

func (g *G) on(b *Bd, kind, src string, cl *Cl, step func(e *Env, b interface{}) interface{}) *Bd {
	if b == nil {
		return g.start(kind, src, cl, step)
	}
	return g.extend(b, kind, "."+src, plus(b.cls, cl), step)
}

func (g *G) matchOn(b *Bd, depth int) *Bd {
	return g.matchOf(b, g.patternList(g.more(1+g.n(3)), depth-1))
}

func (g *G) matchOf(b *Bd, ps *pats) *Bd {
	op := "match"
	if g.p(35) {
		op = "optional match"
	}
	how := g.n(3)
	src := map[string]string{"match": "Match", "optional match": "OptionalMatch"}[op]
	if how == 0 {
		src = fmt.Sprintf("MatchDefault(%v, ", op != "match")
	} else {
		src += "("
	}
	if b == nil {
		src = strings.Replace(strings.Replace(src, "OptionalMatch", "AnOptionalMatch", 1), "MatchDefault", "MatchWithOption", 1)
	}
	return g.on(b, "read", src+ps.src+")", &Cl{op: op, pats: ps}, func(e *Env, b interface{}) interface{} {
		els := ps.els(e)
		if b == nil {
			switch {
			case how == 0:
				return cy.MatchWithOption(op != "match", arg(e, els)...)
			case op == "match":
				return cy.Match(arg(e, els)...)
			}
			return cy.AnOptionalMatch(arg(e, els)...)
		}
		m := b.(cy.ExposesMatch)
		switch {
		case how == 0:
			return m.MatchDefault(op != "match", arg(e, els)...)
		case op == "match":
			return m.Match(arg(e, els)...)
		}
		return m.OptionalMatch(arg(e, els)...)
	})
}

func (g *G) createOn(b *Bd, op string, depth int) *Bd {
	return g.createOf(b, op, g.patternList(g.more(1+g.n(3)), depth-1))
}

func (g *G) createOf(b *Bd, op string, ps *pats) *Bd {
	kind, src := "updSet", "Create("
	if op == "merge" {
		kind, src = "merge", "Merge("
	}
	return g.on(b, kind, src+ps.src+")", &Cl{op: op, pats: ps}, func(e *Env, b interface{}) interface{} {
		els := ps.els(e)
		switch {
		case b == nil && op == "merge":
			return cy.Merge(arg(e, els)...)
		case b == nil:
			return cy.Create(arg(e, els)...)
		case op == "merge":
			return b.(cy.ExposesMerge).Merge(arg(e, els)...)
		}
		return b.(cy.ExposesCreate).Create(arg(e, els)...)
	})
}

func (g *G) withOn(b *Bd, depth int) *Bd {
	its := g.items(g.more(1+g.n(3)), depth-1, true)
	distinct := b != nil && g.p(35)
	src := "With"
	if distinct {
		src += "Distinct"
	}
	r := g.on(b, "with", src+its.how+"("+its.src+")", &Cl{op: "with", items: its, distinct: distinct}, func(e *Env, b interface{}) interface{} {
		if b == nil {
			switch its.how {
			case "ByString":
				return cy.WithByString(arg(e, its.strs)...)
			case "ByNamed":
				return cy.WithByNamed(arg(e, its.nds(e))...)
			}
			return cy.With(arg(e, its.exs(e))...)
		}
		w := b.(cy.ExposesWith)
		switch {
		case its.how == "ByString" && distinct:
			return w.WithDistinctByString(arg(e, its.strs)...)
		case its.how == "ByString":
			return w.WithByString(arg(e, its.strs)...)
		case its.how == "ByNamed" && distinct:
			return w.WithDistinctByNamed(arg(e, its.nds(e))...)
		case its.how == "ByNamed":
			return w.WithByNamed(arg(e, its.nds(e))...)
		case distinct:
			return w.WithDistinct(arg(e, its.exs(e))...)
		}
		return w.With(arg(e, its.exs(e))...)
	})
	g.known(its)
	return r
}

func (g *G) returningOn(b *Bd, depth int) *Bd {
	its := g.items(g.more(1+g.n(3)), depth-1, true)
	if b == nil && its.how != "" && its.src != mark {
		its = g.exprItems(g.exprN(g.more(1+g.n(3)), depth-1))
	}
	return g.returningOf(b, its, b != nil && g.p(35))
}

func (g *G) returningOf(b *Bd, its *items, distinct bool) *Bd {
	src := "Returning"
	if b == nil {
		src = "CypherReturning"
	}
	if distinct {
		src += "Distinct"
	}
	r := g.on(b, "ret", src+its.how+"("+its.src+")", &Cl{op: "return", items: its, distinct: distinct}, func(e *Env, b interface{}) interface{} {
		if b == nil {
			return cy.CypherReturning(arg(e, its.exs(e))...)
		}
		w := b.(cy.ExposesReturning)
		switch {
		case its.how == "ByString" && distinct:
			return w.ReturningDistinctByString(arg(e, its.strs)...)
		case its.how == "ByString":
			return w.ReturningByString(arg(e, its.strs)...)
		case its.how == "ByNamed" && distinct:
			return w.ReturningDistinctByNamed(arg(e, its.nds(e))...)
		case its.how == "ByNamed":
			return w.ReturningByNamed(arg(e, its.nds(e))...)
		case distinct:
			return w.ReturningDistinct(arg(e, its.exs(e))...)
		}
		return w.Returning(arg(e, its.exs(e))...)
	})
	g.known(its)
	return r
}

func (g *G) unwindOn(b *Bd, depth int) *Bd {
	cl := &Cl{op: "unwind"}
	how := g.n(4)
	if how == 2 && b == nil {
		how = 3
	}
	switch how {
	case 0, 1:
		xs := g.exprN(g.more(1+g.n(3)), depth-1)
		cl.items = &items{exprs: xs, src: srcs(xs), cns: []func(s *Sc) *N{func(s *Sc) *N { return n("list", "", s.exs(xs)...) }}}
		name := "Unwinds("
		if b == nil {
			name = "UnwindMulti("
		}
		return g.on(b, "unwind", name+cl.items.src+")", cl, func(e *Env, b interface{}) interface{} {
			if b == nil {
				return cy.UnwindMulti(arg(e, e.exs(xs))...)
			}
			return b.(cy.ExposesUnwind).Unwinds(arg(e, e.exs(xs))...)
		})
	case 2:
		v := g.name()
		cl.items = &items{cns: []func(s *Sc) *N{func(s *Sc) *N { return n("var", v) }}}
		return g.on(b, "unwind", "UnwindByString("+q(v)+")", cl, func(e *Env, b interface{}) interface{} {
			return b.(cy.ExposesUnwind).UnwindByString(v)
		})
	}
	x := g.given(depth - 1)
	if len(g.aliases) > 0 && g.p(30) {
		g.count("alias unwound")
		x = pick(g, g.aliases).ex
	}
	cl.items = g.exprItems([]*Ex{x})
	return g.on(b, "unwind", "Unwind("+x.src+")", cl, func(e *Env, b interface{}) interface{} {
		if b == nil {
			return cy.Unwind(e.ex(x))
		}
		return b.(cy.ExposesUnwind).Unwind(e.ex(x))
	})
}

func (g *G) subqueryOn(b *Bd, depth int) *Bd {
	var sub *St
	if g.long || depth < 0 {
		// keep it finite
		prefer, long, large := g.prefer, g.long, g.large
		defer func() { g.prefer, g.long, g.large = prefer, long, large }()
		g.prefer, g.long, g.large = nil, false, 0
	}
	if g.site == "" && g.bad("nil") {
		sub = &St{id: g.id(), src: "nil" + mark, mk: func(*Env) (cy.Statement, error) { return nil, nil }}
	} else if g.site == "" && g.bad("zero") {
		z := g.emptyStatement()
		sub = &St{id: g.id(), src: fmt.Sprintf("%T{}", z) + mark, mk: func(*Env) (cy.Statement, error) { return z, nil }}
	} else if g.bad("no return") {
		for sub == nil || returns(sub.bd) {
			sub = g.query(depth-1, 5, false)
		}
		sub.src += mark
	} else {
		sub = g.statement(depth-1, 5, true)
		if len(sub.aliases) > 0 && g.p(60) {
			// known behind the subquery
			g.count("alias of a member of a union used outside")
			g.aliases = append(g.aliases[:len(g.aliases):len(g.aliases)], sub.aliases...)
		}
	}
	name := "Call("
	if b == nil {
		name = "ACallByStatement("
	}
	return g.on(b, "read0", name+sub.src+")", &Cl{op: "call subquery", sub: sub}, func(e *Env, b interface{}) interface{} {
		if b == nil {
			return cy.ACallByStatement(e.must(sub))
		}
		return b.(cy.ExposesSubqueryCall).Call(e.must(sub))
	})
}

var procNames = [][]string{{"db", "labels"}, {"dbms", "procedures"}, {"apoc", "load", "json"}, {"a", "b", "c", "d", "e"}, {"proc"}, {"foo", "bar"}, {"db", "index", "fulltext", "queryNodes"}, {"größe", "x1"}, {"db", "propertyKeys"}}

func (g *G) callOn(b *Bd, depth int) *Bd {
	name := procNames[g.n(len(procNames))]
	if g.p(4) {
		name = append([]string{}, name...)
		if s := g.word(); identifier(s) && !isReserved(s) {
			name[g.n(len(name))] = s
		}
	}
	if s := g.usedName(); g.invalid == "" && identifier(s) && !isReserved(s) {
		name = append([]string{}, name...)
		if g.p(50) {
			name = name[:1]
		}
		name[g.n(len(name))] = s
	}
	for _, s := range name {
		g.use(s)
	}
	if g.bad("procedure") {
		name = append([]string{}, name...)
		if g.p(30) {
			name = []string{""}
		} else {
			name[g.n(len(name))] = ""
		}
	}
	if g.bad("nothing") {
		cl := &Cl{op: "call"}
		if b == nil {
			return g.start("acall", "ACall("+mark+")", cl, func(e *Env, b interface{}) interface{} { return cy.ACall() })
		}
		return g.on(b, "icall", "Call1("+mark+")", cl, func(e *Env, b interface{}) interface{} { return b.(cy.OngoingReading).Call1() })
	}
	cl := &Cl{op: "call", name: name}
	if b == nil {
		if g.p(30) && (!(g.invalid == "procedure" && g.spoiled) || len(name) == 1) {
			return g.start("acall", "ACallSimple("+q(strings.Join(name, "."))+")", cl, func(e *Env, b interface{}) interface{} { return cy.ACallSimple(strings.Join(name, ".")) })
		}
		return g.start("acall", "ACall("+qs(name)+")", cl, func(e *Env, b interface{}) interface{} { return cy.ACall(arg(e, name)...) })
	}
	return g.on(b, "icall", "Call1("+qs(name)+")", cl, func(e *Env, b interface{}) interface{} {
		return b.(cy.OngoingReading).Call1(arg(e, name)...)
	})
}

// move draws one more call.
func (g *G) move(b *Bd, depth int) *Bd {
	ms := moves[b.kind]
	if b.kind == "read0" {
		// after a subquery there is nothing that could have a condition
		ms = cat(reading, []string{"match", "match"})
	}
	if len(g.prefer) > 0 && g.p(g.preferP) {
		var liked []string
		for _, m := range ms {
			for _, p := range g.prefer {
				if m == p {
					liked = append(liked, m)
				}
			}
		}
		if len(liked) > 0 {
			ms = liked
		}
	}
	return g.moveTo(b, ms[g.n(len(ms))], depth)
}

func nextKind(kind, suffix string) string {
	if strings.HasPrefix(kind, "ret") {
		return "ret" + suffix
	}
	return "with" + suffix
}

func (g *G) moveTo(b *Bd, m string, depth int) *Bd {
	ret := strings.HasPrefix(b.kind, "ret")
	switch m {
	case "match":
		return g.matchOn(b, depth)
	case "create", "merge":
		return g.createOn(b, m, depth)
	case "with":
		return g.withOn(b, depth)
	case "returning":
		return g.returningOn(b, depth)
	case "unwind":
		return g.unwindOn(b, depth)
	case "subquery":
		return g.subqueryOn(b, depth)
	case "call":
		return g.callOn(b, depth)
	case "as":
		v := g.name()
		return g.extend(b, "reading", ".As("+q(v)+")", changed(b.cls, func(c *Cl) { c.as = v }), func(e *Env, b interface{}) interface{} {
			return b.(cy.OngoingUnwind).As(v)
		})
	case "where", "and", "or":
		return g.whereOn(b, m, depth)
	case "order", "andOrder":
		x := g.given(depth - 1)
		name := map[string]string{"ordertrue": ".OrderBy(", "orderfalse": ".OrderByExpression(", "andOrdertrue": ".And(", "andOrderfalse": ".And1("}[m+strconv.FormatBool(ret)]
		return g.extend(b, nextKind(b.kind, "OrdDef"), name+x.src+")", changed(b.cls, func(c *Cl) { c.order = append(append([]srt{}, c.order...), srt{x, ""}) }),
			func(e *Env, b interface{}) interface{} {
				v := e.ex(x)
				switch m + strconv.FormatBool(ret) {
				case "ordertrue":
					return b.(cy.TerminalExposesOrderBy).OrderBy(v)
				case "orderfalse":
					return b.(cy.ExposesOrderBy).OrderByExpression(v)
				case "andOrdertrue":
					return b.(cy.OngoingMatchAndReturnWithOrder).And(v)
				}
				return b.(cy.OngoingReadingAndWithWithWhereAndOrder).And1(v)
			})
	case "asc", "desc":
		return g.extend(b, nextKind(b.kind, "Ord"), map[string]string{"asc": ".Ascending()", "desc": ".Descending()"}[m],
			changed(b.cls, func(c *Cl) {
				o := append([]srt{}, c.order...)
				o[len(o)-1].dir = strings.ToUpper(m)
				c.order = o
			}), func(e *Env, b interface{}) interface{} {
				switch {
				case ret && m == "asc":
					return b.(cy.TerminalOngoingOrderDefinition).Ascending()
				case ret:
					return b.(cy.TerminalOngoingOrderDefinition).Descending()
				case m == "asc":
					return b.(cy.OngoingOrderDefinition).Ascending()
				}
				return b.(cy.OngoingOrderDefinition).Descending()
			})
	case "sort":
		var so []srt
		var raw []bool
		var before []int
		var ss []string
		allRaw := g.p(12)
		var rawSrc []string
		for i := g.more(1 + g.n(3)); i > 0; i-- {
			d := []string{"", "ASC", "DESC"}[g.n(3)]
			if allRaw {
				t := []string{"name", "a", "x.y", "größe", "n"}[g.n(5)]
				x := g.mk(q(t), func(*Env) cy.Expression { return cy.LiteralOf(t) }, func(*Sc) *N { return n("str", t) })
				so = append(so, srt{x, d})
				rawSrc = append(rawSrc, strings.TrimSpace(t+" "+d))
				continue
			}
			x := g.given(depth - 1)
			so = append(so, srt{x, d})
			raw = append(raw, g.p(50))
			before = append(before, 0)
			if g.site == "" && g.bad("zero") {
				before[len(before)-1] = -1
				ss = append(ss, "SortItem{}"+mark)
				continue
			}
			if d != "" && g.p(12) {
				// given another direction before, the last one counts
				before[len(before)-1] = 1 + g.n(3)
			}
			ss = append(ss, "Sort("+x.src+")"+[]string{"", ".Ascending()", ".Descending()", ".Descending().Ascending()"}[before[len(before)-1]]+map[string]string{"": "", "ASC": ".Ascending()", "DESC": ".Descending()"}[d])
		}
		_ = raw
		src := strings.Join(ss, ", ")
		if allRaw {
			src = "SortItemsOfRaw(" + qs(rawSrc) + ")..."
		}
		kind := "withW"
		if ret {
			kind = "retOrd"
		} else if b.cls[len(b.cls)-1].w == nil {
			kind = "withS"
		}
		return g.extend(b, kind, ".OrderBySortItem("+src+")", changed(b.cls, func(c *Cl) { c.order = append(append([]srt{}, c.order...), so...) }),
			func(e *Env, b interface{}) interface{} {
				var items []cy.SortItem
				if allRaw {
					items = cy.SortItemsOfRaw(arg(e, rawSrc)...)
				} else {
					for i, o := range so {
						var it cy.SortItem
						x := e.ex(o.x)
						type dirs interface {
							Ascending() cy.SortItem
							Descending() cy.SortItem
						}
						d, is := x.(dirs)
						if before[i] < 0 {
							items = append(items, it)
							continue
						}
						switch {
						case before[i] > 0:
							switch {
							case before[i] == 1 && raw[i] && is:
								it = d.Ascending()
							case before[i] == 1:
								it = cy.Sort(x).Ascending()
							case raw[i] && is:
								it = d.Descending()
							default:
								it = cy.Sort(x).Descending()
							}
							if before[i] == 3 {
								it = it.Ascending()
							}
							if o.dir == "ASC" {
								it = it.Ascending()
							} else {
								it = it.Descending()
							}
						case o.dir == "":
							it = cy.Sort(x)
						case o.dir == "ASC" && raw[i] && is:
							it = d.Ascending()
						case o.dir == "ASC":
							it = cy.Sort(x).Ascending()
						case raw[i] && is:
							it = d.Descending()
						default:
							it = cy.Sort(x).Descending()
						}
						items = append(items, it)
					}
				}
				if ret {
					return b.(cy.TerminalExposesOrderBy).OrderBySortItem(arg(e, items)...)
				}
				return b.(cy.ExposesOrderBy).OrderBySortItem(arg(e, items)...)
			})
	case "skip":
		k := g.skipN()
		note := ""
		if g.bad("skip") {
			k, note = -1-g.n(3)*g.n(1000000), mark
		}
		return g.extend(b, nextKind(b.kind, "Skip"), fmt.Sprintf(".Skip(%d%s)", k, note), changed(b.cls, func(c *Cl) { c.skip = numOf(int64(k)) }),
			func(e *Env, b interface{}) interface{} {
				if ret {
					return b.(cy.TerminalExposesSkip).Skip(k)
				}
				return b.(cy.ExposesSkip).Skip(k)
			})
	case "limit":
		k := g.skipN() + 1
		note := ""
		if g.bad("limit") {
			k, note = -g.n(3)*g.n(1000000), mark
		}
		kind := "withEnd"
		if ret {
			kind = "end"
		}
		return g.extend(b, kind, fmt.Sprintf(".Limit(%d%s)", k, note), changed(b.cls, func(c *Cl) { c.limit = numOf(int64(k)) }),
			func(e *Env, b interface{}) interface{} {
				if ret {
					return b.(cy.TerminalExposesLimit).Limit(k)
				}
				return b.(cy.ExposesLimit).Limit(k)
			})
	case "delete":
		detach := g.p(45)
		its := g.items(g.more(1+g.n(3)), depth-1, false)
		op, src := "delete", ".Delete"
		if detach {
			op, src = "detach delete", ".DetachDelete"
		}
		return g.extend(b, "upd", src+its.how+"("+its.src+")", plus(b.cls, &Cl{op: op, items: its}), func(e *Env, b interface{}) interface{} {
			d := b.(cy.ExposesDelete)
			switch {
			case its.how == "ByString" && detach:
				return d.DetachDeleteByString(arg(e, its.strs)...)
			case its.how == "ByString":
				return d.DeleteByString(arg(e, its.strs)...)
			case its.how == "ByNamed" && detach:
				return d.DetachDeleteByNamed(arg(e, its.nds(e))...)
			case its.how == "ByNamed":
				return d.DeleteByNamed(arg(e, its.nds(e))...)
			case detach:
				return d.DetachDelete(arg(e, its.exs(e))...)
			}
			return d.Delete(arg(e, its.exs(e))...)
		})
	case "set":
		if g.p(25) {
			f, cn, src := g.namedGiven()
			v := g.given(depth - 1)
			si := &setItems{cns: []func(s *Sc) *N{func(s *Sc) *N { a := cn(s); return n("assign", "=", a, s.ex(v)) }}}
			return g.extend(b, "setUpd", ".SetWithNamed("+src+", "+v.src+")", plus(b.cls, &Cl{op: "set", set: si}), func(e *Env, b interface{}) interface{} {
				return b.(cy.ExposesSet).SetWithNamed(f(e), e.ex(v))
			})
		}
		si := g.setItems(g.more(1+g.n(3)), depth-1)
		return g.extend(b, "setUpd", ".Set("+si.src+")", plus(b.cls, &Cl{op: "set", set: si}), func(e *Env, b interface{}) interface{} {
			return b.(cy.ExposesSet).Set(arg(e, si.exs(e))...)
		})
	case "setNode", "removeNode":
		nd, ls := g.aNode(), g.labels()
		si := &setItems{cns: []func(s *Sc) *N{func(s *Sc) *N { return labelsOf(s.symOf(nd.sym, nd.name), ls) }}}
		op, src := "set", ".SetByNode("
		if m == "removeNode" {
			op, src = "remove", ".RemoveByNode("
		}
		return g.extend(b, "setUpd", src+nd.ref()+", "+showLabels(ls)+")", plus(b.cls, &Cl{op: op, set: si}), func(e *Env, b interface{}) interface{} {
			if m == "removeNode" {
				return b.(cy.ExposesSetAndRemove).RemoveByNode(e.node(nd), arg(e, ls)...)
			}
			return b.(cy.ExposesSetAndRemove).SetByNode(e.node(nd), arg(e, ls)...)
		})
	case "remove":
		var ps []*Ex
		si := &setItems{}
		note := ""
		if g.bad("nothing") {
			note = mark
		}
		for i := g.more(1 + g.n(3)); i > 0 && note == ""; i-- {
			p := g.property()
			ps = append(ps, p)
			si.cns = append(si.cns, func(s *Sc) *N { return s.ex(p) })
		}
		return g.extend(b, "setUpd", ".Remove("+srcs(ps)+note+")", plus(b.cls, &Cl{op: "remove", set: si}), func(e *Env, b interface{}) interface{} {
			var props []cy.Property
			for _, p := range ps {
				props = append(props, e.ex(p).(cy.Property))
			}
			return b.(cy.ExposesSetAndRemove).Remove(arg(e, props)...)
		})
	case "onCreate", "onMatch":
		on := func(b interface{}) cy.OngoingMergeAction {
			if m == "onCreate" {
				return b.(cy.ExposesMergeAction).OnCreate()
			}
			return b.(cy.ExposesMergeAction).OnMatch()
		}
		op, src := "on create", ".OnCreate()"
		if m == "onMatch" {
			op, src = "on match", ".OnMatch()"
		}
		if g.p(20) {
			f, cn, nsrc := g.namedGiven()
			v := g.given(depth - 1)
			si := &setItems{cns: []func(s *Sc) *N{func(s *Sc) *N { a := cn(s); return n("assign", "=", a, s.ex(v)) }}}
			return g.extend(b, "mergeAct", src+".SetWithNamed("+nsrc+", "+v.src+")", changed(b.cls, func(c *Cl) { c.acts = append(append([]act{}, c.acts...), act{op, si}) }),
				func(e *Env, b interface{}) interface{} { return on(b).SetWithNamed(f(e), e.ex(v)) })
		}
		si := g.setItems(g.more(1+g.n(2)), depth-1)
		return g.extend(b, "mergeAct", src+".Set("+si.src+")", changed(b.cls, func(c *Cl) { c.acts = append(append([]act{}, c.acts...), act{op, si}) }),
			func(e *Env, b interface{}) interface{} { return on(b).Set(arg(e, si.exs(e))...) })
	case "args":
		xs := g.exprN(g.more(1+g.n(3)), depth-1)
		if g.usedP > 10 && g.p(50) {
			xs = []*Ex{g.oneOf(func(int) *Ex { return g.param() }, func(int) *Ex { return g.variable() }, func(int) *Ex { return g.str() })(0)}
		}
		kind := "acallA"
		if b.kind == "icall" {
			kind = "icallA"
		}
		if g.p(8) {
			// none
			g.count("call: explicitly without arguments")
			none, src := []cy.Expression(nil), ".WithArgs()"
			if g.p(50) {
				none, src = []cy.Expression{}, ".WithArgs([]cypher.Expression{}...)"
			}
			return g.extend(b, kind, src, changed(b.cls, func(c *Cl) { c.items = nil }), func(e *Env, b interface{}) interface{} {
				if kind == "acallA" {
					return b.(cy.OngoingStandaloneCallWithoutArguments).WithArgs(none...)
				}
				return b.(cy.OngoingInQueryCallWithoutArguments).WithArgs(none...)
			})
		}
		return g.extend(b, kind, ".WithArgs("+srcs(xs)+")", changed(b.cls, func(c *Cl) { c.items = g.exprItems(xs) }), func(e *Env, b interface{}) interface{} {
			if kind == "acallA" {
				return b.(cy.OngoingStandaloneCallWithoutArguments).WithArgs(arg(e, e.exs(xs))...)
			}
			return b.(cy.OngoingInQueryCallWithoutArguments).WithArgs(arg(e, e.exs(xs))...)
		})
	case "yield":
		return g.yieldOn(b)
	}
	return nil
}

func (g *G) skipN() int {
	return []int{0, 1, 2, 5, 10, 100, 1000000, 21000000, 9007199254740993}[g.n(9)]
}

func (g *G) yieldOn(b *Bd) *Bd {
	kind := "icallY"
	if strings.HasPrefix(b.kind, "acall") {
		kind = "acallY"
	}
	type yielder interface {
		YieldSymbolic(name ...cy.SymbolicName) cy.OngoingStandaloneCallWithReturnFields
		YieldString(yieldedItems ...string) cy.OngoingStandaloneCallWithReturnFields
		Yield(aliasedResultFields ...cy.AliasedExpression) cy.OngoingStandaloneCallWithReturnFields
	}
	type inYielder interface {
		YieldSymbolic(name ...cy.SymbolicName) cy.OngoingInQueryCallWithReturnFields
		YieldString(yieldedItems ...string) cy.OngoingInQueryCallWithReturnFields
		Yield(aliasedResultFields ...cy.AliasedExpression) cy.OngoingInQueryCallWithReturnFields
	}
	k, note := g.more(1+g.n(3)), ""
	if g.bad("nothing") {
		k, note = 0, mark
	}
	its := &items{}
	how := g.n(3)
	if g.noAlias {
		how = g.n(2)
	}
	if how < 2 {
		vs := g.names(k)
		src := ".YieldString(" + qs(vs) + note + ")"
		var syms []symbolic
		if how == 1 {
			var ss []string
			for _, v := range vs {
				syms = append(syms, g.sharedSymbolic(v))
				ss = append(ss, syms[len(syms)-1].src)
			}
			src = ".YieldSymbolic(" + strings.Join(ss, ", ") + note + ")"
		}
		for i, v := range vs {
			name := v
			if how == 1 {
				name = syms[i].name
			}
			its.cns = append(its.cns, func(*Sc) *N { return n("var", name) })
		}
		return g.extend(b, kind, src, changed(b.cls, func(c *Cl) { c.yields = its }), func(e *Env, b interface{}) interface{} {
			var names []cy.SymbolicName
			for _, s := range syms {
				names = append(names, s.get())
			}
			switch {
			case kind == "acallY" && how == 0:
				return b.(yielder).YieldString(arg(e, vs)...)
			case kind == "acallY":
				return b.(yielder).YieldSymbolic(arg(e, names)...)
			case how == 0:
				return b.(inYielder).YieldString(arg(e, vs)...)
			}
			return b.(inYielder).YieldSymbolic(arg(e, names)...)
		})
	}
	var als []*Al
	for i := 0; i < k; i++ {
		al := g.aliasNamed(g.variable(), g.name())
		als = append(als, al)
		its.exprs = append(its.exprs, al.ex)
		its.cns = append(its.cns, func(s *Sc) *N { return s.ex(al.ex) })
	}
	its.defined = als
	r := g.extend(b, kind, ".Yield("+srcs(its.exprs)+note+")", changed(b.cls, func(c *Cl) { c.yields = its }), func(e *Env, b interface{}) interface{} {
		var as []cy.AliasedExpression
		for _, x := range its.exprs {
			as = append(as, e.ex(x).(cy.AliasedExpression))
		}
		if kind == "acallY" {
			return b.(yielder).Yield(arg(e, as)...)
		}
		return b.(inYielder).Yield(arg(e, as)...)
	})
	g.known(its)
	return r
}

// whereOn adds or refines a condition.
func (g *G) whereOn(b *Bd, m string, depth int) *Bd {
	last := b.cls[len(b.cls)-1]
	st := step{}
	if m != "where" {
		st.op = strings.ToUpper(m)
	}
	var model cm
	if !g.noPat && g.p(15) {
		st.pt = g.givenPath(depth - 1)
	} else {
		st.x = g.condMaybeEmpty(depth - 1)
		model = *st.x.cm
	}
	c := &chain{}
	if last.w != nil {
		*c = *last.w
		c.steps = append([]step{}, c.steps...)
	}
	if m == "where" {
		c.model = model
	} else {
		next, finding := combineCM(&c.model, st.op, &model)
		if finding {
			g.count("excluded: recorded finding")
			return nil
		}
		c.model = next
	}
	c.steps = append(c.steps, st)
	src := map[string]string{"where": ".Where", "and": ".And", "or": ".Or"}[m]
	container := m == "where" && st.pt == nil && !strings.HasPrefix(b.kind, "with") && !st.x.isEmpty() && g.p(20)
	switch {
	case st.pt != nil:
		src += "Pattern(" + st.pt.src + ")"
	case container:
		src += "ConditionContainer(" + st.x.src + " as container)"
	default:
		src += "(" + st.x.src + ")"
	}
	kind := "readW"
	with := strings.HasPrefix(b.kind, "with")
	if with {
		kind = "withW"
	}
	return g.extend(b, kind, src, changed(b.cls, func(cl *Cl) { cl.w = c }), func(e *Env, b interface{}) interface{} {
		if with {
			if m == "where" {
				w := b.(cy.OrderableOngoingReadingAndWithWithoutWhere)
				if st.pt != nil {
					return w.WherePattern(e.pattern(st.pt))
				}
				return w.Where(e.cond(st.x))
			}
			w := b.(cy.OrderableOngoingReadingAndWithWithWhere)
			switch {
			case st.op == "AND" && st.pt != nil:
				return w.AndPattern(e.pattern(st.pt))
			case st.op == "AND":
				return w.And(e.cond(st.x))
			case st.pt != nil:
				return w.OrPattern(e.pattern(st.pt))
			}
			return w.Or(e.cond(st.x))
		}
		if m == "where" {
			w := b.(cy.ExposesWhere)
			if st.pt != nil {
				return w.WherePattern(e.pattern(st.pt))
			}
			if container {
				return w.WhereConditionContainer(cy.ConditionWrap(e.cond(st.x)))
			}
			return w.Where(e.cond(st.x))
		}
		return stepOnMatch(e, b.(cy.OngoingReadingWithWhere), st)
	})
}

// ---- statements

func (g *G) finish(b *Bd) *St {
	return &St{id: g.id(), src: b.src + ".Build()", mk: func(e *Env) (cy.Statement, error) {
		return e.bd(b).(cy.BuildableStatement).Build()
	}, cn: clsN(b.cls), cls: b.cls, returns: returns(b)}
}

// returns tells whether a statement ends with RETURN or YIELD.
func returns(b *Bd) bool {
	last := b.cls[len(b.cls)-1]
	if len(b.cls) == 1 && last.op == "call" {
		return last.yields != nil
	}
	return last.op == "return"
}

// longWalks are calls that can follow one another for any time.
var longWalks = [][]string{{"match"}, {"match", "where", "and", "or"}, {"match", "unwind"}, {"create"}, {"create", "merge"}, {"merge", "set", "onCreate", "onMatch"}, {"delete"}, {"with"},
	{"with", "order", "andOrder", "skip", "limit"}, {"unwind"}, {"subquery"}, {"call", "yield", "with"}, {"set"}, {"setNode", "removeNode"}, {"and", "or"}, {"andOrder", "asc", "desc"}, {"onCreate", "onMatch"}}

// grow adds calls, at most max of them.
func (g *G) grow(b *Bd, depth, max int) *Bd {
	k := g.more(g.n(max + 1))
	if k > max+8 && g.p(80) {
		// very many calls of few kinds
		g.count("many calls of few kinds")
		prefer, preferP, long := g.prefer, g.preferP, g.long
		defer func() { g.prefer, g.preferP, g.long = prefer, preferP, long }()
		g.prefer, g.preferP, g.long = nil, 99, true
		if depth > 1 {
			depth = 1
		}
		for i := 1 + g.n(3); i > 0; i-- {
			g.prefer = append(g.prefer, longWalks[g.n(len(longWalks))]...)
		}
	}
	for i := k; i > 0 && !g.enough(); i-- {
		var next *Bd
		for try := 0; try < 3 && next == nil; try++ {
			next = g.move(b, depth)
		}
		if next == nil {
			break
		}
		b = next
	}
	return b
}

// complete adds what is missing until the statement can be built.
func (g *G) complete(b *Bd, depth int, returning bool) *Bd {
	for {
		if returning && !returns(b) {
			switch {
			case can(b.kind, "returning") || b.kind == "read0" || b.kind == "withS":
				b = g.returningOn(b, depth)
			case b.kind == "unwind":
				b = g.moveTo(b, "as", depth)
			case b.kind == "withOrdDef":
				b = g.moveTo(b, "asc", depth)
			default:
				b = g.yieldOn(b)
			}
			continue
		}
		if can(b.kind, "build") {
			return b
		}
		switch {
		case b.kind == "unwind":
			b = g.moveTo(b, "as", depth)
		case b.kind == "withOrdDef":
			b = g.moveTo(b, "asc", depth)
		case strings.HasPrefix(b.kind, "icall") && b.kind != "icallY":
			b = g.yieldOn(b)
		case g.p(25) && can(b.kind, "delete"):
			b = g.moveTo(b, []string{"delete", "set", "merge", "create"}[g.n(4)], depth)
		default:
			b = g.returningOn(b, depth)
		}
	}
}

// query draws a statement that is no union.
func (g *G) query(depth, max int, returning bool) *St {
	b := g.complete(g.grow(g.starter(depth), depth, max), depth, returning)
	st := g.finish(b)
	st.returns, st.bd = returns(b), b
	return st
}

// statement draws any statement.
func (g *G) statement(depth, max int, returning bool) *St {
	if depth > 0 && g.p(8) {
		return g.union(depth-1, max)
	}
	return g.query(depth, max, returning)
}

// pools are the elements that may be used again.
type pools struct {
	nodes, bases  []*Nd
	rels, basePts []*Pt
	paths         []*Np
	pool, leaves  []*Ex
	recent, props []*Ex
	aliases       []*Al
	cases         []*cs
	whens         []*wh
	stems         []*stem
	cuts          []*Bd
	olds          []*Al
}

// cap makes sure that appending to the pools does not change others.
func (p pools) cap() pools {
	return pools{p.nodes[:len(p.nodes):len(p.nodes)], p.bases[:len(p.bases):len(p.bases)], p.rels[:len(p.rels):len(p.rels)], p.basePts[:len(p.basePts):len(p.basePts)],
		p.paths[:len(p.paths):len(p.paths)], p.pool[:len(p.pool):len(p.pool)], p.leaves[:len(p.leaves):len(p.leaves)], p.recent[:len(p.recent):len(p.recent)], p.props[:len(p.props):len(p.props)], p.aliases[:len(p.aliases):len(p.aliases)], p.cases[:len(p.cases):len(p.cases)],
		p.whens[:len(p.whens):len(p.whens)], p.stems[:len(p.stems):len(p.stems)], p.cuts[:len(p.cuts):len(p.cuts)], p.olds[:len(p.olds):len(p.olds)]}
}

// fresh runs f without the elements drawn so far, and forgets the ones drawn by f.
func (g *G) fresh(f func()) {
	before := g.pools
	g.pools = pools{}
	f()
	g.pools = before
}

// unionOf unites statements, members that are unions themselves are extended.
func (g *G) unionOf(all bool, sts []*St) *St {
	u := &St{id: g.id(), returns: true, union: true, all: all}
	var ss []string
	for _, st := range sts {
		ss = append(ss, st.src)
		if st.union {
			u.members = append(u.members, st.members...)
		} else {
			u.members = append(u.members, st)
		}
	}
	u.src = map[bool]string{false: "Union(", true: "UnionAll("}[all] + strings.Join(ss, ", ") + ")"
	u.mk = func(e *Env) (cy.Statement, error) {
		var ms []cy.Statement
		for _, st := range sts {
			m, err := e.stmt(st)
			if err != nil {
				return nil, err
			}
			ms = append(ms, m)
		}
		var r cy.Statement
		if all {
			r = cy.UnionAll(arg(e, ms)...)
		} else {
			r = cy.Union(arg(e, ms)...)
		}
		return r, r.GetError()
	}
	u.cn = func(s *Sc) *N {
		x := n("union", "UNION")
		if all {
			x.Val = "UNION ALL"
		}
		before, after := s.copy(), s.copy()
		for _, m := range u.members {
			// they share the nodes, but not the aliases
			s.defined, s.deleg, s.pending = before.copy().defined, before.copy().deleg, nil
			x.Kids = append(x.Kids, m.cn(s))
			after.add(s)
		}
		s.defined, s.deleg = after.defined, after.deleg
		return x
	}
	return u
}

// forgetAliases ends the scope of aliases. What has been defined may be defined again.
func (g *G) forgetAliases() {
	for _, al := range g.aliases {
		if al.of != nil && !strings.Contains(al.of.src, ".As(") && len(g.olds) < 6 {
			g.olds = append(g.olds, al)
		}
	}
	g.aliases, g.stems, g.cases, g.whens = nil, nil, nil, nil
	g.pool = without(g.pool, func(x *Ex) string { return x.src })
	g.leaves = without(g.leaves, func(x *Ex) string { return x.src })
	g.recent = without(g.recent, func(x *Ex) string { return x.src })
	g.props = without(g.props, func(x *Ex) string { return x.src })
	node, pt := func(x *Nd) string { return x.src }, func(x *Pt) string { return x.src }
	g.nodes, g.bases = without(g.nodes, node), without(g.bases, node)
	g.rels, g.basePts = without(g.rels, pt), without(g.basePts, pt)
	g.paths = without(g.paths, func(x *Np) string { return x.src })
}

// without gives the elements that mention no aliased expression: they may mention one that is defined in a scope that has ended.
func without[T any](xs []T, src func(T) string) (r []T) {
	for _, x := range xs {
		if !strings.Contains(src(x), ".As(") {
			r = append(r, x)
		}
	}
	return r
}

// union draws UNION and UNION ALL of statements that have no aliases in common.
func (g *G) union(depth, max int) *St {
	all := g.p(50)
	if g.bad("few") {
		var ms []*St
		if g.p(60) {
			g.fresh(func() { ms = append(ms, g.query(depth, max, true)) })
		}
		x := g.unionOf(all, ms)
		x.src += mark
		return x
	}
	if g.site == "" && g.bad("zero") {
		ms := make([]*St, 1+g.n(2))
		for i := range ms {
			g.fresh(func() { ms[i] = g.query(depth, max, true) })
		}
		i := g.n(len(ms) + 1)
		z := g.emptyStatement()
		ms = append(ms[:i:i], append([]*St{{id: g.id(), src: fmt.Sprintf("%T{}", z) + mark, mk: func(*Env) (cy.Statement, error) { return z, nil }}}, ms[i:]...)...)
		return g.unionOf(all, ms)
	}
	if g.site == "" && g.bad("nil") {
		ms := make([]*St, 1+g.n(2))
		for i := range ms {
			g.fresh(func() { ms[i] = g.query(depth, max, true) })
		}
		i := g.n(len(ms) + 1)
		ms = append(ms[:i:i], append([]*St{{id: g.id(), src: "nil" + mark, mk: func(*Env) (cy.Statement, error) { return nil, nil }}}, ms[i:]...)...)
		return g.unionOf(all, ms)
	}
	if g.bad("union") {
		var ms []*St
		for i := 0; i < 4; i++ {
			g.fresh(func() { ms = append(ms, g.query(depth, max, true)) })
		}
		u := []*St{g.unionOf(!all, ms[:2]), ms[2], ms[3]}
		i := g.n(len(u))
		u[0], u[i] = u[i], u[0]
		x := g.unionOf(all, u)
		x.src += mark
		return x
	}
	var ms []*St
	var als []*Al
	g.fresh(func() {
		for i := g.more(2 + g.n(3)); i > 0; i-- {
			if g.p(20) {
				// with the nodes of the ones before
				ms = append(ms, g.query(depth, max, true))
				g.forgetAliases()
				continue
			}
			if len(ms) > 0 && g.p(12) {
				// the same one again
				g.count("union of the same query")
				ms = append(ms, ms[g.n(len(ms))])
				continue
			}
			g.fresh(func() {
				ms = append(ms, g.query(depth, max, true))
				if als == nil || g.p(50) {
					als = g.aliases
				}
			})
		}
	})
	// some of them may be a union already
	if len(ms) > 2 && g.p(50) {
		k := 2 + g.n(len(ms)-2)
		if g.p(60) {
			ms = append([]*St{g.unionOf(all, ms[:k])}, ms[k:]...)
		} else {
			k = len(ms) - k
			ms = append(append([]*St{}, ms[:k]...), g.unionOf(all, ms[k:]))
		}
	}
	u := g.unionOf(all, ms)
	u.aliases = als
	return u
}
