package harness

import (
	"fmt"
	"strconv"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// Nd describes a node.
type Nd struct {
	id, sym int
	name    string
	labels  []string
	props   *entries
	parent  *Nd // the node it is derived from
	mk      func(*Env, cy.Node) cy.Node
	src     string
}

func (x *Nd) ref() string { return x.src }

func (e *Env) node(x *Nd) cy.Node {
	if v, ok := e.memo[x.id]; ok {
		return v.(cy.Node)
	}
	var parent cy.Node
	if x.parent != nil {
		parent = e.node(x.parent)
	}
	v := x.mk(e, parent)
	e.memo[x.id] = v
	e.before()
	return v
}

func (e *Env) named(xs []*Nd) []cy.Named {
	r := make([]cy.Named, len(xs))
	for i, x := range xs {
		if x != nil {
			r[i] = e.node(x)
		}
	}
	return r
}

func ndSrcs(xs []*Nd) string {
	r := make([]string, len(xs))
	for i, x := range xs {
		r[i] = "nil" + mark
		if x != nil {
			r[i] = x.ref()
		}
	}
	return strings.Join(r, ", ")
}

func (s *Sc) namedRefs(xs []*Nd) []*N {
	r := make([]*N, len(xs))
	for i, x := range xs {
		r[i] = s.symOf(x.sym, x.name)
	}
	return r
}

func (s *Sc) node(x *Nd) *N {
	labels, props := n("labels", ""), none
	if x.name == "" || !s.seen[x.id] {
		if x.name != "" {
			s.seen[x.id] = true
		}
		for _, l := range x.labels {
			labels.Kids = append(labels.Kids, n("label", l))
		}
		if x.props != nil {
			props = x.props.cn(s)
		}
	}
	r := n("node", x.name, labels, props)
	if as := s.deleg[x.sym]; x.name != "" && len(as) > 0 {
		r = n("alt", "", r)
		for _, a := range as {
			r.Kids = append(r.Kids, n("node", a, labels, props))
		}
	}
	return r
}

func (g *G) names(k int) []string {
	r := make([]string, k)
	for i := range r {
		r[i] = g.name()
	}
	return r
}

func qs(ss []string) string {
	r := make([]string, len(ss))
	for i, s := range ss {
		r[i] = q(s)
	}
	return strings.Join(r, ", ")
}

func (g *G) anonNode(depth int) *Nd  { return g.newNode(depth, false) }
func (g *G) namedNode(depth int) *Nd { return g.newNode(depth, true) }

// newNode draws a node that is derived step by step.
func (g *G) newNode(depth int, named bool) *Nd {
	var x *Nd
	if len(g.bases) > 0 && g.p(g.deriveP) {
		// from a node that others have been derived from, too
		x = g.bases[g.n(len(g.bases))]
		g.count("derived from the same node")
		x = g.deriveNode(x, named, depth)
		if g.keeps(x.src) {
			g.bases = append(g.bases, x)
		}
	} else {
		x = g.baseNode(named, depth)
		if g.keeps(x.src) {
			g.bases = append(g.bases, x)
		}
	}
	for i := g.n(3); i > 0; i-- {
		x = g.deriveNode(x, named, depth)
		if g.keeps(x.src) {
			g.bases = append(g.bases, x)
		}
	}
	if named && x.name == "" {
		x = g.rename(x)
	}
	return x
}

func (g *G) baseNode(named bool, depth int) *Nd {
	x := &Nd{id: g.id(), sym: g.id()}
	k := 5
	if g.p(10) {
		k = 7
	}
	switch g.n(k) {
	case 0:
		x.src = "AnyNode()"
		x.mk = func(*Env, cy.Node) cy.Node { return cy.AnyNode() }
	case 1:
		l := g.name()
		x.labels = []string{l}
		x.src = "ANode(" + q(l) + ")"
		x.mk = func(*Env, cy.Node) cy.Node { return cy.ANode(l) }
	case 2:
		ls := g.names(g.more(1 + g.n(3)))
		x.labels = ls
		x.src = "NewNodeWithLabels(" + qs(ls) + ")"
		x.mk = func(e *Env, _ cy.Node) cy.Node { return cy.NewNodeWithLabels(ls[0], arg(e, ls[1:])...) }
	case 3:
		ls := g.names(g.more(1 + g.n(2)))
		m := g.entries(3, depth-1)
		x.labels, x.props = ls, m
		x.src = "NewNodeWithProperties(" + q(ls[0]) + ", MapOf(" + m.src + ")"
		if len(ls) > 1 {
			x.src += ", " + qs(ls[1:])
		}
		x.src += ")"
		x.mk = func(e *Env, _ cy.Node) cy.Node {
			return cy.NewNodeWithProperties(ls[0], cy.MapOf(arg(e, m.args(e))...), arg(e, ls[1:])...)
		}
	case 4:
		if !named {
			x.src = "AnyNode()"
			x.mk = func(*Env, cy.Node) cy.Node { return cy.AnyNode() }
			break
		}
		name := g.name()
		x.name = name
		x.src = "AnyNodeNamed(" + q(name) + ")"
		x.mk = func(*Env, cy.Node) cy.Node { return cy.AnyNodeNamed(name) }
	case 5:
		l := g.name()
		x.labels = []string{l}
		x.src = "NodeCreate2(" + q(l) + ")"
		x.mk = func(*Env, cy.Node) cy.Node { return cy.NodeCreate2(l) }
	default:
		ls := g.names(g.more(1 + g.n(3)))
		x.labels = ls
		x.src = "NodeCreate3(" + qs(ls) + ")"
		x.mk = func(e *Env, _ cy.Node) cy.Node { return cy.NodeCreate3(ls[0], arg(e, ls[1:])...) }
	}
	return x
}

func (g *G) deriveNode(x *Nd, named bool, depth int) *Nd {
	switch {
	case named && g.p(40):
		return g.rename(x)
	case g.p(60):
		return g.withProps(x, depth)
	}
	return x
}

func (g *G) derived(x *Nd) *Nd {
	y := *x
	y.id, y.parent = g.id(), x
	return &y
}

func (g *G) rename(x *Nd) *Nd {
	y := g.derived(x)
	name := g.name()
	y.sym, y.name = g.id(), name
	if g.p(50) {
		y.src = x.src + ".NamedByString(" + q(name) + ")"
		y.mk = func(e *Env, nd cy.Node) cy.Node { return nd.NamedByString(name) }
	} else {
		sym := g.symbolic(name)
		if sym.name != missing {
			y.name = sym.name
		}
		y.src = x.src + ".Named(" + sym.src + ")"
		y.mk = func(e *Env, nd cy.Node) cy.Node { return nd.Named(sym.get()) }
	}
	return y
}

func (g *G) withProps(x *Nd, depth int) *Nd {
	y := g.derived(x)
	m := g.entries(3, depth-1)
	y.props = m
	if g.p(50) {
		y.src += ".WithProperties(MapOf(" + m.src + "))"
		y.mk = func(e *Env, nd cy.Node) cy.Node { return nd.WithProperties(cy.MapOf(arg(e, m.args(e))...)) }
	} else {
		y.src += ".WithRawProperties(" + m.src + ")"
		y.mk = func(e *Env, nd cy.Node) cy.Node { return nd.WithRawProperties(arg(e, m.args(e))...) }
		if len(m.keys) == 0 {
			y.props = nil
		}
	}
	return y
}

// nodeAny draws a new node or one that has been used before.
func (g *G) nodeAny(depth int) *Nd {
	if len(g.nodes) > 0 && g.p(g.reuse) {
		g.count("node mentioned again")
		return g.nodes[g.n(len(g.nodes))]
	}
	if g.p(35) {
		return g.anonNode(depth)
	}
	nd := g.namedNode(depth)
	if len(g.nodes) < 6 && len(nd.src) < 8000 {
		g.nodes = append(g.nodes, nd)
	}
	return nd
}

// Pt describes a relationship or a chain of relationships.
type Pt struct {
	id    int
	nodes []*Nd
	hops  []*hop
	name  string // of a single relationship
	src   string
	none  bool // there is none, what is invalid
	zero  cy.RelationshipPattern
	first *Pt // the relationship a chain begins with
	// the relationship it is derived from, and how
	parent *Pt
	mk     func(e *Env, r interface{}) interface{}
}

type hop struct {
	dir      string
	types    []string
	name     string
	set      bool
	min, max string
	props    *entries
}

func (x *Pt) ref() string { return x.src }

func (e *Env) pattern(x *Pt) cy.RelationshipPattern {
	if x.none {
		return x.zero
	}
	return e.rel(x).(cy.RelationshipPattern)
}

func (e *Env) rel(x *Pt) interface{} {
	if v, ok := e.memo[x.id]; ok {
		return v
	}
	var parent interface{}
	if x.parent != nil {
		parent = e.rel(x.parent)
	}
	v := x.mk(e, parent)
	e.memo[x.id] = v
	e.before()
	return v
}

func (s *Sc) pattern(x *Pt) *N {
	p := n("path", "", s.node(x.nodes[0]))
	for i, h := range x.hops {
		types, length, props := n("types", ""), none, none
		for _, t := range h.types {
			types.Kids = append(types.Kids, n("type", t))
		}
		if h.set {
			length = n("length", "", n("min", h.min), n("max", h.max))
		}
		if h.props != nil {
			props = h.props.cn(s)
		}
		p.Kids = append(p.Kids, n("rel", h.dir, n("name", h.name), types, length, props), s.node(x.nodes[i+1]))
	}
	return p
}

func (g *G) length() int { return []int{0, 1, 2, 3, 5, 10, 100}[g.n(7)] }

// path draws a relationship or a chain.
func (g *G) path(depth int) *Pt {
	k := 1
	if g.p(40) {
		k = g.more(2 + g.n(3))
	}
	x := g.pathOf(depth, k)
	if !g.bad("naming") {
		return x
	}
	// a relationship is named as if it were a chain, or the other way around
	y := &Pt{id: g.id(), parent: x, nodes: x.nodes, hops: x.hops, name: x.name}
	y.src = x.src + ".Named(\"a\")" + mark
	if len(x.hops) == 1 {
		y.src = x.src + ".NamedC(\"a\")" + mark
	}
	y.mk = func(e *Env, r interface{}) interface{} {
		if single, ok := r.(cy.Relationship); ok {
			return single.NamedC("a")
		}
		return r.(cy.RelationshipChain).Named("a")
	}
	return y
}

func (g *G) relationship(depth int) *Pt { return g.pathOf(depth, 1) }

func (g *G) pathOf(depth, hops int) *Pt {
	var x *Pt
	if len(g.basePts) > 0 && g.p(g.deriveP) {
		var fit []*Pt
		for _, p := range g.basePts {
			if len(p.hops) <= hops {
				fit = append(fit, p)
			}
		}
		if len(fit) > 0 {
			g.count("derived from the same relationship")
			x = g.modHop(fit[g.n(len(fit))], depth)
		}
	}
	if x == nil {
		x = g.mods(g.hop(nil, depth), depth)
	}
	for len(x.hops) < hops && (len(x.hops) < 5 || !g.enough()) {
		x = g.mods(g.hop(x, depth), depth)
		g.cost += 3 * len(x.src)
	}
	if hops == 1 && x.hops[0].name != "" {
		x.name = x.hops[0].name
		if len(g.rels) < 4 {
			g.rels = append(g.rels, x)
		}
	}
	return x
}

func (g *G) keepPt(x *Pt) *Pt {
	if g.keeps(x.src) {
		g.basePts = append(g.basePts, x)
	}
	return x
}

// hop adds a relationship, the first one or one more.
func (g *G) hop(x *Pt, depth int) *Pt {
	h := &hop{dir: []string{"-->", "<--", "--"}[g.n(3)]}
	y := &Pt{id: g.id(), parent: x}
	var first *Nd
	if x == nil {
		first = g.nodeAny(depth)
		y.nodes = []*Nd{first}
		y.src = first.ref()
	} else {
		y.nodes = append([]*Nd{}, x.nodes...)
		y.hops = append([]*hop{}, x.hops...)
		y.src = x.src
	}
	h.types = g.names(g.more([]int{0, 1, 1, 2, 3}[g.n(5)]))
	other := g.nodeAny(depth)
	if g.p(7) {
		g.count("back to the first node")
		other = y.nodes[0]
	}
	var again *Pt
	if x != nil {
		y.first = x.first
		if len(x.hops) == 1 {
			y.first = x
		}
		if f := y.first; f.nodes[0] == x.nodes[len(x.nodes)-1] && g.p(40) {
			// the relationship the chain begins with once more
			g.count("the same relationship added")
			again, other = f, f.nodes[1]
			*h = *f.hops[0]
		}
	}
	y.nodes = append(y.nodes, other)
	y.hops = append(y.hops, h)
	method := map[string]string{"-->": "RelationshipTo", "<--": "RelationshipFrom", "--": "RelationshipBetween"}[h.dir]
	call := "." + method + "(" + other.ref()
	if len(h.types) > 0 {
		call += ", " + qs(h.types)
	}
	call += ")"
	chain := x != nil && len(x.hops) == 1 && g.p(25)
	added := x != nil && (again != nil || g.p(8))
	if chain {
		y.src = "RelationshipChainCreate(" + y.src + ")"
	}
	if added {
		if len(x.hops) == 1 && !chain {
			y.src = "RelationshipChainCreate(" + y.src + ")"
			chain = true
		}
		call = ".Add(" + x.nodes[len(x.nodes)-1].ref() + call + ")"
		if again != nil {
			call = ".Add(" + again.ref() + " /* the same one */)"
		}
	}
	y.src += call
	to := func(e *Env, nd cy.Node) cy.Relationship {
		switch h.dir {
		case "-->":
			return nd.RelationshipTo(e.node(other), arg(e, h.types)...)
		case "<--":
			return nd.RelationshipFrom(e.node(other), arg(e, h.types)...)
		}
		return nd.RelationshipBetween(e.node(other), arg(e, h.types)...)
	}
	raw := first != nil && g.p(4)
	if raw {
		g.count("relationship of its parts")
		y.src = "RelationshipCreate3(" + first.ref() + ", RelationshipDetailsCreate1(" + h.dir + ", " + qs(h.types) + "), " + other.ref() + ")"
	}
	y.mk = func(e *Env, r interface{}) interface{} {
		if raw {
			var types cy.RelationshipTypes
			if len(h.types) > 0 {
				types = cy.RelationshipTypesCreate(arg(e, h.types))
			}
			dir := map[string]func() cy.Direction{"-->": cy.LTR, "<--": cy.RTL, "--": cy.UNI}[h.dir]()
			return cy.RelationshipCreate3(e.node(first), cy.RelationshipDetailsCreate1(dir, types), e.node(other))
		}
		if first != nil {
			return to(e, e.node(first))
		}
		if chain {
			r = cy.RelationshipChainCreate(r.(cy.Relationship))
		}
		if again != nil {
			return r.(cy.RelationshipChain).Add(e.pattern(again).(cy.Relationship))
		}
		if added {
			return r.(cy.RelationshipChain).Add(to(e, e.node(x.nodes[len(x.nodes)-1])))
		}
		c := r.(interface {
			RelationshipTo(node cy.Node, types ...string) cy.RelationshipChain
			RelationshipFrom(node cy.Node, types ...string) cy.RelationshipChain
			RelationshipBetween(node cy.Node, types ...string) cy.RelationshipChain
		})
		switch h.dir {
		case "-->":
			return c.RelationshipTo(e.node(other), arg(e, h.types)...)
		case "<--":
			return c.RelationshipFrom(e.node(other), arg(e, h.types)...)
		}
		return c.RelationshipBetween(e.node(other), arg(e, h.types)...)
	}
	return g.keepPt(y)
}

// mods names the last relationship, gives it a length or properties.
func (g *G) mods(x *Pt, depth int) *Pt {
	for j := []int{0, 0, 1, 1, 2, 3}[g.n(6)]; j > 0; j-- {
		x = g.modHop(x, depth)
	}
	return x
}

func (g *G) modHop(x *Pt, depth int) *Pt {
	y := &Pt{id: g.id(), parent: x, first: x.first, nodes: x.nodes, hops: append([]*hop{}, x.hops...)}
	h := *x.hops[len(x.hops)-1]
	y.hops[len(y.hops)-1] = &h
	single := len(x.hops) == 1
	on := func(src string, rm func(e *Env, r cy.Relationship) cy.Relationship, cm func(e *Env, r cy.RelationshipChain) cy.RelationshipChain) {
		y.src = x.src + src
		y.mk = func(e *Env, r interface{}) interface{} {
			if single {
				return rm(e, r.(cy.Relationship))
			}
			return cm(e, r.(cy.RelationshipChain))
		}
	}
	switch g.n(7) {
	case 0, 1:
		name := g.name()
		h.name = name
		byString := g.p(50)
		method := ".NamedC("
		if single && byString {
			method = ".NamedByString("
		} else if single {
			method = ".Named("
		}
		on(method+q(name)+")", func(e *Env, r cy.Relationship) cy.Relationship {
			if byString {
				return r.NamedByString(name)
			}
			return r.Named(name)
		}, func(e *Env, r cy.RelationshipChain) cy.RelationshipChain { return r.NamedC(name) })
	case 2:
		h.set, h.min, h.max = true, "", ""
		on(".Unbounded()", func(e *Env, r cy.Relationship) cy.Relationship { return r.Unbounded() },
			func(e *Env, r cy.RelationshipChain) cy.RelationshipChain { return r.Unbounded() })
	case 3:
		k := g.length()
		h.set, h.min = true, strconv.Itoa(k)
		on(fmt.Sprintf(".Min(%d)", k), func(e *Env, r cy.Relationship) cy.Relationship { return r.Min(k) },
			func(e *Env, r cy.RelationshipChain) cy.RelationshipChain { return r.Min(k) })
	case 4:
		k := g.length()
		h.set, h.max = true, strconv.Itoa(k)
		on(fmt.Sprintf(".Max(%d)", k), func(e *Env, r cy.Relationship) cy.Relationship { return r.Max(k) },
			func(e *Env, r cy.RelationshipChain) cy.RelationshipChain { return r.Max(k) })
	case 5:
		k, l := g.length(), g.length()
		h.set, h.min, h.max = true, strconv.Itoa(k), strconv.Itoa(l)
		on(fmt.Sprintf(".Length(%d, %d)", k, l), func(e *Env, r cy.Relationship) cy.Relationship { return r.Length(k, l) },
			func(e *Env, r cy.RelationshipChain) cy.RelationshipChain { return r.Length(k, l) })
	default:
		m := g.entries(2, depth-1)
		h.props = m
		if g.p(50) {
			name := ".WithProperties(MapOf("
			if !single {
				name = ".Properties(MapOf("
			}
			on(name+m.src+"))", func(e *Env, r cy.Relationship) cy.Relationship {
				return r.WithProperties(cy.MapOf(arg(e, m.args(e))...))
			},
				func(e *Env, r cy.RelationshipChain) cy.RelationshipChain {
					return r.Properties(cy.MapOf(arg(e, m.args(e))...))
				})
			break
		}
		if len(m.keys) == 0 {
			h.props = nil
		}
		name := ".WithRawProperties("
		if !single {
			name = ".PropertiesRaw("
		}
		on(name+m.src+")", func(e *Env, r cy.Relationship) cy.Relationship { return r.WithRawProperties(arg(e, m.args(e))...) },
			func(e *Env, r cy.RelationshipChain) cy.RelationshipChain {
				return r.PropertiesRaw(arg(e, m.args(e))...)
			})
	}
	return g.keepPt(y)
}

// Np describes a named path.
type Np struct {
	id, sym  int
	name     string
	p        *Pt
	shortest bool
	bySym    bool
	raw      bool // made by a builder
	sy       symbolic
	src      string
}

func (e *Env) namedPath(x *Np) cy.NamedPath {
	if v, ok := e.memo[x.id]; ok {
		return v.(cy.NamedPath)
	}
	var v cy.NamedPath
	switch {
	case x.shortest && x.raw:
		v = cy.ShortestPathBuilderCreate(x.sy.get(), cy.SHORTEST_PATH).DefinedBy(e.pattern(x.p).(cy.Relationship))
	case x.raw:
		v = cy.NamedPathBuilderCreate(x.sy.get()).DefinedBy(e.pattern(x.p))
	case x.shortest && x.bySym:
		v = cy.AShortestPathBySymbolic(x.sy.get()).DefinedBy(e.pattern(x.p).(cy.Relationship))
	case x.shortest:
		v = cy.AShortestPath(x.name).DefinedBy(e.pattern(x.p).(cy.Relationship))
	case x.bySym:
		v = cy.APathBySymbolic(x.sy.get()).DefinedBy(e.pattern(x.p))
	default:
		v = cy.APath(x.name).DefinedBy(e.pattern(x.p))
	}
	e.memo[x.id] = v
	return v
}

func (s *Sc) namedPath(x *Np) *N {
	p := s.pattern(x.p)
	if x.shortest {
		p = n("call", "shortestPath", p)
	}
	return n("named", x.name, p)
}

func (g *G) namedPath(depth int) *Np {
	x := &Np{id: g.id(), name: g.name(), bySym: g.p(30)}
	if g.p(35) {
		x.shortest = true
		x.p = g.relationship(depth)
	} else {
		x.p = g.path(depth)
	}
	f := "APath"
	if x.shortest {
		f = "AShortestPath"
	}
	if x.bySym {
		x.sy = g.sharedSymbolic(x.name)
		if x.sy.name != missing {
			x.name = x.sy.name
		}
		x.raw = g.p(15)
		x.src = f + "BySymbolic(" + x.sy.src + ").DefinedBy(" + x.p.src + ")"
	} else {
		x.src = f + "(" + q(x.name) + ").DefinedBy(" + x.p.src + ")"
	}
	if len(g.paths) < 4 {
		g.paths = append(g.paths, x)
	}
	return x
}

// pats is a list of patterns of a clause.
type pats struct {
	items []interface{} // *Nd, *Pt, *Np
	src   string
}

func (g *G) patternList(k, depth int) *pats {
	ps := &pats{}
	if g.bad("nothing") {
		ps.src = mark
		return ps
	}
	var ss []string
	for i := 0; i < k; i++ {
		if g.site == "" && g.bad("nil") {
			ps.items = append(ps.items, nil)
			ss = append(ss, "nil"+mark)
			continue
		}
		if g.site == "" && g.bad("zero") {
			if z := g.n(2 + len(emptyPatterns)); z < 2 {
				zs := []cy.PatternElement{cy.NamedPath{}, cy.NamedPathCreate(cy.ASymbolic("p"), nil)}
				ps.items = append(ps.items, zs[z])
				ss = append(ss, "NamedPath{}"+mark)
			} else {
				e := emptyPatterns[z-2]
				ps.items = append(ps.items, &Pt{id: g.id(), none: true, zero: e.mk(), src: e.src + mark})
				ss = append(ss, e.src+mark)
			}
			continue
		}
		switch g.n(5) {
		case 0, 1:
			x := g.nodeAny(depth)
			ps.items = append(ps.items, x)
			ss = append(ss, x.src)
		case 2, 3:
			x := g.path(depth)
			ps.items = append(ps.items, x)
			ss = append(ss, x.src)
		default:
			x := g.namedPath(depth)
			ps.items = append(ps.items, x)
			ss = append(ss, x.src)
		}
	}
	ps.src = strings.Join(ss, ", ")
	return ps
}

func (ps *pats) els(e *Env) []cy.PatternElement {
	r := make([]cy.PatternElement, len(ps.items))
	for i, it := range ps.items {
		switch x := it.(type) {
		case *Nd:
			r[i] = e.node(x)
		case *Pt:
			r[i] = e.pattern(x).(cy.PatternElement)
		case *Np:
			r[i] = e.namedPath(x)
		case cy.PatternElement:
			r[i] = x
		}
	}
	return r
}

func (ps *pats) cn(s *Sc) *N {
	t := n("patterns", "")
	for _, it := range ps.items {
		switch x := it.(type) {
		case *Nd:
			t.Kids = append(t.Kids, n("path", "", s.node(x)))
		case *Pt:
			t.Kids = append(t.Kids, s.pattern(x))
		case *Np:
			t.Kids = append(t.Kids, s.namedPath(x))
		}
	}
	return t
}
