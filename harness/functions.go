package harness

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// A fn is a helper for a built-in function: the function it stands for and the kinds of its arguments,
// e expression, E any number of expressions, n node, r named relationship, m map, p parameter, P pattern, a named path, R relationship as pattern,
// i integer, f fraction, s text that is not empty, z time zone.
// keys are the names of the components that the arguments are put under.
type fn struct {
	helper, name string
	distinct     bool
	args         string
	keys         []string
	call         func(a []interface{}) cy.Expression
}

func x0(a interface{}) cy.Expression {
	x, _ := a.(cy.Expression)
	return x
}

func pattern(a interface{}) cy.RelationshipPattern {
	x, _ := a.(cy.RelationshipPattern)
	return x
}

func exsOf(a []interface{}) []cy.Expression {
	var xs []cy.Expression
	for _, x := range a {
		xs = append(xs, x0(x))
	}
	return arg(nil, xs)
}

func e1(f func(cy.Expression) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(x0(a[0])) }
}
func e2(f func(a, b cy.Expression) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(x0(a[0]), x0(a[1])) }
}
func n1(f func(cy.Node) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(cy.Node)) }
}
func r1(f func(cy.Relationship) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(cy.Relationship)) }
}
func m1(f func(cy.MapExpression) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(cy.MapExpression)) }
}
func s1(f func(string) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(string)) }
}
func z1(f func(*time.Location) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(*time.Location)) }
}
func ef(f func(cy.Expression, float64) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(x0(a[0]), a[1].(float64)) }
}
func a1(f func(cy.NamedPath) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(cy.NamedPath)) }
}
func d1(f func(cy.Named) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(cy.Named)) }
}
func i3(f func(a, b, c int) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(int), a[1].(int), a[2].(int)) }
}
func i2(f func(a, b int) cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func(a []interface{}) cy.Expression { return f(a[0].(int), a[1].(int)) }
}
func v0(f func() cy.FunctionInvocation) func([]interface{}) cy.Expression {
	return func([]interface{}) cy.Expression { return f() }
}

var fns = []fn{
	{"IdByNode", "id", false, "n", nil, n1(cy.IdByNode)},
	{"InternalId", "id", false, "n", nil, n1(cy.Node.InternalId)},
	{"IdByRelationship", "id", false, "r", nil, r1(cy.IdByRelationship)},
	{"Labels", "labels", false, "n", nil, n1(cy.Labels)},
	{"Node.Labels", "labels", false, "n", nil, n1(cy.Node.Labels)},
	{"FunctionType", "type", false, "r", nil, r1(cy.FunctionType)},
	{"Count", "count", false, "n", nil, n1(cy.Count)},
	{"CountByExpression", "count", false, "e", nil, e1(cy.CountByExpression)},
	{"CountDistinct", "count", true, "n", nil, n1(cy.CountDistinct)},
	{"CountDistinctByExpression", "count", true, "e", nil, e1(cy.CountDistinctByExpression)},
	{"FunctionProperties", "properties", false, "n", nil, n1(cy.FunctionProperties)},
	{"FunctionPropertiesByRelationship", "properties", false, "r", nil, r1(cy.FunctionPropertiesByRelationship)},
	{"PropertiesByMapExpression", "properties", false, "m", nil, m1(cy.PropertiesByMapExpression)},
	{"Coalesce", "coalesce", false, "E", nil, func(a []interface{}) cy.Expression { return cy.Coalesce(exsOf(a)...) }},
	{"ToLower", "toLower", false, "e", nil, e1(cy.ToLower)},
	{"Size", "size", false, "e", nil, e1(cy.Size)},
	{"SizeByPattern", "size", false, "P", nil, func(a []interface{}) cy.Expression { return cy.SizeByPattern(pattern(a[0])) }},
	{"Exists", "exists", false, "e", nil, e1(cy.Exists)},
	{"FunctionInvocationCreateWithPattern(EXISTS)", "exists", false, "P", nil, func(a []interface{}) cy.Expression {
		return cy.FunctionInvocationCreateWithPattern(cy.EXISTS, cy.PatternCreate([]cy.PatternElement{pattern(a[0])}))
	}},
	{"Distance", "distance", false, "ee", nil, e2(cy.Distance)},
	{"Point", "point", false, "m", nil, m1(cy.Point)},
	{"PointByParameter", "point", false, "p", nil, func(a []interface{}) cy.Expression { return cy.PointByParameter(a[0].(cy.Parameter)) }},
	{"Avg", "avg", false, "e", nil, e1(cy.Avg)},
	{"AvgDistinct", "avg", true, "e", nil, e1(cy.AvgDistinct)},
	{"CollectByNamed", "collect", false, "n", nil, d1(cy.CollectByNamed)},
	{"CollectByNamed", "collect", false, "r", nil, d1(cy.CollectByNamed)},
	{"CollectDistinctByNamed", "collect", true, "n", nil, d1(cy.CollectDistinctByNamed)},
	{"CollectDistinctByNamed", "collect", true, "r", nil, d1(cy.CollectDistinctByNamed)},
	{"Collect", "collect", false, "e", nil, e1(cy.Collect)},
	{"CollectDistinct", "collect", true, "e", nil, e1(cy.CollectDistinct)},
	{"Max", "max", false, "e", nil, e1(cy.Max)},
	{"MaxDistinct", "max", true, "e", nil, e1(cy.MaxDistinct)},
	{"Min", "min", false, "e", nil, e1(cy.Min)},
	{"MinDistinct", "min", true, "e", nil, e1(cy.MinDistinct)},
	{"PercentileCont", "percentileCont", false, "ef", nil, ef(cy.PercentileCont)},
	{"PercentileContDistinct", "percentileCont", true, "ef", nil, ef(cy.PercentileContDistinct)},
	{"PercentileDisc", "percentileDisc", false, "ef", nil, ef(cy.PercentileDisc)},
	{"PercentileDiscDistinct", "percentileDisc", true, "ef", nil, ef(cy.PercentileDiscDistinct)},
	{"StDev", "stDev", false, "e", nil, e1(cy.StDev)},
	{"StDevDistinct", "stDev", true, "e", nil, e1(cy.StDevDistinct)},
	{"StDevP", "stDevP", false, "e", nil, e1(cy.StDevP)},
	{"StDevPDistinct", "stDevP", true, "e", nil, e1(cy.StDevPDistinct)},
	{"Sum", "sum", false, "e", nil, e1(cy.Sum)},
	{"SumDistinct", "sum", true, "e", nil, e1(cy.SumDistinct)},
	{"RangeRaw", "range", false, "ii", nil, i2(cy.RangeRaw)},
	{"Range", "range", false, "ee", nil, e2(cy.Range)},
	{"RangeWithStepRaw", "range", false, "iii", nil, i3(cy.RangeWithStepRaw)},
	{"RangeWithStep", "range", false, "eeo", nil, func(a []interface{}) cy.Expression { return cy.RangeWithStep(x0(a[0]), x0(a[1]), x0(a[2])) }},
	{"RangeWithStep", "range", false, "ee", nil, func(a []interface{}) cy.Expression { return cy.RangeWithStep(x0(a[0]), x0(a[1]), nil) }},
	{"Head", "head", false, "e", nil, e1(cy.Head)},
	{"Last", "last", false, "e", nil, e1(cy.Last)},
	{"Nodes", "nodes", false, "a", nil, a1(cy.Nodes)},
	{"Relationships", "relationships", false, "a", nil, a1(cy.Relationships)},
	{"StartNode", "startNode", false, "r", nil, r1(cy.StartNode)},
	{"EndNode", "endNode", false, "r", nil, r1(cy.EndNode)},
	{"ShortestPath", "shortestPath", false, "R", nil, r1(cy.ShortestPath)},

	{"Date", "date", false, "", nil, v0(cy.Date)},
	{"CalendarDate", "date", false, "iii", []string{"year", "month", "day"}, i3(cy.CalendarDate)},
	{"WeekDate", "date", false, "iii", []string{"year", "week", "dayOfWeek"}, i3(cy.WeekDate)},
	{"QuarterDate", "date", false, "iii", []string{"year", "quarter", "dayOfQuarter"}, i3(cy.QuarterDate)},
	{"OrdinalDate", "date", false, "ii", []string{"year", "ordinalDay"}, i2(cy.OrdinalDate)},
	{"DateWithComponents", "date", false, "m", nil, m1(cy.DateWithComponents)},
	{"DateWithTemporal", "date", false, "s", nil, s1(cy.DateWithTemporal)},
	{"DateWithExpression", "date", false, "e", nil, e1(cy.DateWithExpression)},
	{"Datetime", "datetime", false, "", nil, v0(cy.Datetime)},
	{"DateTimeWithComponents", "datetime", false, "m", nil, m1(cy.DateTimeWithComponents)},
	{"DateTimeWithTemporal", "datetime", false, "s", nil, s1(cy.DateTimeWithTemporal)},
	{"DateTimeWithExpression", "datetime", false, "e", nil, e1(cy.DateTimeWithExpression)},
	{"LocalDatetime", "localdatetime", false, "", nil, v0(cy.LocalDatetime)},
	{"LocalDateTimeWithTimezone", "localdatetime", false, "z", []string{"timezone"}, z1(cy.LocalDateTimeWithTimezone)},
	{"LocalDateTimeWithComponents", "localdatetime", false, "m", nil, m1(cy.LocalDateTimeWithComponents)},
	{"LocalDateTimeWithTemporal", "localdatetime", false, "s", nil, s1(cy.LocalDateTimeWithTemporal)},
	{"LocalDateTimeWithExpression", "localdatetime", false, "e", nil, e1(cy.LocalDateTimeWithExpression)},
	{"Localtime", "localtime", false, "", nil, v0(cy.Localtime)},
	{"LocalTimeWithTimezone", "localtime", false, "z", []string{"timezone"}, z1(cy.LocalTimeWithTimezone)},
	{"LocalTimeWithComponents", "localtime", false, "m", nil, m1(cy.LocalTimeWithComponents)},
	{"LocalTimeWithTemporal", "localtime", false, "s", nil, s1(cy.LocalTimeWithTemporal)},
	{"LocalTimeWithExpression", "localtime", false, "e", nil, e1(cy.LocalTimeWithExpression)},
	{"Time", "time", false, "", nil, v0(cy.Time)},
	{"TimeWithTimeZone", "time", false, "z", []string{"timezone"}, z1(cy.TimeWithTimeZone)},
	{"TimeWithComponents", "time", false, "m", nil, m1(cy.TimeWithComponents)},
	{"TimeWithTemporal", "time", false, "s", nil, s1(cy.TimeWithTemporal)},
	{"TimeWithExpression", "time", false, "e", nil, e1(cy.TimeWithExpression)},
	{"DurationWithComponents", "duration", false, "m", nil, m1(cy.DurationWithComponents)},
	{"DurationWithTemporal", "duration", false, "s", nil, s1(cy.DurationWithTemporal)},
	{"DurationWithExpression", "duration", false, "e", nil, e1(cy.DurationWithExpression)},
	// functions by their definition
	{"FunctionInvocationCreate(COALESCE)", "coalesce", false, "E", nil, func(a []interface{}) cy.Expression { return cy.FunctionInvocationCreate(cy.COALESCE, exsOf(a)...) }},
	{"FunctionInvocationCreateDistinct(COUNT)", "count", true, "e", nil, func(a []interface{}) cy.Expression { return cy.FunctionInvocationCreateDistinct(cy.COUNT, exsOf(a)...) }},
	{"FunctionInvocationCreate1(DATE)", "date", false, "", nil, func(a []interface{}) cy.Expression { return cy.FunctionInvocationCreate1(cy.DATE) }},
	// functions without a helper
	{"FunctionInvocationCreateWithFunctionName", "", false, "E", nil, nil},
}

// fnArg is a drawn argument.
type fnArg struct {
	get func(e *Env) interface{}
	cn  func(s *Sc) *N
	src string
	pat bool
}

func (g *G) fnArg(kind rune, depth int) fnArg {
	ofEx := func(x *Ex) fnArg {
		return fnArg{func(e *Env) interface{} { return e.ex(x) }, func(s *Sc) *N { return s.ex(x) }, x.src, x.pat}
	}
	switch kind {
	case 'n':
		if g.bad("unnamed") {
			nd := g.unnamed()
			return fnArg{func(e *Env) interface{} { return e.node(nd) }, nil, nd.ref(), false}
		}
		if len(g.nodes) == 0 {
			g.nodes = append(g.nodes, g.namedNode(0))
		}
		nd := g.nodes[g.n(len(g.nodes))]
		return fnArg{func(e *Env) interface{} { return e.node(nd) }, func(s *Sc) *N { return s.symOf(nd.sym, nd.name) }, nd.ref(), false}
	case 'r':
		if g.bad("unnamed rel") {
			r := g.unnamedRel()
			return fnArg{func(e *Env) interface{} { return e.pattern(r).(cy.Relationship) }, nil, r.ref(), false}
		}
		if len(g.rels) == 0 {
			g.namedRel(0)
		}
		r := g.rels[g.n(len(g.rels))]
		return fnArg{func(e *Env) interface{} { return e.pattern(r).(cy.Relationship) }, func(s *Sc) *N { return n("var", r.name) }, r.ref(), false}
	case 'a':
		if len(g.paths) == 0 {
			g.namedPath(0)
		}
		p := g.paths[g.n(len(g.paths))]
		return fnArg{func(e *Env) interface{} { return e.namedPath(p) }, func(s *Sc) *N { return n("var", p.name) }, p.src, false}
	case 'm':
		m := g.entries(3, depth-1)
		if g.p(30) {
			// a map that has been made elsewhere
			x := g.mapEx(depth)
			return ofEx(x)
		}
		return fnArg{func(e *Env) interface{} { return cy.MapOf(arg(e, m.args(e))...) }, m.cn, "MapOf(" + m.src + ")", anyPat(m.vals...)}
	case 'p':
		return ofEx(g.param())
	case 'P':
		p := g.givenPath(depth - 1)
		return fnArg{func(e *Env) interface{} { return e.pattern(p) }, func(s *Sc) *N { return s.pattern(p) }, p.src, true}
	case 'R':
		p := g.relationship(depth - 1)
		return fnArg{func(e *Env) interface{} { return e.pattern(p) }, func(s *Sc) *N { return s.pattern(p) }, p.src, true}
	case 'i':
		i := g.int()
		return fnArg{func(*Env) interface{} { return i }, func(*Sc) *N { return numOf(int64(i)) }, strconv.Itoa(i), false}
	case 'f':
		if g.bad("percentile") {
			f := []float64{-1, 1.0000000000000002, 2, 99, 1e300, -5e-324, -0.1, math.NaN(), math.Inf(1), math.Inf(-1)}[g.n(10)]
			return fnArg{func(*Env) interface{} { return f }, nil, strconv.FormatFloat(f, 'g', -1, 64) + mark, false}
		}
		f := []float64{0, 1, 0.5, 0.9, 0.99, 0.25, 1e-9, 0.3333333333333333}[g.n(8)]
		if g.p(40) {
			f = float64(g.n(1000001)) / 1000000
		}
		return fnArg{func(*Env) interface{} { return f }, func(*Sc) *N { return ratOfFloat(f) }, strconv.FormatFloat(f, 'g', -1, 64), false}
	case 's':
		t := g.text()
		if t == "" {
			t = "2020-01-01"
		}
		if g.bad("temporal") {
			t = ""
		}
		return fnArg{func(*Env) interface{} { return t }, func(*Sc) *N { return n("str", t) }, q(t), false}
	case 'z':
		if g.bad("temporal") {
			return fnArg{func(*Env) interface{} { return (*time.Location)(nil) }, nil, "nil" + mark, false}
		}
		name := []string{"UTC", "Europe/Berlin", "America/Los Angeles", "it's", "+02:00", `a\b`, "Asia/Tokyo"}[g.n(7)]
		return fnArg{func(*Env) interface{} { return time.FixedZone(name, 3600) }, func(*Sc) *N { return n("str", name) }, "time.FixedZone(" + q(name) + ", 3600)", false}
	}
	if kind == 'o' {
		return ofEx(g.expr(depth - 1))
	}
	if kind == 'v' {
		return ofEx(g.at("arguments", depth-1))
	}
	return ofEx(g.at("function", depth-1))
}

func (g *G) namedRel(depth int) {
	for i := 0; len(g.rels) == 0; i++ {
		g.relationship(depth)
		if i > 20 {
			a, b := g.namedNode(0), g.namedNode(0)
			x := &Pt{id: g.id(), nodes: []*Nd{a, b}, hops: []*hop{{dir: "-->", name: "r"}}, name: "r"}
			x.src = a.ref() + ".RelationshipTo(" + b.ref() + ").NamedByString(\"r\")"
			x.mk = func(e *Env, _ interface{}) interface{} { return e.node(a).RelationshipTo(e.node(b)).NamedByString("r") }
			g.rels = append(g.rels, x)
		}
	}
}

// function draws the call of a function.
func (g *G) function(depth int) *Ex {
	for {
		f := fns[g.n(len(fns))]
		if g.noPat && strings.ContainsAny(f.args, "PR") {
			continue
		}
		return g.functionOf(f, depth)
	}
}

func (g *G) functionOf(f fn, depth int) *Ex {
	var as []fnArg
	for _, k := range f.args {
		if k == 'E' {
			c := g.more(1 + g.n(4))
			if f.name == "" {
				c = g.more(g.n(5))
			} else if g.bad("nothing") {
				return g.mk("Coalesce("+mark+")", func(*Env) cy.Expression { return cy.Coalesce() }, nil)
			}
			for ; c > 0; c-- {
				as = append(as, g.fnArg('v', depth))
			}
			continue
		}
		as = append(as, g.fnArg(k, depth))
	}
	if f.name == "" {
		// the name is given by the caller
		name := []string{"toUpper", "apoc.text.join", "trim", "foo.bar.baz", "abs", "f1"}[g.n(6)]
		f.name = name
		f.helper = fmt.Sprintf("FunctionInvocationCreateWithFunctionName[%q]", name)
		f.call = func(a []interface{}) cy.Expression {
			return cy.FunctionInvocationCreateWithFunctionName(name, exsOf(a)...)
		}
		spoil := g.bad("procedure")
		if spoil || g.p(50) {
			// a procedure as function
			parts := strings.Split(name, ".")
			f.helper = fmt.Sprintf("ACall[%q].AsFunction", parts)
			if spoil {
				parts[g.n(len(parts))] = ""
				f.helper += mark
			}
			f.call = func(a []interface{}) cy.Expression {
				c := cy.ACall(arg(nil, parts)...)
				if len(a) > 0 {
					c = c.WithArgs(exsOf(a)...)
				}
				return c.AsFunction()
			}
		}
	}
	var ss []string
	pat := false
	for _, a := range as {
		ss = append(ss, a.src)
		pat = pat || a.pat
	}
	x := g.mk(f.helper+"("+strings.Join(ss, ", ")+")", func(e *Env) cy.Expression {
		var vs []interface{}
		for _, a := range as {
			vs = append(vs, a.get(e))
		}
		return f.call(vs)
	}, func(s *Sc) *N {
		op := "call"
		if f.distinct {
			op = "call distinct"
		}
		c := n(op, f.name)
		if f.keys != nil {
			m := n("map", "")
			for i, k := range f.keys {
				m.Kids = append(m.Kids, n("entry", k, as[i].cn(s)))
			}
			c.Kids = []*N{m}
			return c
		}
		for _, a := range as {
			c.Kids = append(c.Kids, a.cn(s))
		}
		return c
	})
	x.pat = pat
	if f.name == "size" {
		x.kind = "size"
	}
	return x
}
