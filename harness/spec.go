package harness

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
	"pgregory.net/rapid"
)

// A spec describes an element independent of the library: how to make it with the public API, the tree its text must
// denote, and the calls in words. The same spec gives the same object within one Env, other Envs build it anew.

type Env struct {
	memo map[int]interface{}
	hook func() // executed before an element is made

	guarded bool
	guards  []guard
}

func newEnv() *Env { return &Env{memo: map[int]interface{}{}} }

func (e *Env) before() {
	if e.hook != nil {
		e.hook()
	}
}

// Sc is what has been said so far in the text of a statement.
type Sc struct {
	seen    map[int]bool     // named nodes whose pattern has been written
	defined map[int]bool     // aliased expressions that have been written
	deleg   map[int][]string // expressions that have an alias, by a projection that is complete
	pending [][2]interface{}
}

func newSc() *Sc {
	return &Sc{map[int]bool{}, map[int]bool{}, map[int][]string{}, nil}
}

func (s *Sc) copy() *Sc {
	r := newSc()
	r.add(s)
	return r
}

// add adds the aliases of another scope.
func (s *Sc) add(o *Sc) {
	for k := range o.defined {
		s.defined[k] = true
	}
	for k, v := range o.deleg {
		s.deleg[k] = append(append([]string{}, s.deleg[k]...), v...)
	}
}

func (s *Sc) project() {
	for _, p := range s.pending {
		s.deleg[p[0].(int)] = append(s.deleg[p[0].(int)], p[1].(string))
	}
	s.pending = nil
}

// child is the model of a member of a compound condition.
type child struct {
	compound bool
	op       string
}

// cm models how conditions are combined, it is needed to know where the one recorded finding (see known_findings.txt)
// applies, and nothing else.
type cm struct {
	compound bool
	empty    bool
	op       string
	kids     []child
}

type Ex struct {
	id   int
	src  string
	mk   func(*Env) cy.Expression
	cn   func(*Sc) *N
	cm   *cm  // set for conditions
	pat  bool // a pattern is part of it
	tt   func(a []bool) bool
	kind string
}

func (e *Env) ex(x *Ex) cy.Expression {
	if v, ok := e.memo[x.id]; ok {
		x, _ := v.(cy.Expression)
		return x
	}
	v := x.mk(e)
	e.memo[x.id] = v
	e.before()
	return v
}

func (e *Env) cond(x *Ex) cy.Condition { return e.ex(x).(cy.Condition) }

func (e *Env) exs(xs []*Ex) []cy.Expression {
	r := make([]cy.Expression, len(xs))
	for i, x := range xs {
		r[i] = e.ex(x)
	}
	return r
}

func (s *Sc) ex(x *Ex) *N {
	full := x.cn
	if as := s.deleg[x.id]; len(as) > 0 && !x.pat {
		return vars(as, full(s))
	}
	return full(s)
}

// vars allows any of the aliases that an expression has got, or the expression itself.
func vars(as []string, full *N) *N {
	r := n("alt", "")
	for _, a := range as {
		r.Kids = append(r.Kids, n("var", a))
	}
	r.Kids = append(r.Kids, full)
	return r
}

func (s *Sc) exs(xs []*Ex) []*N {
	r := make([]*N, len(xs))
	for i, x := range xs {
		r[i] = s.ex(x)
	}
	return r
}

func srcs(xs []*Ex) string {
	r := make([]string, len(xs))
	for i, x := range xs {
		r[i] = x.src
	}
	return strings.Join(r, ", ")
}

func anyPat(xs ...*Ex) bool {
	for _, x := range xs {
		if x != nil && x.pat {
			return true
		}
	}
	return false
}

// G generates specs.
type G struct {
	t    *rapid.T
	next int
	pools
	dense   bool                // all that is drawn by chance is drawn more often
	odd     int                 // percentage of odd names and strings
	noPat   bool                // no patterns in expressions
	noAlias bool                // no aliases
	aliasP  int                 // percentage of items that get an alias
	reuse   int                 // percentage of nodes that are mentioned again
	large   int                 // how many numbers of things are made much larger
	deriveP int                 // percentage of elements that are derived from others
	focus   func(depth int) *Ex // preferred expressions
	focusP  int                 // how much they are preferred, in percent
	conds   func(depth int) *Ex // preferred conditions
	condsP  int
	prefer  []string // preferred calls
	preferP int
	long    bool // very many calls are drawn
	noUnres bool // no unresolved names
	unres   []symbolic
	unresN  int
	used    []string // names of anything
	usedP   int      // how often one of them is used again, in percent
	usedMax int      // how many are kept
	stats   map[string]int
	// what is made invalid, see bad
	invalid  string
	cost     int
	site     string // where alone nil may be given, if anywhere
	invalidP int
	spoiled  bool
}

const mark = "/*!*/"

// bad tells whether a part has to be made invalid. One part of the wanted kind is, at most.
func (g *G) bad(kind string) bool {
	if g.invalid != kind || g.spoiled || !g.p(g.invalidP) {
		return false
	}
	g.spoiled = true
	return true
}

// spoilt tells whether an invalid part belongs to what the calls describe.
func spoilt(src string) bool { return strings.Contains(src, `""`) || strings.Contains(src, mark) }

func newG(t *rapid.T) *G {
	g := &G{t: t, odd: 8, aliasP: 30, reuse: 35, stats: map[string]int{}}
	g.dense = g.n(10) >= 5
	if g.p(7) || len(dict.NewInts) > 0 && g.p(10) {
		g.large = 1 + g.n(3)
	}
	g.usedP, g.usedMax = 10, 12
	if g.p(8) {
		// few names for all
		g.usedP, g.usedMax = 55, 1+g.n(3)
	}
	return g
}

// more makes a number of things much larger, now and then.
func (g *G) more(k int) int {
	if g.large == 0 || !g.p(15) || g.cost > costs/8 {
		return k
	}
	g.large--
	g.count("large number of things")
	if len(dict.NewInts) > 0 && g.p(60) {
		if size := g.knownSize(1100); size > k {
			g.count("size of the dictionary")
			return size
		}
	}
	return k + []int{4, 4, 8, 8, 12, 12, 16, 16, 32, 32, 64, 130, 260}[g.n(13)] + g.n(5)
}

// costs is how much a case may take: the length of all descriptions that have been made for it.
const costs = 40 << 20

// enough tells that nothing may be made larger.
func (g *G) enough() bool { return g.cost > costs }

func (g *G) id() int { g.next++; return g.next }

// n draws a number below k.
func (g *G) n(k int) int {
	if k <= 1 {
		return 0
	}
	return rapid.IntRange(0, k-1).Draw(g.t, "n")
}

// p draws true with the given probability in percent, it shrinks to false. As rapid prefers small numbers, it is less than that
// but in a dense case.
func (g *G) p(percent int) bool {
	if g.dense && percent >= 0 && percent <= 100 {
		return g.n(100) >= least[percent]
	}
	return g.n(100) >= 100-percent
}

// least is the number below 100 that rapid does not fall below, with a probability of so many percent.
var least = [101]int{
	100, 99, 99, 99, 97, 95, 93, 91, 88, 86, 84, 82, 80, 78, 76, 73, 71, 69, 67, 65, 63, 61, 59, 58, 56, 54, 52, 50, 49, 47, 45, 43, 42, 40, 38, 36, 35,
	33, 31, 30, 29, 27, 26, 25, 24, 22, 21, 20, 18, 17, 16, 15, 14, 14, 13, 12, 11, 10, 10, 9, 8, 8, 7, 7, 6, 6, 5, 5, 5, 4, 4, 4, 3, 3, 3, 3, 3, 2, 2, 2,
	2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0,
}

func (g *G) count(what string) { g.stats[what]++ }

var plainNames = []string{"n", "m", "a", "b", "x", "y", "p", "r", "foo", "bar2", "userName", "_id", "größe", "N", "Person", "value"}
var oddNames = []string{"`", "``", "a`b", "`a", "a`", "a b", " ", "  x", "x ", "1a", "9", "a-b", "a.b", "a:b", "{", "}", "a'b", `a"b`, `\`, `a\`, "a\nb",
	"//", "/* */", "a;b", "$x", "n:Admin", "x) DETACH DELETE (n", "`) RETURN 1 //", "名 前", "a\u0000b", "é̀", "😀", "a,b", "(", ")", "[", "]", "*", "\t", "-", "a\u00a0b", "\u2028",
	"`]->(x)", "`}", "``:``", "a``b", "`` ``", "MATCH (n)", "\\u0060", "a\\`b"}

func (g *G) odd1() bool { return g.p(g.odd) }

func isReserved(s string) bool { return reserved[strings.ToUpper(s)] || strings.EqualFold(s, "null") }

var reservedNames = func() []string {
	var s []string
	for k := range reserved {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}()

// name draws a variable name, alias, ...
func (g *G) name() string {
	if g.bad("name") {
		return ""
	}
	if g.odd1() {
		return g.use(g.oddName())
	}
	if g.invalid == "" && len(dict.NewStrings) > 0 && g.p(8) {
		return g.use(g.knownName())
	}
	if g.invalid == "" {
		if s := g.usedName(); s != "" {
			return s
		}
	}
	return g.use(plainNames[g.n(len(plainNames))])
}

// use keeps a name, things of other kinds may have the same one.
func (g *G) use(s string) string {
	if len(g.used) < g.usedMax && len(s) < 100 {
		g.used = append(g.used, s)
	}
	return s
}

// usedName draws the name of something else. "": there is none.
func (g *G) usedName() string {
	if len(g.used) == 0 || !g.p(g.usedP) {
		return ""
	}
	g.count("the name of something else")
	return pick(g, g.used)
}

// knownName draws a name from the dictionary.
func (g *G) knownName() string {
	g.count("name of the dictionary")
	return g.word()
}

func (g *G) oddName() string {
	if g.p(7) {
		return g.knownName()
	}
	if g.p(3) {
		if k := g.knownSize(3000); k > 0 {
			g.count("size of the dictionary")
			return strings.Repeat([]string{"a", "`", "é", "ab", "x ", "1"}[g.n(6)], k)
		}
	}
	if g.p(8) {
		g.count("reserved word as a name")
		s := reservedNames[g.n(len(reservedNames))]
		switch g.n(4) {
		case 0:
			return s
		case 1:
			return s[:1] + strings.ToLower(s[1:])
		}
		return strings.ToLower(s)
	}
	if g.p(50) {
		return oddNames[g.n(len(oddNames))]
	}
	if g.p(40) {
		// a soup of the characters that have a meaning somewhere
		k := 1 + g.n(6)
		parts := []string{"`", "``", "'", "\"", "\\", " ", "a", "B", "_", "1", ":", ".", "(", ")", "{", "}", "[", "]", "$", ",", "|", "*", "/", "-", ">", "\n", "é", "😀", "\\u0060"}
		s := ""
		for i := 0; i < k; i++ {
			s += parts[g.n(len(parts))]
		}
		return s
	}
	if k := g.more(1); k > 1 {
		// a long one
		s := ""
		for i := 1 + g.n(3); i > 0; i-- {
			s += strings.Repeat([]string{"a", "`", "B_", "é", "x ", "1a", "'", "z"}[g.n(8)], k)
			k = 1 + g.n(k)
		}
		return s
	}
	s := rapid.StringN(1, 8, -1).Draw(g.t, "name")
	if s == "" || strings.ContainsRune(s, '\uFFFD') {
		return "x"
	}
	return s
}

// key draws a property or map key.
func (g *G) key() string { return g.name() }

func (g *G) text() string {
	if g.invalid != "" {
		return []string{"a", "Hello", "it's", "x y"}[g.n(4)]
	}
	if s := g.usedName(); s != "" {
		return s
	}
	if g.p(40) {
		return []string{"", "a", "Hello", "it's", `say "hi"`, `back\slash`, `\`, `'`, `\'`, "line\nbreak", "tab\t", "' OR 1=1 //", "`", "\\n", "\\u0027", "ü", "😀", "a\u0000", "''", "\\\\'", "$x", "\r", "\b\f", "\u2028"}[g.n(24)]
	}
	if g.p(8) {
		g.count("text of the dictionary")
		return g.word()
	}
	if g.p(2) {
		if k := g.knownSize(70000); k > 0 {
			g.count("size of the dictionary")
			return strings.Repeat([]string{"a", "'", `\\`, "\n", "é", "ab"}[g.n(6)], k)
		}
	}
	if k := g.more(1); k > 1 {
		s := ""
		for i := 1 + g.n(3); i > 0; i-- {
			s += strings.Repeat([]string{"a", "'", `\\`, "it's", "\n", "😀", `\"x`, "z"}[g.n(8)], k*[]int{1, 1, 5, 100}[g.n(4)])
			k = 1 + g.n(k)
		}
		return s
	}
	s := rapid.StringN(0, 12, -1).Draw(g.t, "text")
	if strings.ContainsRune(s, '\uFFFD') {
		return "?"
	}
	return s
}

func q(s string) string { return strconv.Quote(s) }

func (g *G) mk(src string, mk func(*Env) cy.Expression, cn func(*Sc) *N) *Ex {
	g.cost += len(src)
	return &Ex{id: g.id(), src: src, mk: mk, cn: cn}
}

// ---- atoms

func (g *G) variable() *Ex {
	if len(g.aliases) > 0 && g.p(15) {
		al := g.aliases[g.n(len(g.aliases))]
		x := g.mk(al.ex.src+".AsName()", func(e *Env) cy.Expression { return e.ex(al.ex).(cy.AliasedExpression).AsName() }, func(*Sc) *N { return n("var", al.alias) })
		x.kind = "var"
		return x
	}
	return g.varOf(g.name())
}

func (g *G) varOf(name string) *Ex {
	sym := g.symbolic(name)
	x := g.mk(sym.src, func(*Env) cy.Expression { return sym.get() }, func(*Sc) *N { return n("var", sym.name) })
	x.kind = "var"
	return x
}

// A symbolic is a name as an object of its own.
type symbolic struct {
	src  string
	get  func() cy.SymbolicName
	name string
}

// missing stands for a name that an element does not have.
const missing = "\x00missing"

// unresolved stands for a name that is not known before a statement is rendered.
const unresolved = "\x00unresolved"

// unresolved draws a name that the renderer has to find, a new one or one that has been drawn before. One that may be
// aliased is not shared: its alias stands for every mention of it.
func (g *G) unresolved(shared bool) symbolic {
	g.count("unresolved name")
	if k := len(g.unres); shared && k > 0 && g.p(50) {
		g.count("unresolved name used again")
		return g.unres[g.n(k)]
	}
	g.unresN++
	v := cy.SymbolicNameUnResolve()
	x := symbolic{fmt.Sprintf("SymbolicNameUnResolve() /* %d */", g.unresN), func() cy.SymbolicName { return v }, unresolved + strconv.Itoa(g.unresN)}
	if shared {
		g.unres = append(g.unres, x)
	}
	return x
}

func (g *G) symbolic(name string) symbolic { return g.symbolicName(name, false) }

// sharedSymbolic is a symbolic name that is never aliased.
func (g *G) sharedSymbolic(name string) symbolic { return g.symbolicName(name, true) }

func (g *G) symbolicName(name string, shared bool) symbolic {
	if !g.bad("missing name") {
		if g.invalid == "" && !g.noUnres && g.p(3) {
			return g.unresolved(shared)
		}
		return symbolic{"ASymbolic(" + q(name) + ")", func() cy.SymbolicName { return cy.ASymbolic(name) }, name}
	}
	// the name of an element that has none
	if g.p(50) {
		return symbolic{`ANode("A").GetSymbolicName()` + mark, func() cy.SymbolicName { return cy.ANode("A").GetSymbolicName() }, missing}
	}
	return symbolic{`AnyNode().RelationshipTo(AnyNode()).GetSymbolicName()` + mark, func() cy.SymbolicName {
		return cy.AnyNode().RelationshipTo(cy.AnyNode()).GetSymbolicName()
	}, missing}
}

// Integers and floats are different: 5 / 2 is 2, 5 / 2.0 is 2.5.
func ratOfFloat(f float64) *N { return n("num", "float "+new(big.Rat).SetFloat64(f).RatString()) }
func numOf(i int64) *N        { return n("num", strconv.FormatInt(i, 10)) }

func (g *G) int() int {
	switch g.n(5) {
	case 0:
		if g.p(25) {
			return g.knownInt()
		}
		return g.n(10)
	case 1:
		return -g.n(1000)
	case 2:
		return []int{1 << 53, 1<<53 + 1, 1<<62 + 1, -1 << 63, 1<<63 - 1, 100000000, 16777217, 1000000, 21000000, -(1<<53 + 1)}[g.n(10)]
	case 3:
		return rapid.Int().Draw(g.t, "int")
	}
	return g.n(100000)
}

func (g *G) float() float64 {
	switch g.n(3) {
	case 0:
		return []float64{0, 0.5, 1, -1.5, 0.1, 1e21, 1e-7, 3.141592653589793, 123456789.125, 1e300, 5e-324, 1.7976931348623157e308, 9007199254740993, -0.000001, 1e6, 12345678.9, 100}[g.n(17)]
	case 1:
		if g.p(10) {
			f := float64(g.knownInt())
			if len(dict.Floats) > 0 && g.p(50) {
				f = pick(g, dict.Floats)
			}
			return f + []float64{0, 0, 0.5, -0.25}[g.n(4)]
		}
		return float64(g.n(100000)) / 8
	}
	for {
		f := rapid.Float64().Draw(g.t, "float")
		if f-f == 0 {
			return f
		}
		return 1.25
	}
}

func (g *G) number() *Ex {
	var x *Ex
	switch g.n(3) {
	case 0:
		if g.bad("literal") {
			v, s := g.unsupported()
			return g.mk("LiteralOf("+s+")", func(*Env) cy.Expression { return cy.LiteralOf(v) }, nil)
		}
		i := g.int()
		x = g.mk(fmt.Sprintf("LiteralOf(%d)", i), func(*Env) cy.Expression { return cy.LiteralOf(i) }, func(*Sc) *N { return numOf(int64(i)) })
	case 1:
		i := int64(g.int())
		x = g.mk(fmt.Sprintf("NumberLiteralCreate(%d)", i), func(*Env) cy.Expression { return cy.NumberLiteralCreate(i) }, func(*Sc) *N { return numOf(i) })
	default:
		f := g.float()
		x = g.mk("LiteralOf("+strconv.FormatFloat(f, 'g', -1, 64)+")", func(*Env) cy.Expression { return cy.LiteralOf(f) }, func(*Sc) *N { return ratOfFloat(f) })
	}
	x.kind = "num"
	return x
}

func (g *G) str() *Ex {
	s := g.text()
	return g.mk("LiteralOf("+q(s)+")", func(*Env) cy.Expression { return cy.LiteralOf(s) }, func(*Sc) *N { return n("str", s) })
}

func (g *G) boolean() *Ex {
	b := g.p(50)
	cn := func(*Sc) *N { return n("bool literal", strconv.FormatBool(b)) }
	if g.p(50) {
		return g.mk(fmt.Sprintf("LiteralOf(%v)", b), func(*Env) cy.Expression { return cy.LiteralOf(b) }, cn)
	}
	if b {
		return g.mk("LiteralTrue()", func(*Env) cy.Expression { return cy.LiteralTrue() }, cn)
	}
	return g.mk("LiteralFalse()", func(*Env) cy.Expression { return cy.LiteralFalse() }, cn)
}

func (g *G) null() *Ex {
	return g.mk("LiteralOf(nil)", func(*Env) cy.Expression { return cy.LiteralOf(nil) }, func(*Sc) *N { return n("null", "") })
}

func (g *G) paramName() string {
	if s := g.usedName(); identifier(s) {
		return s
	}
	return g.use(g.someParamName())
}

func (g *G) someParamName() string {
	if g.p(g.odd) {
		g.count("odd parameter")
		if g.p(15) {
			if s := g.word(); identifier(s) {
				return s
			}
		}
		s := pick(g, []string{"a", "_", "Z", "ж", "名", "7", "order", "return"})
		for i := g.more(g.n(5)); i > 0; i-- {
			s += pick(g, []string{"$", "€", "a", "B", "_", "0", "9", "é", "字", "e\u0301", "null", "$$", "AND", "limit"})
		}
		return s
	}
	return []string{"p", "param1", "x", "userId", "_a", "name", "größe", "0", "1", "limit"}[g.n(10)]
}

// unsupported draws a value that has no literal.
func (g *G) unsupported() (interface{}, string) {
	vs := []interface{}{struct{}{}, math.NaN(), math.Inf(1), math.Inf(-1), make(chan int), func() {}, complex(1, 2), struct{ A int }{1}, new(int), [2]int{1, 2}, map[string]int{"a": 1}, errors.New("x")}
	i := g.n(len(vs))
	return vs[i], fmt.Sprintf("%T %s", vs[i], mark)
}

func (g *G) param() *Ex {
	name := g.paramName()
	if g.bad("parameter") {
		given := []string{"", "$", "$$"}[g.n(3)]
		return g.mk("AParam("+q(given)+mark+")", func(*Env) cy.Expression { return cy.AParam(given) }, nil)
	}
	given := strings.Repeat("$", []int{0, 0, 0, 1, 2}[g.n(5)]) + name
	return g.mk("AParam("+q(given)+")", func(*Env) cy.Expression { return cy.AParam(given) }, func(*Sc) *N { return n("param", name) })
}

// literal draws a value for LiteralOf and its tree.
func (g *G) literal(depth int) (interface{}, *N, string) {
	k := 6
	if depth <= 0 {
		k = 5
	}
	if g.bad("literal") {
		v, s := g.unsupported()
		return v, nil, s
	}
	switch g.n(k) {
	case 0:
		i := g.int()
		return i, numOf(int64(i)), strconv.Itoa(i)
	case 1:
		s := g.text()
		return s, n("str", s), q(s)
	case 2:
		b := g.p(50)
		return b, n("bool literal", strconv.FormatBool(b)), strconv.FormatBool(b)
	case 3:
		f := g.float()
		return f, ratOfFloat(f), strconv.FormatFloat(f, 'g', -1, 64)
	case 4:
		return nil, n("null", ""), "nil"
	}
	l := []cy.Literal{}
	x := n("list", "")
	var src []string
	for i := g.more(g.n(4)); i > 0; i-- {
		v, t, s := g.literal(depth - 1)
		l = append(l, cy.LiteralOf(v))
		x.Kids = append(x.Kids, t)
		src = append(src, "LiteralOf("+s+")")
	}
	return l, x, "[]Literal{" + strings.Join(src, ", ") + "}"
}

func (g *G) literalEx() *Ex {
	v, t, s := g.literal(2)
	return g.mk("LiteralOf("+s+")", func(*Env) cy.Expression { return cy.LiteralOf(v) }, func(*Sc) *N { return t })
}

func (g *G) property() *Ex {
	if k := len(g.props); k > 0 && g.p(6) {
		g.count("property again")
		return g.props[k-1-g.n(k)%3%k]
	}
	x := g.newProperty()
	g.props = append(g.props, x)
	return x
}

func (g *G) newProperty() *Ex {
	k := g.key()
	if g.bad("unnamed") {
		if g.p(50) {
			nd := g.unnamed()
			x := g.mk(nd.ref()+".Property("+q(k)+")", func(e *Env) cy.Expression { return e.node(nd).Property(k) }, func(*Sc) *N { return n("prop", k) })
			x.kind = "prop"
			return x
		}
		r := g.unnamedRel()
		x := g.mk(r.ref()+".Property("+q(k)+")", func(e *Env) cy.Expression { return e.pattern(r).(cy.Relationship).Property(k) }, func(*Sc) *N { return n("prop", k) })
		x.kind = "prop"
		return x
	}
	if len(g.nodes) > 0 && g.p(40) {
		nd := g.nodes[g.n(len(g.nodes))]
		x := g.mk(nd.ref()+".Property("+q(k)+")", func(e *Env) cy.Expression { return e.node(nd).Property(k) },
			func(s *Sc) *N { return n("prop", k, s.symOf(nd.sym, nd.name)) })
		x.kind = "prop"
		return x
	}
	if len(g.rels) > 0 && g.p(30) {
		r := g.rels[g.n(len(g.rels))]
		x := g.mk(r.ref()+".Property("+q(k)+")", func(e *Env) cy.Expression { return e.pattern(r).(cy.Relationship).Property(k) },
			func(s *Sc) *N { return n("prop", k, n("var", r.name)) })
		x.kind = "prop"
		return x
	}
	c := g.name()
	x := g.mk("AProperty("+q(c)+", "+q(k)+")", func(*Env) cy.Expression { return cy.AProperty(c, k) },
		func(*Sc) *N { return n("prop", k, n("var", c)) })
	x.kind = "prop"
	return x
}

// symOf gives the reference to a named element, which may have got an alias.
func (s *Sc) symOf(sym int, name string) *N {
	if as := s.deleg[sym]; len(as) > 0 {
		return vars(as, n("var", name))
	}
	return n("var", name)
}

// remember makes an expression available for use at other places.
func (g *G) remember(x *Ex) *Ex {
	if !x.pat && len(g.pool) < 8 && g.p(25) && len(x.src) < 8000 {
		g.pool = append(g.pool, x)
	}
	return x
}

func (g *G) atom() *Ex {
	switch g.n(14) {
	case 0, 1:
		return g.variable()
	case 2, 3, 4, 5:
		return g.property()
	case 6, 7:
		return g.number()
	case 8, 9:
		return g.str()
	case 10:
		return g.boolean()
	case 11:
		return g.param()
	case 12:
		if len(g.aliases) > 0 {
			g.count("alias used again")
			return g.aliases[g.n(len(g.aliases))].ex
		}
		return g.null()
	}
	if len(g.pool) > 0 {
		g.count("object shared")
		return g.pool[g.n(len(g.pool))]
	}
	return g.literalEx()
}

// expr draws any expression, now and then one of the last ones again.
func (g *G) expr(depth int) *Ex {
	if g.bad("broken") {
		b := broken[g.n(len(broken))]
		return g.mk(b.src+mark, func(*Env) cy.Expression { return b.mk() }, nil)
	}
	if x := g.echo(); x != nil {
		return x
	}
	return g.heard(g.newExpr(depth))
}

// given draws an expression that is handed over: now and then, where something has to be invalid, there is none.
func (g *G) given(depth int) *Ex { return g.at("", depth) }

// at is given for the parts of one kind.
func (g *G) at(site string, depth int) *Ex {
	if g.site != "" && g.site != site {
		return g.expr(depth)
	}
	if g.bad("nil") {
		return g.mk("nil"+mark, func(*Env) cy.Expression { return nil }, nil)
	}
	switch site {
	case "compare", "quantifier", "function", "arith", "list", "comprehension", "case test":
		// something that nothing has been put into is noticed as well
		if g.bad("zero") {
			zs := []cy.Expression{cy.Property{}, cy.Parameter{}, cy.StringLiteral{}, cy.FunctionInvocation{}, cy.Comparison{}, cy.MapExpression{}, cy.ListExpression{}, cy.Operation{}, cy.CompoundCondition{}, cy.AliasedExpression{}}
			z := zs[g.n(len(zs))]
			return g.mk(fmt.Sprintf("%T{}", z)+mark, func(*Env) cy.Expression { return z }, nil)
		}
	}
	return g.expr(depth)
}

// givenPath is given for patterns.
func (g *G) givenPath(depth int) *Pt {
	if g.site == "" && g.bad("nil") {
		return &Pt{id: g.id(), none: true, src: "nil" + mark}
	}
	if g.site == "" && g.bad("zero") {
		z := emptyPatterns[g.n(len(emptyPatterns))]
		return &Pt{id: g.id(), none: true, zero: z.mk(), src: z.src + mark}
	}
	return g.path(depth)
}

func (g *G) echo() *Ex {
	k := len(g.recent)
	if k == 0 || !g.p(5) || g.enough() {
		return nil
	}
	g.count("one of the last expressions again")
	if g.p(50) {
		return g.recent[k-1]
	}
	return g.recent[g.n(k)]
}

func (g *G) heard(x *Ex) *Ex {
	if !x.pat && len(x.src) < 8000 {
		k := len(g.recent)
		if k > 3 {
			k = 3
		}
		g.recent = append(append([]*Ex{}, g.recent[len(g.recent)-k:]...), x)
	}
	return x
}

func (g *G) newExpr(depth int) *Ex {
	if g.focus != nil && g.p(g.focusP) {
		return g.remember(g.focus(depth))
	}
	if depth <= 0 || g.p(25) {
		return g.remember(g.atom())
	}
	var x *Ex
	switch g.n(12) {
	case 0, 1:
		x = g.arith(depth)
	case 2, 3:
		x = g.function(depth)
	case 4:
		x = g.caseEx(depth)
	case 5:
		x = g.list(depth)
	case 6:
		x = g.listOperator(depth)
	case 7:
		x = g.comprehension(depth)
	case 8:
		x = g.mapEx(depth)
	case 9:
		x = g.projection(depth)
	case 10:
		x = g.cond(depth)
	default:
		x = g.propertyOf(depth)
	}
	return g.remember(x)
}

func (g *G) exprN(k, depth int) []*Ex {
	r := make([]*Ex, k)
	for i := range r {
		r[i] = g.given(depth)
	}
	return r
}

var arithOps = []string{"+", "-", "*", "/", "%", "^", "concat"}

func (g *G) arith(depth int) *Ex {
	op := arithOps[g.n(len(arithOps))]
	l, r := g.operand(depth-1), g.givenOperand(depth-1)
	x := g.arithOf(op, l, r)
	for k := g.more(0); k > 0 && !g.enough(); k-- {
		if op = arithOps[g.n(len(arithOps))]; g.p(50) {
			x = g.arithOf(op, x, g.operand(0))
		} else {
			x = g.arithOf(op, g.operand(0), x)
		}
	}
	return x
}

func (g *G) givenOperand(depth int) *Ex {
	if (g.invalid == "nil" || g.invalid == "zero") && g.p(50) {
		return g.at("arith", depth)
	}
	return g.operand(depth)
}

func (g *G) operand(depth int) *Ex {
	if depth > 0 && g.p(50) {
		return g.arith(depth)
	}
	return g.expr(depth)
}

func (g *G) arithOf(op string, l, r *Ex) *Ex {
	method := map[string]string{"+": "Add", "-": "Subtract", "*": "Multiply", "/": "Divide", "%": "Remainder", "^": "Pow", "concat": "Concat"}[op]
	sign := op
	if op == "concat" {
		sign = "+"
	}
	x := g.mk(l.src+"."+method+"("+r.src+").Get()", func(e *Env) cy.Expression {
		a, b := e.ex(l), e.ex(r)
		switch op {
		case "+":
			return a.Add(b).Get()
		case "-":
			return a.Subtract(b).Get()
		case "*":
			return a.Multiply(b).Get()
		case "/":
			return a.Divide(b).Get()
		case "%":
			return a.Remainder(b).Get()
		case "^":
			return a.Pow(b).Get()
		}
		return a.Concat(b).Get()
	}, func(s *Sc) *N { a := s.ex(l); return n("bin", sign, a, s.ex(r)) })
	x.pat = anyPat(l, r)
	x.kind = "arith"
	return x
}

func (g *G) propertyOf(depth int) *Ex {
	c := g.at("property", depth-1)
	k := g.key()
	x := g.mk("APropertyByExpression("+c.src+", "+q(k)+")", func(e *Env) cy.Expression { return cy.APropertyByExpression(e.ex(c), k) },
		func(s *Sc) *N { return n("prop", k, s.ex(c)) })
	x.pat = c.pat
	x.kind = "propOf"
	return x
}

// ---- lists

func (g *G) list(depth int) *Ex {
	if g.p(20) {
		k := g.more(g.n(4))
		vs := make([]interface{}, k)
		ts := make([]*N, k)
		ss := make([]string, k)
		for i := 0; i < k; i++ {
			vs[i], ts[i], ss[i] = g.literal(1)
		}
		return g.mk("ListOfRaw("+strings.Join(ss, ", ")+")", func(e *Env) cy.Expression { return cy.ListOfRaw(arg(e, vs)...) },
			func(*Sc) *N { return n("list", "", ts...) })
	}
	if g.p(8) {
		// a list of one membership test looks like a comprehension
		l := g.variable()
		if g.p(20) {
			l = g.expr(depth - 1)
		}
		x := g.comparisonOf("IN", l, g.expr(depth-1))
		for g.p(40) {
			switch e := g.empty(); g.n(4) {
			case 0:
				x = g.combine(e, []string{"AND", "OR", "XOR"}[g.n(3)], x)
			case 1:
				x = g.combine(x, []string{"AND", "OR", "XOR"}[g.n(3)], e)
			case 2:
				x = g.combine(x, []string{"AND", "OR", "XOR"}[g.n(3)], g.plainCond(0))
			default:
				x = g.comparisonOf(comparisons[g.n(len(comparisons))], x, g.expr(0))
			}
		}
		return g.listOf([]*Ex{x})
	}
	return g.listOf(g.exprN(g.more(g.n(5)), depth-1))
}

func (g *G) listOf(xs []*Ex) *Ex {
	how := g.n(10)
	src := "ListOf(" + srcs(xs) + ")"
	if how == 8 {
		src = "ListExpressionCreate(NewExpressionList(" + srcs(xs) + "))"
	} else if how == 9 {
		src = "ListExpressionCreate1(" + srcs(xs) + ")"
	}
	x := g.mk(src, func(e *Env) cy.Expression {
		switch how {
		case 8:
			return cy.ListExpressionCreate(cy.NewExpressionList(arg(e, e.exs(xs))...))
		case 9:
			return cy.ListExpressionCreate1(arg(e, e.exs(xs))...)
		}
		return cy.ListOf(arg(e, e.exs(xs))...)
	}, func(s *Sc) *N { return n("list", "", s.exs(xs)...) })
	x.pat = anyPat(xs...)
	return x
}

func (g *G) listOperator(depth int) *Ex {
	target := g.at("list", depth-1)
	if g.p(30) {
		target = g.list(depth)
	}
	var x *Ex
	idx := func() (int, *N) { i := g.int(); return i, numOf(int64(i)) }
	switch g.n(8) {
	case 0:
		i, t := idx()
		x = g.mk(fmt.Sprintf("CypherValueAt(%s, %d)", target.src, i), func(e *Env) cy.Expression { return cy.CypherValueAt(e.ex(target), i) },
			func(s *Sc) *N { return n("index", "", s.ex(target), t) })
		x.pat = target.pat
	case 1:
		i, t := idx()
		j, u := idx()
		x = g.mk(fmt.Sprintf("ASubList(%s, %d, %d)", target.src, i, j), func(e *Env) cy.Expression { return cy.ASubList(e.ex(target), i, j) },
			func(s *Sc) *N { return n("slice", "", s.ex(target), t, u) })
		x.pat = target.pat
	case 2:
		i, t := idx()
		x = g.mk(fmt.Sprintf("CypherSubListFrom(%s, %d)", target.src, i), func(e *Env) cy.Expression { return cy.CypherSubListFrom(e.ex(target), i) },
			func(s *Sc) *N { return n("slice", "", s.ex(target), t, none) })
		x.pat = target.pat
	case 3:
		i, t := idx()
		x = g.mk(fmt.Sprintf("ASubListUntil(%s, %d)", target.src, i), func(e *Env) cy.Expression { return cy.ASubListUntil(e.ex(target), i) },
			func(s *Sc) *N { return n("slice", "", s.ex(target), none, t) })
		x.pat = target.pat
	case 4:
		i := g.at("list", depth-1)
		x = g.mk("CypherValueAtByExpression("+target.src+", "+i.src+")", func(e *Env) cy.Expression { return cy.CypherValueAtByExpression(e.ex(target), e.ex(i)) },
			func(s *Sc) *N { t := s.ex(target); return n("index", "", t, s.ex(i)) })
		x.pat = anyPat(target, i)
	case 5:
		i := g.at("list", depth-1)
		x = g.mk("ASubListFromByExpression("+target.src+", "+i.src+")", func(e *Env) cy.Expression { return cy.ASubListFromByExpression(e.ex(target), e.ex(i)) },
			func(s *Sc) *N { t := s.ex(target); return n("slice", "", t, s.ex(i), none) })
		x.pat = anyPat(target, i)
	case 6:
		i := g.at("list", depth-1)
		x = g.mk("CypherSubListUntilByExpression("+target.src+", "+i.src+")", func(e *Env) cy.Expression { return cy.CypherSubListUntilByExpression(e.ex(target), e.ex(i)) },
			func(s *Sc) *N { t := s.ex(target); return n("slice", "", t, none, s.ex(i)) })
		x.pat = anyPat(target, i)
	default:
		i, j := g.at("list", depth-1), g.at("list", depth-1)
		x = g.mk("SubList("+target.src+", "+i.src+", "+j.src+")", func(e *Env) cy.Expression { return cy.SubList(e.ex(target), e.ex(i), e.ex(j)) },
			func(s *Sc) *N { t := s.ex(target); a := s.ex(i); return n("slice", "", t, a, s.ex(j)) })
		x.pat = anyPat(target, i, j)
	}
	x.kind = "listop"
	return x
}

// comprehension draws a list or a pattern comprehension.
func (g *G) comprehension(depth int) *Ex {
	if !g.noPat && g.p(40) {
		return g.patternComprehension(depth)
	}
	var st *stem
	if x := g.anyStem("list comprehension"); x != nil {
		st = x
	} else {
		v := g.name()
		l := g.at("comprehension", depth-1)
		with, sym := "CypherListWith", g.sharedSymbolic(v)
		if g.p(10) {
			with = "ListComprehensionWith"
		}
		st = g.keepStem(&stem{kind: "list comprehension", src: with + "(" + sym.src + ").In(" + l.src + ")", pat: l.pat,
			mk: func(e *Env, _ interface{}) interface{} {
				if with == "ListComprehensionWith" {
					return cy.ListComprehensionWith(sym.get()).In(e.ex(l))
				}
				return cy.CypherListWith(sym.get()).In(e.ex(l))
			},
			cn: func(s *Sc) []*N { return []*N{n("var", sym.name), s.ex(l), none} }})
	}
	if !st.where && g.p(50) {
		w := g.condMaybeEmpty(depth - 1)
		base := st
		st = g.keepStem(&stem{kind: "list comprehension", parent: base, where: true, src: base.src + ".Where(" + w.src + ")", pat: anyPat(w) || base.pat,
			mk: func(e *Env, b interface{}) interface{} {
				return b.(cy.OngoingDefinitionWithList).Where(e.cond(w))
			},
			cn: func(s *Sc) []*N {
				r := base.cn(s)
				if !w.cm.empty {
					r[2] = s.ex(w)
				}
				return r
			}})
	}
	var ret []*Ex
	mode := g.n(3)
	switch mode {
	case 1:
		ret = g.exprN(g.more(1+g.n(3)), depth-1)
	case 2:
		if len(g.nodes) == 0 {
			mode = 0
		}
	}
	var named []*Nd
	if mode == 2 {
		for i := g.more(1 + g.n(2)); i > 0; i-- {
			if g.site == "" && g.bad("nil") {
				named = append(named, nil)
				continue
			}
			named = append(named, g.nodes[g.n(len(g.nodes))])
		}
	}
	src := st.src
	switch mode {
	case 0:
		src += ".ReturningDefault()"
	case 1:
		src += ".Returning(" + srcs(ret) + ")"
	case 2:
		src += ".ReturningByNamed(" + ndSrcs(named) + ")"
	}
	x := g.mk(src, func(e *Env) cy.Expression {
		o := e.stem(st).(cy.OngoingDefinitionWithoutReturn)
		switch mode {
		case 0:
			return o.ReturningDefault()
		case 1:
			return o.Returning(arg(e, e.exs(ret))...)
		}
		return o.ReturningByNamed(arg(e, e.named(named))...)
	}, func(s *Sc) *N {
		k := st.cn(s)
		proj := none
		switch mode {
		case 1:
			proj = listOrSingle(s.exs(ret))
		case 2:
			proj = listOrSingle(s.namedRefs(named))
		}
		return n("list comprehension", k[0].Val, k[1], k[2], proj)
	})
	x.pat = anyPat(ret...) || st.pat
	x.kind = "comprehension"
	return x
}

// stem is something under construction that several things may be made of.
type stem struct {
	id     int
	kind   string
	parent *stem
	src    string
	pat    bool
	where  bool
	model  cm
	ex     *Ex // the expression that it is
	data   interface{}
	mk     func(e *Env, parent interface{}) interface{}
	cn     func(s *Sc) []*N
}

func (e *Env) stem(x *stem) interface{} {
	if v, ok := e.memo[x.id]; ok {
		return v
	}
	var parent interface{}
	if x.parent != nil {
		parent = e.stem(x.parent)
	}
	v := x.mk(e, parent)
	e.memo[x.id] = v
	e.before()
	return v
}

func (g *G) keepStem(x *stem) *stem {
	x.id = g.id()
	if g.keeps(x.src) {
		g.stems = append(g.stems, x)
	}
	return x
}

// keeps tells whether something is kept to be derived from: things that hold each other many times over become huge.
func (g *G) keeps(src string) bool { return g.deriveP > 0 && len(src) < 4000 }

// anyStem gives one that exists already, if any.
func (g *G) anyStem(kind string) *stem {
	if len(g.stems) == 0 || !g.p(g.deriveP) {
		return nil
	}
	var fit []*stem
	for _, x := range g.stems {
		if x.kind == kind {
			fit = append(fit, x)
		}
	}
	if len(fit) == 0 {
		return nil
	}
	g.count("derived from the same " + kind)
	return fit[g.n(len(fit))]
}

func listOrSingle(xs []*N) *N {
	if len(xs) == 1 {
		return xs[0]
	}
	return n("list", "", xs...)
}

func (g *G) patternComprehension(depth int) *Ex {
	const kind = "pattern comprehension"
	st := g.anyStem(kind)
	if st == nil {
		if g.p(30) {
			np := g.namedPath(depth - 1)
			st = g.keepStem(&stem{kind: kind, src: "ListBasedOnNamed(" + np.src + ")", mk: func(e *Env, _ interface{}) interface{} { return cy.ListBasedOnNamed(e.namedPath(np)) },
				cn: func(s *Sc) []*N { t := s.namedPath(np); return []*N{n("name", t.Val), t.Kids[0], nil} }})
		} else {
			p := g.givenPath(depth - 1)
			st = g.keepStem(&stem{kind: kind, src: "ListBasedOn(" + p.src + ")", mk: func(e *Env, _ interface{}) interface{} { return cy.ListBasedOn(e.pattern(p)) },
				cn: func(s *Sc) []*N { return []*N{n("name", ""), s.pattern(p), nil} }})
		}
	}
	for i := g.n(5); i > 1; i-- {
		st = g.refineStem(st, depth)
	}
	byNamed := len(g.nodes) > 0 && g.p(25)
	var ret []*Ex
	var named []*Nd
	src := st.src
	if byNamed {
		for i := g.more(1 + g.n(2)); i > 0; i-- {
			if g.site == "" && g.bad("nil") {
				named = append(named, nil)
				continue
			}
			named = append(named, g.nodes[g.n(len(g.nodes))])
		}
		src += ".ReturningByNamed(" + ndSrcs(named) + ")"
	} else {
		ret = g.exprN(g.more(1+g.n(2)), depth-1)
		src += ".Returning(" + srcs(ret) + ")"
	}
	x := g.mk(src, func(e *Env) cy.Expression {
		o := e.stem(st).(cy.PatternComprehensionOngoingDefinitionWithoutReturn)
		if byNamed {
			return o.ReturningByNamed(arg(e, e.named(named))...)
		}
		return o.Returning(arg(e, e.exs(ret))...)
	}, func(s *Sc) *N {
		k := st.cn(s)
		name := k[0].Val
		if byNamed {
			return n(kind, name, k[1], orNone(k[2]), listOrSingle(s.namedRefs(named)))
		}
		return n(kind, name, k[1], orNone(k[2]), listOrSingle(s.exs(ret)))
	})
	x.pat = true
	x.kind = kind
	return x
}

// refineStem adds WHERE or a refinement of it to a pattern comprehension.
func (g *G) refineStem(base *stem, depth int) *stem {
	var pt *Pt
	var x *Ex
	var m cm
	if !g.noPat && g.p(20) {
		pt = g.givenPath(depth - 1)
	} else {
		x = g.condMaybeEmpty(depth - 1)
		m = *x.cm
	}
	y := &stem{kind: base.kind, parent: base, where: true, pat: true}
	op := ""
	if base.where {
		op = []string{"AND", "OR"}[g.n(2)]
		next, finding := combineCM(&base.model, op, &m)
		if finding {
			g.count("excluded: recorded finding")
			return base
		}
		y.model = next
	} else {
		y.model = m
	}
	y.src = base.src + map[string]string{"": ".Where", "AND": ".And", "OR": ".Or"}[op]
	if pt != nil {
		y.src += "Pattern(" + pt.src + ")"
	} else {
		y.src += "(" + x.src + ")"
	}
	y.mk = func(e *Env, b interface{}) interface{} {
		if op == "" {
			w := b.(cy.PatternComprehensionOngoingDefinitionWithPattern)
			if pt != nil {
				return w.WherePattern(e.pattern(pt))
			}
			return w.Where(e.cond(x))
		}
		c := b.(cy.PatternComprehensionOngoingDefinitionWithPatternAndWhere)
		switch {
		case op == "AND" && pt != nil:
			return c.AndPattern(e.pattern(pt))
		case op == "AND":
			return c.And(e.cond(x))
		case pt != nil:
			return c.OrPattern(e.pattern(pt))
		}
		return c.Or(e.cond(x))
	}
	y.cn = func(s *Sc) []*N {
		k := base.cn(s)
		var t *N
		if pt != nil {
			t = s.pattern(pt)
		} else if !x.isEmpty() {
			t = s.ex(x)
		}
		switch {
		case t == nil:
		case k[2] == nil:
			k[2] = t
		default:
			k[2] = boolOp(op, k[2], t)
		}
		return k
	}
	return g.keepStem(y)
}

// ---- maps

type entries struct {
	keys []string
	vals []*Ex
	raw  []interface{}
	src  string
	// of values that are no elements
	shown []string
	// makes it invalid
	spoil func(r []interface{}) []interface{}
}

// entries draws the contents of a map, values are expressions or plain values.
func (g *G) entries(max, depth int) *entries {
	m := g.plainEntries(max, depth, nil)
	var ss []string
	for i, k := range m.keys {
		if x, is := m.raw[i].(*Ex); is {
			ss = append(ss, q(k), x.src)
		} else {
			ss = append(ss, q(k), m.shown[i])
		}
	}
	if g.bad("map") {
		m.spoil, ss = g.badEntries(m, ss)
	}
	m.src = strings.Join(ss, ", ")
	return m
}

// plainEntries draws valid ones, with keys that are not used yet.
func (g *G) plainEntries(max, depth int, before map[string]bool) *entries {
	m := &entries{}
	used := m.known(before)
	for i := g.more(g.n(max + 1)); i > 0; i-- {
		k := g.key()
		for j := 2; used[k]; j++ {
			k = k + strconv.Itoa(j)
		}
		used[k] = true
		m.keys = append(m.keys, k)
		if g.p(40) {
			v, t, s := g.literal(1)
			if v == nil {
				s = "nil"
			}
			m.vals = append(m.vals, g.mk(s, func(*Env) cy.Expression { return cy.LiteralOf(v) }, func(*Sc) *N { return t }))
			m.raw = append(m.raw, v)
			m.shown = append(m.shown, s)
			continue
		}
		x := g.expr(depth)
		m.vals = append(m.vals, x)
		m.raw = append(m.raw, x)
		m.shown = append(m.shown, "")
	}
	return m
}

// badEntries draws what makes a map invalid.
func (g *G) badEntries(m *entries, ss []string) (func(r []interface{}) []interface{}, []string) {
	switch k := g.n(6); {
	case k == 0:
		// a key without a value
		return func(r []interface{}) []interface{} { return append(r, "lonely") }, append(ss, q("lonely")+mark)
	case k == 1 && len(m.keys) > 0:
		// a key twice
		i := g.n(len(m.keys))
		return func(r []interface{}) []interface{} { return append(r, r[2*i], "again") }, append(ss, q(m.keys[i])+mark, q("again"))
	case k <= 2:
		return func(r []interface{}) []interface{} { return append(r, 42, "value") }, append(ss, "42"+mark, q("value"))
	case k == 3:
		return func(r []interface{}) []interface{} { return append(r, nil, "value") }, append(ss, "nil"+mark, q("value"))
	case k == 4:
		return func(r []interface{}) []interface{} { return append(r, cy.ASymbolic("n"), "value") }, append(ss, "ASymbolic(\"n\")"+mark, q("value"))
	}
	v, s := g.unsupported()
	return func(r []interface{}) []interface{} { return append([]interface{}{"first", v}, r...) }, append([]string{q("first"), s}, ss...)
}

// unnamed draws a node that has no name.
func (g *G) unnamed() *Nd {
	nd := g.baseNode(false, 0)
	nd.src += mark
	return nd
}

func (g *G) unnamedRel() *Pt {
	for {
		before := len(g.rels)
		p := g.hop(nil, 0)
		g.rels = g.rels[:before:before]
		p.src += mark
		return p
	}
}

func (m *entries) args(e *Env) []interface{} {
	var r []interface{}
	for i, k := range m.keys {
		if x, is := m.raw[i].(*Ex); is {
			r = append(r, k, e.ex(x))
		} else {
			r = append(r, k, m.raw[i])
		}
	}
	if m.spoil != nil {
		r = m.spoil(r)
	}
	return r
}

func (m *entries) cn(s *Sc) *N {
	x := n("map", "")
	for i, k := range m.keys {
		x.Kids = append(x.Kids, n("entry", k, s.ex(m.vals[i])))
	}
	return x
}

// single gives the entries as elements that a map is composed of.
func (m *entries) single(e *Env) []cy.Expression {
	r := []cy.Expression{}
	for i, k := range m.keys {
		if x, is := m.raw[i].(*Ex); is {
			r = append(r, cy.EntryExpressionCreate(k, e.ex(x)))
		} else {
			r = append(r, cy.EntryExpressionCreate(k, cy.LiteralOf(m.raw[i])))
		}
	}
	return r
}

func (m *entries) singleSrc() string {
	var r []string
	for i, k := range m.keys {
		if x, is := m.raw[i].(*Ex); is {
			r = append(r, "EntryExpressionCreate("+q(k)+", "+x.src+")")
		} else {
			r = append(r, fmt.Sprintf("EntryExpressionCreate(%q, LiteralOf(%s))", k, m.shown[i]))
		}
	}
	return "[]Expression{" + strings.Join(r, ", ") + "}"
}

func (m *entries) known(base map[string]bool) map[string]bool {
	r := map[string]bool{}
	for k := range base {
		r[k] = true
	}
	for _, k := range m.keys {
		r[k] = true
	}
	return r
}

// badSingle makes a map of single entries invalid.
func (g *G) badSingle(m *entries, before map[string]bool) {
	var keys []string
	for k := range before {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	keys = append(keys, m.keys...)
	switch k := g.n(3); {
	case k == 0 || len(keys) == 0:
		m.keys, m.shown = append(m.keys, ""), append(m.shown, "")
		m.raw, m.vals = append(m.raw, g.atom()), append(m.vals, g.atom())
	case k == 1:
		v, src := g.unsupported()
		m.keys, m.shown = append(m.keys, "unsupported"), append(m.shown, src)
		m.raw, m.vals = append(m.raw, v), append(m.vals, g.atom())
	default:
		m.keys, m.shown = append(m.keys, keys[g.n(len(keys))]), append(m.shown, "")
		m.raw, m.vals = append(m.raw, g.atom()), append(m.vals, g.atom())
	}
}

func (g *G) mapEx(depth int) *Ex {
	st := g.anyStem("map")
	more := st != nil
	if st == nil {
		single := g.p(15)
		var m *entries
		if single {
			m = g.plainEntries(4, depth-1, nil)
			src := m.singleSrc()
			if g.bad("map") {
				g.badSingle(m, nil)
				src = m.singleSrc() + mark
			}
			m.src = src
		} else {
			m = g.entries(4, depth-1)
		}
		st = &stem{kind: "map", src: "MapOf(" + m.src + ")", pat: anyPat(m.vals...), data: m.known(nil),
			mk: func(e *Env, _ interface{}) interface{} { return cy.MapOf(arg(e, m.args(e))...) },
			cn: func(s *Sc) []*N { return m.cn(s).Kids }}
		if single {
			g.count("map of entries")
			st.src = "MapExpressionCreate(" + m.src + ")"
			st.mk = func(e *Env, _ interface{}) interface{} { return cy.MapExpressionCreate(arg(e, m.single(e))) }
		}
		st = g.keepStem(st)
	}
	for ; more && g.p(70) || g.p(7); more = false {
		g.count("AddEntries")
		base := st
		before := base.data.(map[string]bool)
		m := g.plainEntries(3, depth-1, before)
		src := m.singleSrc()
		if g.bad("map") {
			g.badSingle(m, before)
			src = m.singleSrc() + mark
		}
		st = g.keepStem(&stem{kind: "map", parent: base, src: base.src + ".AddEntries(" + src + ")", pat: base.pat || anyPat(m.vals...), data: m.known(before),
			mk: func(e *Env, b interface{}) interface{} { return b.(cy.MapExpression).AddEntries(arg(e, m.single(e))) },
			cn: func(s *Sc) []*N { k := base.cn(s); return append(k, m.cn(s).Kids...) }})
	}
	if st.ex != nil {
		return st.ex
	}
	x := g.mk(st.src, func(e *Env) cy.Expression { return e.stem(st).(cy.MapExpression) },
		func(s *Sc) *N { return n("map", "", st.cn(s)...) })
	x.pat = st.pat
	x.kind = "map"
	st.ex = x
	return x
}

// pjItem is a part of a map projection.
type pjItem struct {
	isKey, isSel, all bool
	bad               bool
	val               interface{}
	key, sel          string
	x                 *Ex
	nd                *Nd
	al                *Al
}

func (it pjItem) plainSel() bool { return it.isSel && it.x == nil }

func (g *G) pjItems(used map[string]bool, depth int) []pjItem {
	key := func() string {
		k := g.key()
		for j := 2; used[k]; j++ {
			k = k + strconv.Itoa(j)
		}
		used[k] = true
		return k
	}
	var its []pjItem
	if g.bad("projection") {
		its = append(its, pjItem{bad: true, isKey: true})
		switch k := g.n(5); {
		case k == 4:
			// has no name of its own
			its[0] = pjItem{bad: true, x: g.number()}
			if g.p(70) {
				its[0].x = g.arith(1)
			}
		case k == 0 && len(used) > 0:
			keys := []string{}
			for key := range used {
				keys = append(keys, key)
			}
			sort.Strings(keys)
			its[0] = pjItem{bad: true, isKey: true, key: keys[g.n(len(keys))], x: g.atom()}
		case k <= 1:
			a, b := g.atom(), g.atom()
			its = []pjItem{{isKey: true, key: "twice", x: a}, {bad: true, isKey: true, key: "twice", x: b}}
			if i := g.n(3); i < 2 && !g.noAlias {
				al := g.aliasNamed(g.property(), "twice")
				its[i].al, its[i].x = al, al.of
			}
		case k == 2:
			v, src := g.unsupported()
			its[0].val, its[0].key = v, src
		default:
			its[0].val, its[0].key = 42, "42"
		}
	}
	for i := g.more(g.n(5)); i > 0; i-- {
		k := 7
		if g.noAlias {
			k = 6
		}
		switch g.n(k) {
		case 6:
			of := g.expr(depth - 1)
			if of.kind == "alias" {
				of = g.property()
			}
			its = append(its, pjItem{al: g.aliasNamed(of, key())})
		case 0:
			sel := g.key()
			if sel == "*" {
				sel = "k" // the text stands for all properties
			}
			its = append(its, pjItem{isSel: true, sel: sel})
		case 1:
			its = append(its, pjItem{isKey: true, key: key(), x: g.at("projection", depth-1)})
		case 2:
			its = append(its, pjItem{all: true})
		case 3:
			its = append(its, pjItem{nd: g.aNode()})
		case 4:
			its = append(its, pjItem{x: g.varOf(g.name())})
		case 5:
			p := g.property()
			its = append(its, pjItem{isSel: true, x: p, sel: p.cn(newSc()).Val})
		}
	}
	// a selector by name followed by an expression would be a key with a value
	if !g.p(40) {
		// names last
		var a, b []pjItem
		for _, it := range its {
			if it.plainSel() {
				b = append(b, it)
			} else {
				a = append(a, it)
			}
		}
		return append(a, b...)
	}
	for i := len(its) - 1; i >= 0; i-- {
		if its[i].plainSel() && i+1 < len(its) && !its[i+1].plainSel() && !its[i+1].isKey {
			its[i] = pjItem{x: g.varOf("x")}
		}
	}
	return its
}

func pjArgs(e *Env, its []pjItem) []interface{} {
	var r []interface{}
	for _, it := range its {
		switch {
		case it.bad && it.x == nil:
			r = append(r, it.val)
		case it.all:
			r = append(r, cy.AnAsterisk())
		case it.al != nil:
			r = append(r, e.ex(it.al.ex))
		case it.nd != nil:
			r = append(r, e.node(it.nd))
		case it.isKey:
			r = append(r, it.key, e.ex(it.x))
		case it.x != nil:
			r = append(r, e.ex(it.x))
		default:
			r = append(r, it.sel)
		}
	}
	return r
}

func pjShow(its []pjItem) string {
	var r []string
	for _, it := range its {
		if it.bad {
			r = append(r, mark)
		}
		switch {
		case it.bad && it.x == nil:
			r = append(r, it.key)
		case it.all:
			r = append(r, "AnAsterisk()")
		case it.al != nil:
			r = append(r, it.al.ex.src)
		case it.nd != nil:
			r = append(r, it.nd.ref())
		case it.isKey:
			r = append(r, q(it.key), it.x.src)
		case it.x != nil:
			r = append(r, it.x.src)
		default:
			r = append(r, q(it.sel))
		}
	}
	return strings.Join(r, ", ")
}

func pjCn(s *Sc, its []pjItem) []*N {
	var r []*N
	for _, it := range its {
		switch {
		case it.all:
			r = append(r, n(".*", ""))
		case it.al != nil:
			r = append(r, n("entry", it.al.alias, s.ex(it.al.of)))
		case it.nd != nil:
			r = append(r, n("sel", "", s.symOf(it.nd.sym, it.nd.name)))
		case it.isKey:
			r = append(r, n("entry", it.key, s.ex(it.x)))
		case it.isSel:
			r = append(r, n(".sel", it.sel))
		default:
			r = append(r, n("sel", "", s.ex(it.x)))
		}
	}
	return r
}

func pjPat(its []pjItem) bool {
	for _, it := range its {
		if it.x != nil && it.x.pat || it.al != nil && it.al.of.pat {
			return true
		}
	}
	return false
}

func (g *G) projection(depth int) *Ex {
	st := g.anyStem("projection")
	more := st != nil
	if st == nil {
		var nd *Nd
		var rel *Pt
		src, sym, name := "", -1, ""
		if len(g.rels) > 0 && g.p(30) {
			rel = g.rels[g.n(len(g.rels))]
			src, name = rel.ref(), rel.name
		} else {
			nd = g.aNode()
			if rel == nil && g.bad("unnamed rel") {
				rel, nd = g.unnamedRel(), nil
				src, name, sym = rel.ref(), "", -1
			} else {
				src, name, sym = nd.ref(), nd.name, nd.sym
			}
		}
		used := map[string]bool{}
		its := g.pjItems(used, depth)
		st = g.keepStem(&stem{kind: "projection", src: src + ".Project(" + pjShow(its) + ")", pat: pjPat(its), data: used,
			mk: func(e *Env, _ interface{}) interface{} {
				if nd != nil {
					return e.node(nd).Project(arg(e, pjArgs(e, its))...)
				}
				return e.pattern(rel).(cy.Relationship).Project(arg(e, pjArgs(e, its))...)
			},
			cn: func(s *Sc) []*N { h := s.symOf(sym, name); return append([]*N{h}, pjCn(s, its)...) }})
	}
	for ; more && g.p(70) || g.p(30); more = false {
		used := map[string]bool{}
		for k := range st.data.(map[string]bool) {
			used[k] = true
		}
		its := g.pjItems(used, depth)
		base := st
		st = g.keepStem(&stem{kind: "projection", parent: base, src: base.src + ".And(" + pjShow(its) + ")", pat: base.pat || pjPat(its), data: used,
			mk: func(e *Env, b interface{}) interface{} { return b.(cy.MapProjection).And(arg(e, pjArgs(e, its))...) },
			cn: func(s *Sc) []*N { k := base.cn(s); return append(k, pjCn(s, its)...) }})
	}
	if st.ex != nil {
		return st.ex
	}
	x := g.mk(st.src, func(e *Env) cy.Expression { return e.stem(st).(cy.MapProjection) },
		func(s *Sc) *N { return n("projection", "", st.cn(s)...) })
	x.pat = st.pat
	x.kind = "projection"
	st.ex = x
	return x
}

// ---- case

// cs is a CASE under construction.
type cs struct {
	id     int
	parent *cs
	test   *Ex
	brs    []br
	els    *Ex
	ex     *Ex // the expression that it is
	src    string
	mk     func(e *Env, c cy.CaseEnding) cy.CaseEnding
}

type br struct{ w, t *Ex }

// wh is a WHEN without THEN.
type wh struct {
	id  int
	c   *cs
	w   *Ex
	src string
}

func (e *Env) cs(c *cs) cy.CaseEnding {
	if v, ok := e.memo[c.id]; ok {
		return v.(cy.CaseEnding)
	}
	var parent cy.CaseEnding
	if c.parent != nil {
		parent = e.cs(c.parent)
	}
	v := c.mk(e, parent)
	e.memo[c.id] = v
	e.before()
	return v
}

func (e *Env) when(x *wh) cy.OngoingWhenThen {
	if v, ok := e.memo[x.id]; ok {
		return v.(cy.OngoingWhenThen)
	}
	c := e.cs(x.c)
	v := c.When(e.ex(x.w))
	e.memo[x.id] = v
	return v
}

func (g *G) caseStart(depth int) *cs {
	c := &cs{id: g.id(), src: "GenericCaseExpression()"}
	if g.p(50) {
		c.test = g.at("case test", depth-1)
		c.src = "CaseExpression(" + c.test.src + ")"
	}
	if g.bad("orphan") {
		// a WHEN after one that belongs to no CASE
		a, b, w, t := g.cond(depth-1), g.expr(depth-1), g.expr(depth-1), g.expr(depth-1)
		c.src = "CaseWhenThenCreate(" + srcs([]*Ex{a, b}) + ").When(" + w.src + ").Then(" + t.src + ")" + mark
		c.brs = []br{{a, b}, {w, t}}
		c.mk = func(e *Env, _ cy.CaseEnding) cy.CaseEnding {
			return cy.CaseWhenThenCreate(e.ex(a), e.ex(b)).When(e.ex(w)).Then(e.ex(t))
		}
		return g.keepCase(c)
	}
	if g.p(10) {
		// of some branches at once
		var ss []string
		for i := g.more(1 + g.n(3)); i > 0; i-- {
			b := br{g.cond(depth - 1), g.at("case", depth-1)}
			c.brs = append(c.brs, b)
			ss = append(ss, "CaseWhenThenCreate("+b.w.src+", "+b.t.src+")")
		}
		brs := c.brs
		c.src = "GenericCaseCreate([]CaseWhenThen{" + strings.Join(ss, ", ") + "})"
		if c.test != nil {
			c.src = "SimpleCaseCreate(" + c.test.src + ", []CaseWhenThen{" + strings.Join(ss, ", ") + "})"
		}
		c.mk = func(e *Env, _ cy.CaseEnding) cy.CaseEnding {
			var ws []cy.CaseWhenThen
			for _, b := range brs {
				ws = append(ws, cy.CaseWhenThenCreate(e.ex(b.w), e.ex(b.t)))
			}
			if c.test != nil {
				return cy.SimpleCaseCreate(e.ex(c.test), arg(e, ws))
			}
			return cy.GenericCaseCreate(arg(e, ws))
		}
		return g.keepCase(c)
	}
	c.mk = func(e *Env, _ cy.CaseEnding) cy.CaseEnding {
		if c.test != nil {
			return cy.CaseExpression(e.ex(c.test))
		}
		return cy.GenericCaseExpression()
	}
	return g.keepCase(c)
}

func (g *G) keepCase(c *cs) *cs {
	if g.keeps(c.src) {
		g.cases = append(g.cases, c)
	}
	return c
}

func (g *G) caseBranch(c *cs, depth int) *cs {
	var x *wh
	if len(g.whens) > 0 && g.p(g.deriveP) {
		x = g.whens[g.n(len(g.whens))]
		g.count("derived from the same WHEN")
	} else {
		var w *Ex
		if c.test == nil && g.p(70) {
			w = g.cond(depth - 1)
		} else {
			w = g.at("case", depth-1)
		}
		x = &wh{id: g.id(), c: c, w: w, src: c.src + ".When(" + w.src + ")"}
		if g.keeps(x.src) {
			g.whens = append(g.whens, x)
		}
	}
	y := *x.c
	t := g.at("case", depth-1)
	y.id, y.parent, y.ex = g.id(), nil, nil
	y.brs = append(append([]br{}, x.c.brs...), br{x.w, t})
	y.src = x.src + ".Then(" + t.src + ")"
	y.mk = func(e *Env, _ cy.CaseEnding) cy.CaseEnding { w := e.when(x); return w.Then(e.ex(t)) }
	return g.keepCase(&y)
}

func (g *G) caseElse(c *cs, depth int) *cs {
	y := *c
	x := g.at("case", depth-1)
	y.id, y.parent, y.els, y.ex = g.id(), c, x, nil
	y.src = c.src + ".ElseDefault(" + x.src + ")"
	y.mk = func(e *Env, c cy.CaseEnding) cy.CaseEnding { return c.ElseDefault(e.ex(x)) }
	return g.keepCase(&y)
}

func (g *G) caseEx(depth int) *Ex {
	var c *cs
	if len(g.cases) > 0 && g.p(g.deriveP) {
		c = g.cases[g.n(len(g.cases))]
		g.count("derived from the same CASE")
	} else {
		c = g.caseStart(depth)
	}
	k := g.more(g.n(4))
	for ; k > 0 && !g.enough() || len(c.brs) == 0; k-- {
		c = g.caseBranch(c, depth)
		g.cost += 3 * len(c.src)
		if c.els == nil && g.p(15) {
			c = g.caseElse(c, depth)
		}
	}
	if c.els == nil && g.p(40) {
		c = g.caseElse(c, depth)
	}
	if c.ex != nil {
		return c.ex
	}
	x := g.mk(c.src, func(e *Env) cy.Expression { return e.cs(c) }, func(s *Sc) *N {
		t := none
		if c.test != nil {
			t = s.ex(c.test)
		}
		r := n("case", "", t)
		for _, b := range c.brs {
			w := s.ex(b.w)
			r.Kids = append(r.Kids, n("when", "", w, s.ex(b.t)))
		}
		if c.els != nil {
			r.Kids = append(r.Kids, n("else", "", s.ex(c.els)))
		}
		return r
	})
	x.pat = anyPat(c.test, c.els)
	for _, b := range c.brs {
		x.pat = x.pat || anyPat(b.w, b.t)
	}
	x.cm = &cm{}
	x.kind = "case"
	c.ex = x
	return x
}

// ---- aliased expressions

// Al is an expression with an alias, the first mention defines it.
type Al struct {
	ex    *Ex // the mention of it later on
	of    *Ex // the expression
	alias string
}

func pick[T any](g *G, xs []T) T { return xs[g.n(len(xs))] }
