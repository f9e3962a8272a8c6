package harness

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// parse reads a query by the grammar of openCypher (the part of it that the library can produce) and gives its tree.

type parser struct {
	ts []tok
	i  int
}

type perr struct{ msg string }

func (p *parser) fail(format string, a ...interface{}) {
	panic(perr{fmt.Sprintf(format, a...) + fmt.Sprintf(" at %d", p.ts[p.i].pos)})
}

func (p *parser) cur() tok { return p.ts[p.i] }
func (p *parser) at(k int) tok {
	if p.i+k < len(p.ts) {
		return p.ts[p.i+k]
	}
	return p.ts[len(p.ts)-1]
}
func (p *parser) isOp(v string) bool { return p.cur().kind == "op" && p.cur().val == v }
func (p *parser) isKw(v string) bool { return p.cur().kind == "id" && p.cur().val == v }
func (p *parser) op(v string) bool {
	if p.isOp(v) {
		p.i++
		return true
	}
	return false
}
func (p *parser) kw(vs ...string) bool {
	for k, v := range vs {
		if t := p.at(k); t.kind != "id" || t.val != v {
			return false
		}
	}
	p.i += len(vs)
	return true
}
func (p *parser) needOp(v string) {
	if !p.op(v) {
		p.fail("expected %q, found %s %q", v, p.cur().kind, p.cur().val)
	}
}
func (p *parser) needKw(v ...string) {
	if !p.kw(v...) {
		p.fail("expected %q, found %s %q", v, p.cur().kind, p.cur().val)
	}
}

// attempt runs f and goes back if it fails.
func (p *parser) attempt(f func() *N) (r *N) {
	start := p.i
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(perr); !is {
				panic(e)
			}
			p.i = start
			r = nil
		}
	}()
	return f()
}

func runParser(s string, f func(p *parser) *N) (r *N, err error) {
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts}
	defer func() {
		if e := recover(); e != nil {
			pe, is := e.(perr)
			if !is {
				panic(e)
			}
			r, err = nil, fmt.Errorf("%s", pe.msg)
		}
	}()
	r = f(p)
	if p.cur().kind != "eof" {
		p.fail("unexpected %s %q", p.cur().kind, p.cur().val)
	}
	return r, nil
}

// Parse reads a complete statement.
func Parse(s string) (*N, error) {
	return runParser(s, func(p *parser) *N { return p.statement() })
}

var reserved = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range strings.Fields("AND OR XOR NOT IN IS NULL STARTS ENDS WITH CONTAINS CASE WHEN THEN ELSE END AS WHERE " +
		"MATCH OPTIONAL CREATE MERGE ON SET REMOVE DELETE DETACH UNWIND RETURN DISTINCT ORDER BY ASC DESC SKIP LIMIT CALL YIELD UNION ALL EXISTS " +
		"TRUE FALSE ASCENDING DESCENDING") {
		m[k] = true
	}
	return m
}()

// name reads any identifier. Reserved words, in any case, are none unless they are quoted.
func (p *parser) name() string {
	t := p.cur()
	if t.kind == "qid" || t.kind == "id" && !reserved[strings.ToUpper(t.val)] {
		p.i++
		return t.val
	}
	p.fail("expected a name, found %s %q", t.kind, t.val)
	return ""
}

// keyName reads the name of a property, a label or a type. Reserved words are allowed there.
func (p *parser) keyName() string {
	t := p.cur()
	if t.kind == "qid" || t.kind == "id" {
		p.i++
		return t.val
	}
	p.fail("expected a name, found %s %q", t.kind, t.val)
	return ""
}

func (p *parser) statement() *N {
	first := p.single()
	if !p.isKw("UNION") {
		return first
	}
	u := n("union", "", first)
	kind := ""
	for p.kw("UNION") {
		k := "UNION"
		if p.kw("ALL") {
			k = "UNION ALL"
		}
		if kind != "" && kind != k {
			p.fail("mixed unions")
		}
		kind = k
		u.Kids = append(u.Kids, p.single())
	}
	u.Val = kind
	return u
}

func (p *parser) single() *N {
	q := n("query", "")
	for {
		c := p.clause()
		if c == nil {
			break
		}
		q.Kids = append(q.Kids, c)
	}
	if len(q.Kids) == 0 {
		p.fail("no clause")
	}
	return q
}

func (p *parser) clause() *N {
	switch {
	case p.kw("OPTIONAL", "MATCH"):
		return n("optional match", "", p.patterns(), p.where())
	case p.kw("MATCH"):
		return n("match", "", p.patterns(), p.where())
	case p.kw("CREATE"):
		return n("create", "", p.patterns())
	case p.kw("MERGE"):
		m := n("merge", "", p.patterns())
		for {
			if p.kw("ON", "CREATE", "SET") {
				m.Kids = append(m.Kids, n("on create", "", p.setItems()...))
			} else if p.kw("ON", "MATCH", "SET") {
				m.Kids = append(m.Kids, n("on match", "", p.setItems()...))
			} else {
				return m
			}
		}
	case p.kw("SET"):
		return n("set", "", p.setItems()...)
	case p.kw("REMOVE"):
		r := n("remove", "")
		for {
			r.Kids = append(r.Kids, p.expr())
			if !p.op(",") {
				return r
			}
		}
	case p.kw("DETACH", "DELETE"):
		return n("detach delete", "", p.exprs()...)
	case p.kw("DELETE"):
		return n("delete", "", p.exprs()...)
	case p.kw("UNWIND"):
		e := p.expr()
		p.needKw("AS")
		return n("unwind", p.name(), e)
	case p.kw("WITH"):
		b := p.body("with")
		b.Kids = append(b.Kids, p.where())
		return b
	case p.kw("RETURN"):
		return p.body("return")
	case p.kw("CALL"):
		if p.op("{") {
			s := p.statement()
			p.needOp("}")
			return n("call subquery", "", s)
		}
		return p.call()
	}
	return nil
}

func (p *parser) call() *N {
	name := n("procname", "", n("part", p.keyName()))
	for p.op(".") {
		name.Kids = append(name.Kids, n("part", p.keyName()))
	}
	// without parentheses the parameters of the query are the arguments
	args := n("args", "implicit")
	if p.op("(") {
		args.Val = ""
		if !p.op(")") {
			args.Kids = p.exprs()
			p.needOp(")")
		}
	}
	yields := none
	if p.kw("YIELD") {
		yields = n("yield", "")
		for {
			y := n("item", "", n("var", p.name()))
			if p.kw("AS") {
				y.Val = p.name()
				y.Op = "as"
			}
			if y.Op == "item" {
				y = y.Kids[0]
			}
			yields.Kids = append(yields.Kids, y)
			if !p.op(",") {
				break
			}
		}
	}
	return n("call", "", name, args, yields, p.where())
}

func (p *parser) body(op string) *N {
	distinct := none
	if p.kw("DISTINCT") {
		distinct = n("distinct", "")
	}
	items := n("items", "")
	for {
		if p.op("*") {
			items.Kids = append(items.Kids, n("star", ""))
		} else {
			e := p.expr()
			if p.kw("AS") {
				e = n("as", p.name(), e)
			}
			items.Kids = append(items.Kids, e)
		}
		if !p.op(",") {
			break
		}
	}
	order, skip, limit := none, none, none
	if p.kw("ORDER", "BY") {
		order = n("order", "")
		for {
			e := p.expr()
			dir := ""
			if p.kw("ASC") {
				dir = "ASC"
			} else if p.kw("DESC") {
				dir = "DESC"
			}
			order.Kids = append(order.Kids, n("sort", dir, e))
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("SKIP") {
		skip = p.expr()
	}
	if p.kw("LIMIT") {
		limit = p.expr()
	}
	return n(op, "", distinct, items, order, skip, limit)
}

func (p *parser) where() *N {
	if p.kw("WHERE") {
		return p.expr()
	}
	return none
}

func (p *parser) setItems() []*N {
	var r []*N
	for {
		target := p.postfix()
		if p.op("=") {
			r = append(r, n("assign", "=", target, p.expr()))
		} else if p.op("+=") {
			r = append(r, n("assign", "+=", target, p.expr()))
		} else {
			r = append(r, target)
		}
		if !p.op(",") {
			return r
		}
	}
}

func (p *parser) exprs() []*N {
	var r []*N
	for {
		r = append(r, p.expr())
		if !p.op(",") {
			return r
		}
	}
}

func (p *parser) patterns() *N {
	r := n("patterns", "")
	for {
		r.Kids = append(r.Kids, p.pattern())
		if !p.op(",") {
			return r
		}
	}
}

// pattern reads one pattern of a MATCH, CREATE or MERGE.
func (p *parser) pattern() *N {
	if t := p.cur(); (t.kind == "id" || t.kind == "qid") && p.at(1).kind == "op" && p.at(1).val == "=" {
		name := p.name()
		p.needOp("=")
		if p.kw("shortestPath") {
			p.needOp("(")
			x := p.path(0)
			p.needOp(")")
			return n("named", name, n("call", "shortestPath", x))
		}
		return n("named", name, p.path(0))
	}
	return p.path(0)
}

// path reads a chain of nodes and relationships with at least min relationships.
func (p *parser) path(min int) *N {
	r := n("path", "", p.node())
	for {
		next := p.attempt(func() *N {
			rel := p.rel()
			return n("", "", rel, p.node())
		})
		if next == nil {
			break
		}
		r.Kids = append(r.Kids, next.Kids...)
	}
	if (len(r.Kids)-1)/2 < min {
		p.fail("expected a relationship")
	}
	return r
}

func (p *parser) node() *N {
	p.needOp("(")
	x := n("node", "")
	if t := p.cur(); t.kind == "id" || t.kind == "qid" {
		x.Val = p.name()
	}
	labels := n("labels", "")
	for p.op(":") {
		labels.Kids = append(labels.Kids, n("label", p.keyName()))
	}
	props := none
	if p.isOp("{") {
		props = p.mapLiteral()
	} else if p.cur().kind == "param" {
		props = p.atom()
	}
	p.needOp(")")
	x.Kids = []*N{labels, props}
	return x
}

func (p *parser) rel() *N {
	left := p.op("<")
	p.needOp("-")
	name := ""
	types, length, props := n("types", ""), none, none
	if p.op("[") {
		if t := p.cur(); t.kind == "id" || t.kind == "qid" {
			name = p.name()
		}
		if p.op(":") {
			types.Kids = append(types.Kids, n("type", p.keyName()))
			for p.op("|") {
				p.op(":")
				types.Kids = append(types.Kids, n("type", p.keyName()))
			}
		}
		if p.op("*") {
			min, max := "", ""
			if p.cur().kind == "num" {
				min = p.cur().val
				p.i++
				if p.op("..") {
					if p.cur().kind == "num" {
						max = p.cur().val
						p.i++
					}
				} else {
					max = min
				}
			} else if p.op("..") {
				if p.cur().kind == "num" {
					max = p.cur().val
					p.i++
				}
			}
			length = n("length", "", n("min", min), n("max", max))
		}
		if p.isOp("{") {
			props = p.mapLiteral()
		} else if p.cur().kind == "param" {
			props = p.atom()
		}
		p.needOp("]")
	}
	p.needOp("-")
	right := p.op(">")
	if left && right {
		p.fail("relationship in both directions")
	}
	dir := "--"
	if left {
		dir = "<--"
	}
	if right {
		dir = "-->"
	}
	return n("rel", dir, n("name", name), types, length, props)
}

func (p *parser) mapLiteral() *N {
	p.needOp("{")
	m := n("map", "")
	if p.op("}") {
		return m
	}
	for {
		k := p.keyName()
		p.needOp(":")
		m.Kids = append(m.Kids, n("entry", k, p.expr()))
		if !p.op(",") {
			break
		}
	}
	p.needOp("}")
	return m
}

func (p *parser) expr() *N { return p.or() }

func (p *parser) or() *N {
	ks := []*N{p.xor()}
	for p.kw("OR") {
		ks = append(ks, p.xor())
	}
	return boolOp("OR", ks...)
}

func (p *parser) xor() *N {
	ks := []*N{p.and()}
	for p.kw("XOR") {
		ks = append(ks, p.and())
	}
	return boolOp("XOR", ks...)
}

func (p *parser) and() *N {
	ks := []*N{p.not()}
	for p.kw("AND") {
		ks = append(ks, p.not())
	}
	return boolOp("AND", ks...)
}

func (p *parser) not() *N {
	if p.kw("NOT") {
		return n("not", "", p.not())
	}
	return p.comparison()
}

func (p *parser) comparison() *N {
	l := p.stringOps()
	var links []*N
	for {
		found := ""
		for _, o := range []string{"=", "<>", "<=", ">=", "<", ">"} {
			if p.isOp(o) {
				found = o
				break
			}
		}
		if found == "" {
			break
		}
		p.i++
		links = append(links, n("link", found, p.stringOps()))
	}
	if len(links) == 0 {
		return l
	}
	if len(links) == 1 {
		return n("bin", links[0].Val, l, links[0].Kids[0])
	}
	// a = b = c is a chain of comparisons in Cypher
	return n("chain", "", append([]*N{l}, links...)...)
}

func (p *parser) stringOps() *N {
	l := p.addSub()
	for {
		switch {
		case p.op("=~"):
			l = n("bin", "=~", l, p.addSub())
		case p.kw("STARTS", "WITH"):
			l = n("bin", "STARTS WITH", l, p.addSub())
		case p.kw("ENDS", "WITH"):
			l = n("bin", "ENDS WITH", l, p.addSub())
		case p.kw("CONTAINS"):
			l = n("bin", "CONTAINS", l, p.addSub())
		case p.kw("IN"):
			l = n("bin", "IN", l, p.addSub())
		case p.kw("IS", "NOT", "NULL"):
			l = n("is not null", "", l)
		case p.kw("IS", "NULL"):
			l = n("is null", "", l)
		default:
			return l
		}
	}
}

func (p *parser) addSub() *N {
	l := p.mulDiv()
	for {
		switch {
		case p.op("+"):
			l = n("bin", "+", l, p.mulDiv())
		case p.op("-"):
			l = n("bin", "-", l, p.mulDiv())
		default:
			return l
		}
	}
}

func (p *parser) mulDiv() *N {
	l := p.power()
	for {
		switch {
		case p.op("*"):
			l = n("bin", "*", l, p.power())
		case p.op("/"):
			l = n("bin", "/", l, p.power())
		case p.op("%"):
			l = n("bin", "%", l, p.power())
		default:
			return l
		}
	}
}

func (p *parser) power() *N {
	l := p.unary()
	for p.op("^") {
		l = n("bin", "^", l, p.unary())
	}
	return l
}

func (p *parser) unary() *N {
	if p.op("-") {
		if p.cur().kind == "num" && !p.postfixFollows(1) {
			v := p.cur().val
			p.i++
			return numN(v, true)
		}
		return n("neg", "", p.unary())
	}
	return p.postfix()
}

// postfixFollows tells whether the token after the next k ones starts a property lookup or a subscript.
func (p *parser) postfixFollows(k int) bool {
	t := p.at(k)
	return t.kind == "op" && (t.val == "." || t.val == "[" || t.val == ":")
}

func numN(text string, negative bool) *N {
	r, kind := new(big.Rat), ""
	if strings.ContainsAny(text, ".eE") {
		f, err := strconv.ParseFloat(text, 64)
		if err != nil {
			panic(perr{"number " + text + " can not be represented"})
		}
		r.SetFloat64(f)
		kind = "float "
		if r.Sign() == 0 {
			negative = false
		}
	} else if _, ok := r.SetString(text); !ok {
		panic(perr{"malformed number " + text})
	}
	if negative {
		r.Neg(r)
	}
	return n("num", kind+r.RatString())
}

func (p *parser) postfix() *N {
	x := p.atom()
	for {
		switch {
		case p.isOp(".") && (p.at(1).kind == "id" || p.at(1).kind == "qid"):
			p.i++
			x = n("prop", p.keyName(), x)
		case p.isOp(":") && x.Op != "map" && (p.at(1).kind == "id" || p.at(1).kind == "qid"):
			h := n("labels of", "", x)
			for p.op(":") {
				h.Kids = append(h.Kids, n("label", p.keyName()))
			}
			x = h
		case p.isOp("["):
			p.i++
			if p.op("..") {
				x = n("slice", "", x, none, p.expr())
				p.needOp("]")
				continue
			}
			e := p.expr()
			if p.op("..") {
				end := none
				if !p.isOp("]") {
					end = p.expr()
				}
				x = n("slice", "", x, e, end)
			} else {
				x = n("index", "", x, e)
			}
			p.needOp("]")
		default:
			return x
		}
	}
}

func (p *parser) atom() *N {
	t := p.cur()
	switch t.kind {
	case "str":
		p.i++
		return n("str", t.val)
	case "num":
		p.i++
		return numN(t.val, false)
	case "param":
		p.i++
		return n("param", t.val)
	case "op":
		switch t.val {
		case "(":
			if x := p.attempt(func() *N { return p.path(1) }); x != nil {
				return x
			}
			p.i++
			e := p.expr()
			p.needOp(")")
			return e
		case "{":
			return p.mapLiteral()
		case "[":
			return p.bracket()
		}
	case "id":
		switch t.val {
		case "true", "false":
			p.i++
			return n("bool literal", t.val)
		case "NULL", "null":
			p.i++
			return n("null", "")
		case "CASE":
			return p.caseExpr()
		case "EXISTS":
			if p.at(1).val == "{" && p.at(1).kind == "op" {
				p.i += 2
				q := n("exists subquery", "")
				for !p.op("}") {
					if !p.isKw("MATCH") && !p.isKw("OPTIONAL") {
						p.fail("expected MATCH")
					}
					q.Kids = append(q.Kids, p.clause())
				}
				if len(q.Kids) == 0 {
					p.fail("empty subquery")
				}
				return q
			}
		}
		if c := p.functionCall(); c != nil {
			return c
		}
	}
	if t.kind == "id" || t.kind == "qid" {
		name := p.name()
		if p.isOp("{") {
			return p.projection(name)
		}
		return n("var", name)
	}
	p.fail("unexpected %s %q", t.kind, t.val)
	return nil
}

// functionCall reads name(arguments) with dots in the name, nil if there is none.
func (p *parser) functionCall() *N {
	j := 0
	isName := func(t tok) bool { return t.kind == "id" || t.kind == "qid" }
	for isName(p.at(j)) && p.at(j+1).kind == "op" && p.at(j+1).val == "." {
		j += 2
	}
	if !isName(p.at(j)) || p.at(j+1).kind != "op" || p.at(j+1).val != "(" {
		return nil
	}
	if j == 0 && reserved[p.cur().val] {
		return nil
	}
	var parts []string
	for k := 0; k <= j; k += 2 {
		parts = append(parts, p.at(k).val)
	}
	name := strings.Join(parts, ".")
	p.i += j + 2
	switch name {
	case "any", "all", "none", "single":
		v := p.name()
		p.needKw("IN")
		l := p.expr()
		p.needKw("WHERE")
		w := p.expr()
		p.needOp(")")
		return n("quantifier", name, n("var", v), l, w)
	}
	c := n("call", name)
	if p.op(")") {
		return c
	}
	if p.kw("DISTINCT") {
		c.Op = "call distinct"
	}
	if p.isOp("*") && p.at(1).val == ")" {
		p.i += 2
		c.Kids = []*N{n("star", "")}
		return c
	}
	c.Kids = p.exprs()
	p.needOp(")")
	return c
}

func (p *parser) caseExpr() *N {
	p.needKw("CASE")
	test := none
	if !p.isKw("WHEN") && !p.isKw("ELSE") && !p.isKw("END") {
		test = p.expr()
	}
	c := n("case", "", test)
	for p.kw("WHEN") {
		w := p.expr()
		p.needKw("THEN")
		c.Kids = append(c.Kids, n("when", "", w, p.expr()))
	}
	if p.kw("ELSE") {
		c.Kids = append(c.Kids, n("else", "", p.expr()))
	}
	p.needKw("END")
	return c
}

// bracket reads a list, a list comprehension or a pattern comprehension.
func (p *parser) bracket() *N {
	isName := func(t tok) bool { return t.kind == "id" || t.kind == "qid" }
	if isName(p.at(1)) && p.at(2).kind == "id" && p.at(2).val == "IN" {
		if x := p.attempt(func() *N {
			p.needOp("[")
			v := p.name()
			p.needKw("IN")
			l := p.expr()
			w := p.where()
			proj := none
			if p.op("|") {
				proj = p.expr()
			}
			p.needOp("]")
			return n("list comprehension", v, l, w, proj)
		}); x != nil {
			return x
		}
	}
	if x := p.attempt(func() *N {
		p.needOp("[")
		name := ""
		if isName(p.at(0)) && p.at(1).val == "=" && p.at(1).kind == "op" {
			name = p.name()
			p.needOp("=")
		}
		var pat *N
		if name != "" && p.kw("shortestPath") {
			p.needOp("(")
			pat = n("call", "shortestPath", p.path(0))
			p.needOp(")")
		} else {
			pat = p.path(1)
		}
		w := p.where()
		p.needOp("|")
		proj := p.expr()
		p.needOp("]")
		return n("pattern comprehension", name, pat, w, proj)
	}); x != nil {
		return x
	}
	p.needOp("[")
	l := n("list", "")
	if p.op("]") {
		return l
	}
	l.Kids = p.exprs()
	p.needOp("]")
	return l
}

func (p *parser) projection(name string) *N {
	p.needOp("{")
	m := n("projection", "", n("var", name))
	if p.op("}") {
		return m
	}
	for {
		switch {
		case p.op("."):
			if p.op("*") {
				m.Kids = append(m.Kids, n(".*", ""))
			} else {
				m.Kids = append(m.Kids, n(".sel", p.keyName()))
			}
		default:
			k := p.keyName()
			if p.op(":") {
				m.Kids = append(m.Kids, n("entry", k, p.expr()))
			} else {
				m.Kids = append(m.Kids, n("sel", "", n("var", k)))
			}
		}
		if !p.op(",") {
			break
		}
	}
	p.needOp("}")
	return m
}
