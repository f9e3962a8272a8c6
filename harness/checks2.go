package harness

import (
	"fmt"
	"runtime"
	"strings"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// ---- truth

// atoms numbers the elementary conditions of a text.
type atoms struct{ got []*N }

func (a *atoms) ofGot(x *N) int {
	for i, y := range a.got {
		if same(x, y) == "" {
			return i
		}
	}
	a.got = append(a.got, x)
	return len(a.got) - 1
}

// ofWant finds the atom of the text that an expected one stands for, -1 if there is none.
func (a *atoms) ofWant(x *N) int {
	for i, y := range a.got {
		if equivalent(x, y) == "" {
			return i
		}
	}
	return -1
}

type formula func(v []bool) bool

// formulaOf gives the truth function of a condition.
func formulaOf(x *N, atom func(*N) int) formula {
	switch {
	case x.Op == "bool":
		var fs []formula
		for _, k := range x.Kids {
			fs = append(fs, formulaOf(k, atom))
		}
		switch x.Val {
		case "AND":
			return func(v []bool) bool {
				for _, f := range fs {
					if !f(v) {
						return false
					}
				}
				return true
			}
		case "OR":
			return func(v []bool) bool {
				for _, f := range fs {
					if f(v) {
						return true
					}
				}
				return false
			}
		}
		return func(v []bool) bool {
			r := false
			for _, f := range fs {
				r = r != f(v)
			}
			return r
		}
	case x.Op == "not":
		f := formulaOf(x.Kids[0], atom)
		return func(v []bool) bool { return !f(v) }
	case x.Op == "bool literal":
		b := x.Val == "true"
		return func([]bool) bool { return b }
	}
	i := atom(x)
	return func(v []bool) bool { return i >= 0 && v[i] }
}

func logical(x *N) bool { return x.Op == "bool" || x.Op == "not" || x.Op == "bool literal" }

// equivalent is like same, but conditions need not have the same form, just the same truth table.
func equivalent(want, got *N) string {
	if want.Op == "alt" {
		first := ""
		for _, k := range want.Kids {
			d := equivalent(k, got)
			if d == "" {
				return ""
			}
			if first == "" {
				first = d
			}
		}
		return first
	}
	if logical(want) && (want.Op != "bool literal" || logical(got)) || logical(got) && got.Op != "bool literal" {
		return sameTruth(want, got)
	}
	if want.Op != got.Op || want.Val != got.Val || len(want.Kids) != len(got.Kids) {
		return fmt.Sprintf("want %s\n got %s", want, got)
	}
	for i := range want.Kids {
		if d := equivalent(want.Kids[i], got.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

func sameTruth(want, got *N) string {
	a := &atoms{}
	fg := formulaOf(got, a.ofGot)
	missing := ""
	used := map[int]bool{}
	fw := formulaOf(want, func(x *N) int {
		i := a.ofWant(x)
		if i < 0 {
			missing = x.String()
		}
		used[i] = true
		return i
	})
	if missing != "" {
		return fmt.Sprintf("the condition %s is missing in %s", missing, got)
	}
	if len(used) != len(a.got) {
		return fmt.Sprintf("other conditions\nwant %s\n got %s", want, got)
	}
	k := len(a.got)
	v := make([]bool, k)
	n := 1 << uint(k)
	if k > 12 {
		n = 4096
	}
	seed := uint64(88172645463325252)
	for j := 0; j < n; j++ {
		for i := range v {
			if k <= 12 {
				v[i] = j>>uint(i)&1 == 1
				continue
			}
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			v[i] = seed>>33&1 == 1
		}
		if w := fw(v); w != fg(v) {
			s := ""
			for i, x := range a.got {
				s += fmt.Sprintf("\n  %v: %s", v[i], x)
			}
			return fmt.Sprintf("the condition should be %v but is %v for%s\nwant %s\n got %s", w, !w, s, want, got)
		}
	}
	return ""
}

// leaf draws a small condition.
func (g *G) leaf() *Ex {
	if k := len(g.leaves); k > 0 && g.p(20) {
		// the same condition again, most often the last one
		x := g.leaves[k-1]
		if g.p(40) {
			x = g.leaves[g.n(k)]
		}
		if !x.pat || !g.noPat {
			g.count("condition repeated")
			return x
		}
	}
	x := g.newLeaf()
	g.leaves = append(g.leaves, x)
	return x
}

func (g *G) newLeaf() *Ex {
	k := []string{"a", "b", "c", "d", "e", "f", "g", "h"}[g.n(8)]
	p := g.mk("AProperty(\"n\", "+q(k)+")", func(*Env) cy.Expression { return cy.AProperty("n", k) }, func(*Sc) *N { return n("prop", k, n("var", "n")) })
	switch g.n(6) {
	case 0:
		return g.asCond(g.mk(p.src+".IsNull().Get()", func(e *Env) cy.Expression { return e.ex(p).IsNull().Get() }, func(s *Sc) *N { return n("is null", "", s.ex(p)) }), false)
	case 1:
		if !g.noPat {
			return g.patternCond(g.path(0))
		}
	}
	return g.comparisonOf("=", p, g.numberOf(g.n(3)))
}

func (g *G) numberOf(i int) *Ex {
	return g.mk(fmt.Sprintf("LiteralOf(%d)", i), func(*Env) cy.Expression { return cy.LiteralOf(i) }, func(*Sc) *N { return numOf(int64(i)) })
}

// logic draws a combination of k small conditions.
func (g *G) logic(k int) *Ex {
	if k <= 1 {
		switch {
		case g.p(4):
			g.count("empty condition")
			return g.empty()
		case g.p(10):
			return g.not(g.leaf())
		}
		return g.leaf()
	}
	if g.p(12) {
		return g.not(g.logic(k))
	}
	op := []string{"AND", "OR", "XOR"}[g.n(3)]
	if g.p(10) {
		// a chain of one kind
		x := g.logic(1)
		for i := 1; i < k; i++ {
			x = g.combine(x, op, g.logic(1))
		}
		return x
	}
	if k == 2 && g.p(12) && !g.noPat {
		return g.combinePattern(g.logic(1), op, g.path(0))
	}
	i := 1 + g.n(k-1)
	return g.combine(g.logic(i), op, g.logic(k-i))
}

func init() {
	add("C11", "conditions combined of up to 12 elementary ones by and, or, xor, not and the empty condition, given at once or by WHERE and its refinements, in MATCH, WITH, CALL, comprehensions, quantifiers, subqueries and CASE; the truth tables are compared for every assignment (random ones beyond 12 conditions); non-trivial: at least two different connectives", func(g *G, c *Case) {
		var st *St
		depth := 1 + g.n(3)
		g.noUnres = true
		g.prefer, g.preferP = []string{"where", "and", "or", "and", "or", "yield"}, 75
		logic := func(int) *Ex { return g.nonEmpty(g.logic(g.more(1 + g.n(6)))) }
		switch g.n(5) {
		case 0, 1:
			b := g.matchOn(nil, 1)
			b = g.whereLogic(b, "where", 1+g.n(10))
			for i := g.n(4); i > 0; i-- {
				if x := g.whereLogic(b, []string{"and", "or"}[g.n(2)], 1+g.n(4)); x != nil {
					b = x
				}
			}
			st = g.finish(g.complete(b, 1, true))
		case 2:
			g.focus, g.focusP = g.oneOf(logic, deep(g.quantifier, g.leaf), deep(g.comprehension, g.leaf), deep(g.caseEx, g.leaf), deep(g.existsSubquery, g.leaf)), 60
			g.conds, g.condsP = logic, 70
			st = g.around(depth)
		case 3:
			g.conds, g.condsP = logic, 70
			b := g.callOn(nil, depth)
			if g.p(50) {
				b = g.withOn(nil, depth)
			}
			st = g.finish(g.complete(g.grow(b, depth, 8), depth, false))
		default:
			g.conds, g.condsP = logic, 50
			st = g.statement(depth, 8, false)
		}
		c.calls(st.src)
		text := c.render(newEnv(), st)
		want := st.cn(newSc())
		c.want = want.String()
		got := c.read(text)
		if d := equivalent(want, got); d != "" {
			c.fail("the text means something else\n%s", d)
		}
		ops := map[string]bool{}
		got.walk(func(x *N) {
			if x.Op == "bool" || x.Op == "not" {
				ops[x.Op+x.Val] = true
			}
		})
		c.nontrivial = len(ops) >= 2
	})

	add("C23", "statements of every kind, rendered again and again by new renderers and by one renderer, between other statements (valid and invalid ones), after collections, built again from the same builder and from scratch; non-trivial: the text has at least 40 characters", func(g *G, c *Case) {
		var sts []*St
		depth := 1 + g.n(2)
		for i := 1 + g.n(3); i > 0; i-- {
			if g.p(60) {
				// with elements of the statements before
				sts = append(sts, g.statement(depth, 7, false))
				g.aliases, g.pool, g.recent, g.props = nil, nil, nil, nil
				continue
			}
			g.fresh(func() { sts = append(sts, g.statement(depth, 7, false)) })
		}
		src := ""
		for _, st := range sts {
			src += st.src + ";\n"
		}
		c.calls(src)
		e := newEnv()
		var built []cy.Statement
		var texts []string
		for _, st := range sts {
			built = append(built, e.must(st))
		}
		one := cy.NewRenderer()
		// rendering a statement with the same nodes that is refused, half way
		fails := func() {
			var els []cy.PatternElement
			for i := 1 + g.n(3); i > 0 && len(g.nodes) > 0; i-- {
				els = append(els, e.node(pick(g, g.nodes)))
			}
			bad, err := cy.Match(append(els, cy.AnyNode())...).Returning(cy.AnyNode().GetSymbolicName()).Build()
			if err == nil && g.p(50) {
				_, err = cy.NewRenderer().Render(bad)
			} else if err == nil {
				_, err = one.Render(bad)
			}
			if err == nil {
				c.fail("an invalid statement is rendered")
			}
		}
		for i := g.n(3); i > 0; i-- {
			fails()
		}
		check := func(what string, i int, text string, err error) {
			if err != nil {
				c.fail("%s: rendering fails: %v", what, err)
			}
			if len(texts) <= i {
				texts = append(texts, text)
				c.text = text
				c.nontrivial = c.nontrivial || len(text) >= 40
				return
			}
			if texts[i] != text {
				c.fail("%s: another text\n first %s\n now %s", what, texts[i], text)
			}
		}
		for i, st := range built {
			t, err := cy.NewRenderer().Render(st)
			check("first", i, t, err)
		}
		for k := 4 + g.n(8); k > 0; k-- {
			i := g.n(len(built))
			switch g.n(9) {
			case 8:
				fails()
			case 0:
				if g.p(20) {
					churn(200)
					runtime.GC()
				}
				t, err := cy.NewRenderer().Render(built[i])
				check("new renderer", i, t, err)
			case 1, 2, 3:
				t, err := one.Render(built[i])
				check("same renderer", i, t, err)
			case 4:
				// built from scratch
				e2 := newEnv()
				if g.p(50) {
					k := 0
					e2.hook = func() { k++; churn(k % 3) }
				}
				s2 := e2.must(sts[i])
				if g.p(30) {
					built[i] = s2
				}
				t, err := cy.NewRenderer().Render(s2)
				check("built from scratch", i, t, err)
			case 5:
				// built again by the same builder
				delete(e.memo, sts[i].id)
				t, err := cy.NewRenderer().Render(e.must(sts[i]))
				check("built again", i, t, err)
			case 6:
				// a statement that is refused, half way
				bad, err := cy.Match(cy.AnyNodeNamed("n"), cy.ANode("X").WithRawProperties("a", struct{}{})).Returning(cy.ASymbolic("n").As("a").Get()).Build()
				if err == nil {
					_, err = one.Render(bad)
				}
				if err == nil {
					c.fail("an invalid statement is rendered")
				}
			case 7:
				s, err := cy.Match(cy.ANode("Other").NamedByString("n")).Returning(cy.AProperty("n", "x").As("y").Get()).Limit(3).Build()
				if err == nil {
					_, err = one.Render(s)
				}
				if err != nil {
					c.fail("another statement: %v", err)
				}
			}
		}
		for i := range sts {
			t, err := cy.NewRenderer().Render(built[i])
			check("last", i, t, err)
		}
	})
}

// whereLogic adds a condition combined of k small ones.
func (g *G) whereLogic(b *Bd, m string, k int) *Bd {
	conds, p := g.conds, g.condsP
	g.conds, g.condsP = func(int) *Ex { return g.nonEmpty(g.logic(k)) }, 100
	r := g.whereOn(b, m, 1)
	g.conds, g.condsP = conds, p
	return r
}

func (g *G) nonEmpty(x *Ex) *Ex {
	if x.isEmpty() {
		return g.leaf()
	}
	return x
}

// variants draws short statements, each of an element that is derived from few common ones of one kind.
func (g *G) variants() []*St {
	g.noAlias, g.deriveP = true, 85
	g.prefer, g.preferP = nil, 0
	k := g.n(11)
	fs := []func(int) *Ex{g.projection, g.caseEx, g.comprehension, g.quantifier, g.existsSubquery, g.patternComprehension, g.mapEx, func(d int) *Ex { return g.arith(d) },
		func(d int) *Ex { return g.cond(d) }}
	if k < len(fs) {
		g.focus, g.focusP = deep(fs[k], g.variable), 25
		g.count(fmt.Sprint("variants of kind ", k))
	} else {
		g.focusP = 0
	}
	var sts []*St
	for i := 2 + g.n(4); i > 0; i-- {
		switch {
		case k < len(fs) && g.p(75):
			var xs []*Ex
			for j := 1 + g.n(2); j > 0; j-- {
				xs = append(xs, fs[k](1+b2i(g.p(20))))
			}
			sts = append(sts, g.finish(g.returningOf(nil, g.exprItems(xs), false)))
		case k < len(fs):
			sts = append(sts, g.finish(g.complete(g.whereOn(g.matchOn(nil, 0), "where", 2), 2, true)))
		case k == 9:
			sts = append(sts, g.finish(g.complete(g.patternBody(1, g.nodesOnly(1+g.n(2), 1)), 1, true)))
		default:
			sts = append(sts, g.finish(g.complete(g.patternBody(1, g.pathsOnly(1+g.n(2), 1)), 1, true)))
		}
	}
	return sts
}

// forks draws statements that have been derived from the same builders and elements.
func (g *G) forks(depth, calls int) ([]*Bd, []*St) {
	var bs []*Bd
	add := func(b *Bd) {
		b.after = g.pools.cap()
		bs = append(bs, b)
	}
	first := g.starter(depth)
	add(first)
	var sts []*St
	for i := 0; i < calls; i++ {
		// go on with one of the builders
		b := bs[len(bs)-1]
		if g.p(45) {
			b = bs[g.n(len(bs))]
			g.count("builder derived from again")
		}
		if !g.noAlias {
			g.pools = b.after.cap()
		}
		if len(b.cls) == 1 && strings.HasSuffix(b.cls[0].op, "match") {
			g.cut(b)
		}
		if can(b.kind, "build") && g.p(30) {
			sts = append(sts, g.finish(b))
			continue
		}
		if x := g.move(b, depth); x != nil {
			add(x)
		}
	}
	if len(sts) > 3 {
		sts = sts[:3]
	}
	// complete the ones that are last
	for k := 2 + g.n(2); k > 0; k-- {
		b := bs[g.n(len(bs))]
		if !g.noAlias {
			g.pools = b.after.cap()
		}
		sts = append(sts, g.finish(g.complete(b, depth, false)))
	}
	if g.p(25) {
		var ms []*St
		for _, st := range sts {
			if st.returns {
				ms = append(ms, st)
			}
		}
		if len(ms) > 1 {
			all := g.p(50)
			u := g.unionOf(all, ms[:2])
			sts = append(sts, u, g.unionOf(all, append([]*St{u}, ms[g.n(len(ms))])), g.unionOf(all, append([]*St{u}, ms[g.n(len(ms))])))
			g.count("union extended twice")
		}
	}
	return bs, sts
}

func init() {
	add("C24", "2-8 statements derived from common builders and elements (nodes, relationships, chains, CASEs, conditions, comprehensions, projections, unions), each step kept and derived from again, evaluated, built and rendered in random order; non-trivial: something has been derived from twice", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.deriveP = []int{0, 40, 70}[g.n(3)]
		g.noAlias = g.p(60)
		g.reuse = 50
		switch g.n(6) {
		case 0:
			g.prefer, g.preferP = []string{"where", "and", "or", "order", "andOrder", "sort", "skip", "limit"}, 60
		case 1:
			g.prefer, g.preferP = []string{"merge", "onCreate", "onMatch", "set", "create", "delete", "remove"}, 60
		case 2:
			g.prefer, g.preferP = []string{"call", "args", "yield", "where", "subquery"}, 60
		}
		if g.p(50) {
			g.focus, g.focusP = g.oneOf(deep(g.caseEx, g.variable), deep(g.projection, g.variable), deep(g.comprehension, g.variable), deep(g.quantifier, g.variable),
				deep(g.existsSubquery, g.variable), deep(g.mapEx, g.variable), deep(g.arith, g.atom)), 40
		}
		var kept []*Ex
		g.conds, g.condsP = func(d int) *Ex {
			if len(kept) > 0 && g.p(60) && g.noAlias {
				x := kept[g.n(len(kept))]
				if g.p(50) {
					return x
				}
				x = g.combine(x, []string{"AND", "OR", "XOR"}[g.n(3)], g.leaf())
				g.count("condition derived from again")
				if len(x.src) < 4000 { // conditions that hold each other many times over become huge
					kept = append(kept, x)
				}
				return x
			}
			x := g.nonEmpty(g.logic(1 + g.n(3)))
			if len(x.src) < 4000 {
				kept = append(kept, x)
			}
			return x
		}, 40
		var bs []*Bd
		var sts []*St
		if g.p(45) {
			sts = g.variants()
		} else {
			bs, sts = g.forks(depth, 4+g.n(10))
		}
		src := ""
		for _, st := range sts {
			src += st.src + ";\n"
		}
		c.calls(src)
		e := newEnv()
		e.guarded = true
		texts := map[int]string{}
		judge := func(i int) {
			text := c.render(e, sts[i])
			if !e.intact() {
				c.fail("statement %d: a slice of arguments that belongs to the caller has been written to", i+1)
			}
			if t, ok := texts[i]; ok {
				if t != text {
					c.fail("statement %d has changed\n before %s\n now %s", i+1, t, text)
				}
				return
			}
			texts[i] = text
			c.agree(sts[i], text)
		}
		// evaluate the steps and the statements in any order
		for k := g.n(2 * (len(bs) + len(sts))); k > 0; k-- {
			switch {
			case len(bs) > 0 && g.p(66):
				e.bd(bs[g.n(len(bs))])
			default:
				judge(g.n(len(sts)))
			}
		}
		for i := range sts {
			judge(i)
		}
		for i := range sts {
			delete(e.memo, sts[i].id) // builds it again
			judge(i)
		}
		for k := range g.stats {
			if strings.HasPrefix(k, "derived from") || strings.HasSuffix(k, "derived from again") {
				c.nontrivial = true
			}
		}
	})
}

// fragments are the parts that may be shared: everything but builders and statements.
func (e *Env) fragments() *Env {
	r := newEnv()
	for k, v := range e.memo {
		switch v.(type) {
		case cy.Expression, cy.Node, cy.RelationshipPattern, cy.NamedPath:
			if _, is := v.(cy.BuildableStatement); !is {
				r.memo[k] = v
			}
		}
	}
	return r
}

func init() {
	add("C25", "1-4 statements built and rendered by 2-8 goroutines at once (race detector on), from scratch, of shared elements, or the same statement, while other elements are created; texts are compared with the ones of sequential runs; non-trivial: elements are shared by goroutines", func(g *G, c *Case) {
		depth := 1 + g.n(2)
		g.reuse = 60
		var sts []*St
		src := ""
		for i := 1 + g.n(4); i > 0; i-- {
			st := g.statement(depth, 6, false)
			sts = append(sts, st)
			src += st.src + ";\n"
			g.aliases, g.pool, g.recent, g.props = nil, nil, nil, nil
		}
		type job struct{ st, mode int }
		jobs := make([][]job, 2+g.n(7))
		for i := range jobs {
			for j := 1 + g.n(3); j > 0; j-- {
				jobs[i] = append(jobs[i], job{g.n(len(sts)), g.n(4)})
			}
		}
		c.calls(fmt.Sprintf("%sgoroutines (statement, 0 from scratch, 1 and 2 of shared elements, 3 the same statement): %v", src, jobs))
		scratchFirst := g.p(60) || c.ck.evaluations == 0
		sharedFirst := g.p(60)
		type result struct {
			text string
			err  error
			out  string
		}
		run := func(only0 bool, shared *Env, built []cy.Statement) [][]result {
			res := make([][]result, len(jobs))
			begin := make(chan bool)
			done := make(chan bool)
			for i := range jobs {
				i := i
				e := newEnv()
				if shared != nil {
					e = shared.fragments()
				}
				go func() {
					defer func() {
						if x := recover(); x != nil {
							res[i] = append(res[i], result{out: fmt.Sprintf("panic: %v\n%s", x, stack())})
						}
						done <- true
					}()
					<-begin
					for _, j := range jobs[i] {
						var st cy.Statement
						var err error
						switch {
						case j.mode == 0 || only0:
							st, err = newEnv().stmt(sts[j.st])
						case j.mode == 3:
							st = built[j.st]
						default:
							delete(e.memo, sts[j.st].id)
							st, err = e.stmt(sts[j.st])
						}
						var text string
						if err == nil {
							text, err = cy.NewRenderer().Render(st)
						}
						res[i] = append(res[i], result{text: text, err: err})
						if j.mode == 2 {
							for k := 0; k < 3; k++ {
								_ = cy.AnyNodeNamed("other").WithRawProperties("k", k)
							}
						}
					}
				}()
			}
			close(begin)
			for range jobs {
				<-done
			}
			return res
		}
		var first [][]result
		if scratchFirst {
			first = run(true, nil, nil)
		}
		e := newEnv()
		var built []cy.Statement
		var want []string
		for _, st := range sts {
			built = append(built, e.must(st))
		}
		var second [][]result
		if sharedFirst {
			// nothing that is shared has been rendered before
			second = run(false, e, built)
		}
		for _, st := range sts {
			want = append(want, c.render(e, st))
		}
		c.text = strings.Join(want, ";\n")
		check := func(res [][]result) {
			for i := range res {
				for k, r := range res[i] {
					switch {
					case r.out != "":
						c.fail("goroutine %d: %s", i, r.out)
					case r.err != nil:
						c.fail("goroutine %d: error %v", i, r.err)
					case r.text != want[jobs[i][k].st]:
						c.fail("goroutine %d, statement %d:\n concurrently %s\n sequentially %s", i, jobs[i][k].st, r.text, want[jobs[i][k].st])
					}
				}
			}
		}
		check(first)
		check(second)
		check(run(false, e, built))
		for i, st := range built {
			if t, err := cy.NewRenderer().Render(st); err != nil || t != want[i] {
				c.fail("statement %d afterwards: %s %v, before: %s", i, t, err, want[i])
			}
		}
		shared := map[int]int{}
		for i := range jobs {
			for _, j := range jobs[i] {
				if j.mode > 0 {
					shared[j.st] |= 1 << uint(i)
				}
			}
		}
		for _, m := range shared {
			c.nontrivial = c.nontrivial || m&(m-1) != 0
		}
	})
}
