package harness

import "testing"

func TestSmoke(t *testing.T) {
	(&Check{prop: "smoke", f: func(g *G, c *Case) {
		g.odd = []int{0, 8, 60}[g.n(3)]
		st := g.statement(1+g.n(4), 2+g.n(12), false)
		c.faithful(st)
		c.nontrivial = true
	}}).run(t)
}
