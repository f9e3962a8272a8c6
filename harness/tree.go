// Package harness holds the oracle (a Cypher reader), the generators and the checks.
package harness

import (
	"fmt"
	"strings"
)

// N is a node of the tree that a query text denotes, independent of blanks, parentheses and ways of quoting.
type N struct {
	Op, Val string
	Kids    []*N
}

func n(op, val string, kids ...*N) *N { return &N{op, val, kids} }

var none = n("none", "")

func orNone(x *N) *N {
	if x == nil {
		return none
	}
	return x
}

func (x *N) String() string {
	if x == nil {
		return "nil"
	}
	var b strings.Builder
	x.write(&b)
	return b.String()
}

func (x *N) write(b *strings.Builder) {
	b.WriteString(x.Op)
	if x.Val != "" {
		fmt.Fprintf(b, "<%q>", x.Val)
	}
	if len(x.Kids) > 0 {
		b.WriteString("(")
		for i, k := range x.Kids {
			if i > 0 {
				b.WriteString(", ")
			}
			if k == nil {
				b.WriteString("nil")
				continue
			}
			k.write(b)
		}
		b.WriteString(")")
	}
}

// same tells whether a tree is the one that is expected, "" if so and otherwise where it differs.
// An expected tree may contain alternatives.
func same(want, got *N) string {
	if want.Op == "alt" {
		first := ""
		for _, k := range want.Kids {
			d := same(k, got)
			if d == "" {
				return ""
			}
			if first == "" {
				first = d
			}
		}
		return first
	}
	if want.Op != got.Op || want.Val != got.Val && !(strings.HasPrefix(want.Val, unresolved) && got.Val != "") || len(want.Kids) != len(got.Kids) {
		return fmt.Sprintf("want %s\n got %s", want, got)
	}
	for i := range want.Kids {
		if d := same(want.Kids[i], got.Kids[i]); d != "" {
			return d
		}
	}
	return ""
}

// bind finds the names that stand for the unresolved ones, "" if each of them has exactly one of its own.
func bind(want, got *N) string {
	found, of, others := map[string]string{}, map[string]string{}, map[string]bool{}
	var walk func(want, got *N) string
	walk = func(want, got *N) string {
		if want.Op == "alt" {
			for _, k := range want.Kids {
				if same(k, got) == "" {
					return walk(k, got)
				}
			}
		}
		if !strings.HasPrefix(want.Val, unresolved) {
			others[want.Val] = true
		} else {
			if before, ok := found[want.Val]; ok && before != got.Val {
				return fmt.Sprintf("an unresolved name is rendered as %q and as %q", before, got.Val)
			}
			if x, ok := of[got.Val]; ok && x != want.Val {
				return fmt.Sprintf("two unresolved names are rendered as %q", got.Val)
			}
			found[want.Val], of[got.Val] = got.Val, want.Val
		}
		for i := range want.Kids {
			if d := walk(want.Kids[i], got.Kids[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if d := walk(want, got); d != "" {
		return d
	}
	for _, v := range found {
		if others[v] && !strings.Contains(strings.ToLower(v), "unresolved") {
			return fmt.Sprintf("an unresolved name is rendered as %q, which is the name of something else", v)
		}
	}
	return ""
}

// boolOp gives a conjunction, disjunction or exclusive disjunction, nested ones of the same kind are made flat, all
// three of them are associative.
func boolOp(op string, kids ...*N) *N {
	r := n("bool", op)
	for _, k := range kids {
		if k.Op == "bool" && k.Val == op {
			r.Kids = append(r.Kids, k.Kids...)
		} else {
			r.Kids = append(r.Kids, k)
		}
	}
	if len(r.Kids) == 1 {
		return r.Kids[0]
	}
	return r
}

// count gives the number of nodes with an operator in a tree.
func (x *N) count(op string) int {
	c := 0
	if x.Op == op {
		c++
	}
	for _, k := range x.Kids {
		c += k.count(op)
	}
	return c
}

func (x *N) size() int {
	c := 1
	for _, k := range x.Kids {
		c += k.size()
	}
	return c
}

func (x *N) walk(f func(*N)) {
	f(x)
	for _, k := range x.Kids {
		k.walk(f)
	}
}
