package harness

import (
	"fmt"
	"os"
	"strings"
	"testing"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

// TestFindings tells which of the recorded findings of known_findings.txt still are.
func TestFindings(t *testing.T) {
	a := func(name string) cy.Condition { return cy.AProperty("n", name).IsNull().Get() }
	n := cy.AnyNodeNamed("n")
	s, err := cy.Match(n).Where(a("a").And(a("b")).Get().Or(a("c").And(a("d")).Get()).Get().And(a("e")).Get()).ReturningByNamed(n).Build()
	if err != nil {
		t.Fatal(err)
	}
	text, err := cy.NewRenderer().Render(s)
	if err != nil {
		t.Fatal(err)
	}
	if text == "MATCH (n) WHERE (n.a IS NULL AND n.b IS NULL OR (n.c IS NULL AND n.d IS NULL) AND n.e IS NULL) RETURN n" {
		fmt.Println("FINDING C11-flat")
	}
}

// TestConstants writes the list of constants that are known, see dict.go.
func TestConstants(t *testing.T) {
	if f := os.Getenv("VERIF_CONSTANTS"); f != "" {
		if err := os.WriteFile(f, []byte(strings.Join(constants(), "\n")+"\n"), 0o644); err != nil {
			t.Fatal(err)
		}
	}
}
