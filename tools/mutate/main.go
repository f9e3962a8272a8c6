// mutate lists small changes of the Go files given: one JSON object per line, with the offsets of the text to replace.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strconv"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string `json:"new"`
	Op       string `json:"op"`
	Line     int    `json:"line"`
	Old      string `json:"old"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	compiles := checker(os.Args[1:])
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(op string, from, to token.Pos, new string) {
			a, b := off(from), off(to)
			if string(src[a:b]) == new {
				return
			}
			if !compiles(file, string(src[:a])+new+string(src[b:])) {
				return
			}
			_ = enc.Encode(mutant{file, a, b, new, op, fs.Position(from).Line, string(src[a:b])})
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.IfStmt:
				put("if never", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
				put("if always", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
				if x.Else != nil {
					put("no else", x.Body.End(), x.Else.End(), "")
				}
			case *ast.BinaryExpr:
				for _, o := range map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"},
					token.GEQ: {">", "<="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}[x.Op] {
					put("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
				}
				if x.Op == token.LAND || x.Op == token.LOR || x.Op == token.ADD {
					put("left only", x.Pos(), x.End(), text(x.X))
					put("right only", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put("no not", x.Pos(), x.End(), text(x.X))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err == nil && s != "" {
						put("string", x.Pos(), x.End(), `""`)
						put("string", x.Pos(), x.End(), strconv.Quote(s+"x"))
						put("string", x.Pos(), x.End(), strconv.Quote(s+" "))
					} else {
						put("string", x.Pos(), x.End(), `"x"`)
					}
				case token.INT:
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						put("int", x.Pos(), x.End(), fmt.Sprint(v+1))
						if v > 0 {
							put("int", x.Pos(), x.End(), fmt.Sprint(v-1))
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					put("bool", x.Pos(), x.End(), "false")
				} else if x.Name == "false" {
					put("bool", x.Pos(), x.End(), "true")
				}
			case *ast.ExprStmt:
				put("no statement", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					put("no assignment", x.Pos(), x.End(), "")
				}
			case *ast.IncDecStmt:
				put("no step", x.Pos(), x.End(), "")
			case *ast.ReturnStmt:
				if len(x.Results) == 1 {
					if c, ok := x.Results[0].(*ast.CallExpr); ok {
						// return f(x, ..) of the receiver's type may become return x
						if s, ok := c.Fun.(*ast.SelectorExpr); ok {
							put("receiver only", x.Results[0].Pos(), x.Results[0].End(), text(s.X))
						}
						for _, a := range c.Args {
							put("argument only", x.Results[0].Pos(), x.Results[0].End(), text(a))
						}
					}
				}
			case *ast.RangeStmt:
				if len(x.Body.List) > 0 {
					put("first only", x.Body.Rbrace, x.Body.Rbrace, "; break; ")
				}
				if _, ok := x.X.(*ast.Ident); ok {
					put("all but last", x.X.Pos(), x.X.End(), text(x.X)+"[:(len("+text(x.X)+")+1)/2]")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					put("swap", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
				}
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
					put("no append", x.Pos(), x.End(), text(x.Args[0]))
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					if len(x.Args) == 1 {
						put("argument only", x.Pos(), x.End(), text(x.Args[0]))
					}
					if len(x.Args) <= 1 {
						put("receiver only", x.Pos(), x.End(), text(s.X))
					}
				} else if len(x.Args) == 1 {
					put("argument only", x.Pos(), x.End(), text(x.Args[0]))
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						put("no field", kv.Pos(), kv.End()+1, "")
					} else {
						_ = i
					}
				}
			case *ast.SliceExpr:
				put("whole slice", x.Pos(), x.End(), text(x.X))
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					put("no case", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
				}
			}
			return true
		})
	}
}

// checker tells whether the package compiles with one file replaced.
func checker(files []string) func(file, src string) bool {
	fs := token.NewFileSet()
	parsed := map[string]*ast.File{}
	for _, f := range files {
		x, err := parser.ParseFile(fs, f, nil, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		parsed[f] = x
	}
	imp := importer.ForCompiler(fs, "source", nil)
	check := func(m map[string]*ast.File) error {
		var all []*ast.File
		for _, f := range files {
			all = append(all, m[f])
		}
		_, err := (&types.Config{Importer: imp, GoVersion: "go1.14"}).Check("x", fs, all, nil)
		return err
	}
	if err := check(parsed); err != nil {
		panic(err)
	}
	return func(file, src string) bool {
		x, err := parser.ParseFile(fs, file, src, parser.SkipObjectResolution)
		if err != nil {
			return false
		}
		m := map[string]*ast.File{}
		for k, v := range parsed {
			m[k] = v
		}
		m[file] = x
		return check(m) == nil
	}
}
