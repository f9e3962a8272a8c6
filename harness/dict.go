package harness

import (
	_ "embed"
	"encoding/json"
	"go/scanner"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A dictionary holds the constants of the code under test, for the generator: a condition on an unusual name, value, length
// or number of things can only be met by those who try that constant. Constants that occur more often than constants.txt says come first.
// What a case is expected to give does not depend on it.
type dictionary struct {
	Strings, NewStrings []string
	Ints, NewInts       []int
	Floats              []float64
}

var dict = readDictionary()

//go:embed constants.txt
var knownConstants string

func readDictionary() (d dictionary) {
	if f := os.Getenv("VERIF_DICT"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil || json.Unmarshal(b, &d) != nil {
			panic("VERIF_DICT can not be read")
		}
		return d
	}
	times := map[string]int{}
	for _, l := range strings.Split(knownConstants, "\n") {
		if k, c, ok := strings.Cut(l, " "); ok {
			times[c], _ = strconv.Atoi(k)
		}
	}
	for _, l := range constants() {
		count, lit, _ := strings.Cut(l, " ")
		now, _ := strconv.Atoi(count)
		known := now <= times[lit]
		if v, err := strconv.ParseInt(lit, 0, 64); err == nil {
			if v < 2 {
				continue
			}
			d.Ints = append(d.Ints, int(v))
			if !known {
				d.NewInts = append(d.NewInts, int(v))
			}
			continue
		}
		if v, err := strconv.ParseFloat(lit, 64); err == nil {
			if !math.IsInf(v, 0) {
				d.Floats = append(d.Floats, v)
			}
			continue
		}
		s, err := strconv.Unquote(lit)
		if err != nil || s == "" || len(s) > 200 || !utf8.ValidString(s) || strings.Count(s, " ") > 2 && known {
			continue
		}
		if known {
			d.Strings = append(d.Strings, s)
		} else {
			d.NewStrings = append(d.NewStrings, s)
		}
	}
	return d
}

// constants lists the literals in the code under test, and how often they occur.
func constants() []string {
	dir := os.Getenv("VERIF_REPO")
	if dir == "" {
		dir = "/repo"
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	all := map[string]int{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(f, fs.Base(), len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.STRING, token.CHAR, token.INT, token.FLOAT:
				if strings.ContainsRune(lit, '\n') {
					v, err := strconv.Unquote(lit)
					if err != nil {
						continue
					}
					lit = strconv.Quote(v)
				}
				all[lit]++
			}
		}
	}
	r := make([]string, 0, len(all))
	for c, k := range all {
		r = append(r, strconv.Itoa(k)+" "+c)
	}
	sort.Strings(r)
	return r
}

// word draws a string of the dictionary, or one made of it.
func (g *G) word() string {
	var s string
	switch {
	case len(dict.NewStrings) > 0 && g.p(60):
		s = pick(g, dict.NewStrings)
	case len(dict.NewInts) > 0 && g.p(40):
		s = string(rune(pick(g, dict.NewInts)))
		if s == "\uFFFD" {
			s = strconv.Itoa(pick(g, dict.NewInts))
		}
	case len(dict.Strings) > 0:
		s = pick(g, dict.Strings)
	default:
		return "x"
	}
	switch g.n(10) {
	case 5:
		s += pick(g, oddNames)
	case 6:
		s = pick(g, oddNames) + s
	case 0:
		s += pick(g, plainNames)
	case 1:
		s = pick(g, plainNames) + s
	case 2:
		s = "a" + s + "b"
	case 3:
		s += s
	case 4:
		if u := strings.ToUpper(s); u != s {
			s = u
		} else {
			s = strings.ToLower(s)
		}
	}
	return s
}

// knownSize draws a size near to one of the dictionary, not larger than max. 0: there is none.
func (g *G) knownSize(max int) int {
	ints := dict.NewInts
	if len(ints) == 0 || g.p(20) {
		ints = dict.Ints
	}
	if len(ints) == 0 {
		return 0
	}
	k := pick(g, ints) - 1 + g.n(3)
	if k < 1 || k > max {
		return 0
	}
	return k
}

// knownInt draws a number near to one of the dictionary.
func (g *G) knownInt() int {
	ints := dict.NewInts
	if len(ints) == 0 || g.p(30) {
		ints = dict.Ints
	}
	if len(ints) == 0 {
		return 0
	}
	v := pick(g, ints)
	if v < 63 && g.p(30) {
		v = 1 << v
	}
	v += g.n(3) - 1
	if g.p(30) {
		v = -v
	}
	return v
}

func identifier(s string) bool {
	for i, c := range s {
		if c != '_' && !unicode.IsLetter(c) && (i == 0 || !unicode.IsDigit(c)) {
			return false
		}
	}
	return s != ""
}
