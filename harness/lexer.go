package harness

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

type tok struct {
	kind string // id, qid, str, num, param, op, eof
	val  string
	pos  int
}

// lex splits a query into tokens by the lexical rules of openCypher. Comments are no part of any query that is built,
// two slashes are an error.
func lex(s string) ([]tok, error) {
	var ts []tok
	i := 0
	add := func(kind, val string, pos int) { ts = append(ts, tok{kind, val, pos}) }
	for i < len(s) {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == ' ' || r == '\t' || r == '\n' || r == '\r':
			i += w
		case r == '`':
			start := i
			i++
			var b strings.Builder
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("identifier at %d is not closed", start)
				}
				if s[i] == '`' {
					if i+1 < len(s) && s[i+1] == '`' {
						b.WriteByte('`')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(s[i])
				i++
			}
			if b.Len() == 0 {
				return nil, fmt.Errorf("empty identifier at %d", start)
			}
			add("qid", b.String(), start)
		case r == '\'' || r == '"':
			start := i
			v, next, err := lexString(s, i)
			if err != nil {
				return nil, err
			}
			i = next
			add("str", v, start)
		case r == '$':
			start := i
			i++
			j := i
			for j < len(s) {
				c, cw := utf8.DecodeRuneInString(s[j:])
				// currency signs are parts of identifiers
				if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) || j > i && unicode.In(c, unicode.Sc, unicode.Mn, unicode.Mc) {
					j += cw
					continue
				}
				break
			}
			if j == i {
				return nil, fmt.Errorf("parameter without name at %d", start)
			}
			add("param", s[i:j], start)
			i = j
		case r >= '0' && r <= '9':
			start := i
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				i++
			}
			if i+1 < len(s) && s[i] == '.' && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
				for i < len(s) && s[i] >= '0' && s[i] <= '9' {
					i++
				}
			}
			if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
				j := i + 1
				if j < len(s) && s[j] == '-' {
					j++
				}
				k := j
				for k < len(s) && s[k] >= '0' && s[k] <= '9' {
					k++
				}
				if k == j {
					return nil, fmt.Errorf("malformed exponent at %d", start)
				}
				i = k
			}
			if i < len(s) {
				c, _ := utf8.DecodeRuneInString(s[i:])
				if c == '_' || unicode.IsLetter(c) {
					return nil, fmt.Errorf("malformed number at %d", start)
				}
			}
			add("num", s[start:i], start)
		case r == '_' || unicode.IsLetter(r):
			start := i
			for i < len(s) {
				c, cw := utf8.DecodeRuneInString(s[i:])
				if c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) {
					i += cw
					continue
				}
				break
			}
			add("id", s[start:i], start)
		default:
			found := ""
			for _, op := range []string{"..", "=~", "+=", "<>", "<=", ">="} {
				if strings.HasPrefix(s[i:], op) {
					found = op
					break
				}
			}
			if strings.HasPrefix(s[i:], "//") || strings.HasPrefix(s[i:], "/*") {
				return nil, fmt.Errorf("comment at %d", i)
			}
			if found == "" && strings.ContainsRune("()[]{},:|.=<>+-*/%^", r) {
				found = string(r)
			}
			if found == "" {
				return nil, fmt.Errorf("character %q at %d is no part of any token", r, i)
			}
			add("op", found, i)
			i += len(found)
		}
	}
	ts = append(ts, tok{"eof", "", len(s)})
	return ts, nil
}

func lexString(s string, start int) (string, int, error) {
	quote := s[start]
	i := start + 1
	var b strings.Builder
	for {
		if i >= len(s) {
			return "", 0, fmt.Errorf("string at %d is not closed", start)
		}
		if s[i] == quote {
			return b.String(), i + 1, nil
		}
		if s[i] != '\\' {
			b.WriteByte(s[i])
			i++
			continue
		}
		if i+1 >= len(s) {
			return "", 0, fmt.Errorf("string at %d is not closed", start)
		}
		switch s[i+1] {
		case '\\', '\'', '"', '`':
			b.WriteByte(s[i+1])
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'u', 'U':
			size := 4
			if s[i+1] == 'U' {
				size = 8
			}
			if i+2+size > len(s) {
				return "", 0, fmt.Errorf("malformed escape at %d", i)
			}
			v, err := strconv.ParseUint(s[i+2:i+2+size], 16, 32)
			if err != nil {
				return "", 0, fmt.Errorf("malformed escape at %d", i)
			}
			b.WriteRune(rune(v))
			i += size
		default:
			return "", 0, fmt.Errorf("unknown escape at %d", i)
		}
		i += 2
	}
}
