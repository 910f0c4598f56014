package main

import "strings"

// sqlTok is a token of a SQL text: word, number, string, quoted (identifier), param, op, comment, bad
type sqlTok struct {
	Kind string
	Text string
}

// sqlTokens splits a SQL text. Identifiers are quoted with " or `.
func sqlTokens(s string) (toks []sqlTok) {
	quoted := func(i int, q byte) (string, int) {
		var sb strings.Builder
		for j := i + 1; j < len(s); j++ {
			if s[j] == q {
				if j+1 < len(s) && s[j+1] == q {
					sb.WriteByte(q)
					j++
					continue
				}
				return sb.String(), j + 1
			}
			sb.WriteByte(s[j])
		}
		return "", -1
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '"' || c == '`' || c == '\'':
			v, j := quoted(i, c)
			if j < 0 {
				return append(toks, sqlTok{"bad", s[i:]})
			}
			kind := "quoted"
			if c == '\'' {
				kind = "string"
			}
			toks = append(toks, sqlTok{kind, v})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (isWord(s[j]) || s[j] == '.') {
				j++
			}
			toks = append(toks, sqlTok{"number", s[i:j]})
			i = j
		case isWord(c):
			j := i
			for j < len(s) && isWord(s[j]) {
				j++
			}
			toks = append(toks, sqlTok{"word", s[i:j]})
			i = j
		case c == '?':
			toks = append(toks, sqlTok{"param", "?"})
			i++
		case c == '$':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			toks = append(toks, sqlTok{"param", s[i:j]})
			i = j
		case strings.HasPrefix(s[i:], "--"), strings.HasPrefix(s[i:], "/*"), c == '#':
			return append(toks, sqlTok{"comment", s[i:]})
		case strings.HasPrefix(s[i:], "::"), strings.HasPrefix(s[i:], "<="), strings.HasPrefix(s[i:], ">="), strings.HasPrefix(s[i:], "<>"), strings.HasPrefix(s[i:], "!="), strings.HasPrefix(s[i:], "||"):
			toks = append(toks, sqlTok{"op", s[i : i+2]})
			i += 2
		case strings.IndexByte("()=<>,.*+-", c) >= 0:
			toks = append(toks, sqlTok{"op", s[i : i+1]})
			i++
		default:
			return append(toks, sqlTok{"bad", s[i:]})
		}
	}
	return
}
