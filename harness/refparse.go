package main

import (
	"strconv"
	"unicode/utf8"
)

// An independent reading of the documented grammar: a backtracking recursive descent
// parser with ordered choice, written by hand from the description of the language.

type rp struct {
	b     []rune
	depth int
}

const refMaxDepth = 100000

// refParse returns the reading of s, or false if s is not a query.
func refParse(s string) (*N, bool) {
	if !utf8.ValidString(s) {
		return nil, false
	}
	p := &rp{b: []rune(s)}
	i := p.ws(0)
	n, i, ok := p.or(i)
	if !ok || p.ws(i) != len(p.b) {
		return nil, false
	}
	if n.has(func(x *N) bool { return x.K == "json" || x.K == "badint" }) {
		return nil, false
	}
	return n, true
}

func (p *rp) at(i int) rune {
	if i < len(p.b) {
		return p.b[i]
	}
	return -1
}

func (p *rp) eol(i int) int {
	switch p.at(i) {
	case '\r':
		if p.at(i+1) == '\n' {
			return i + 2
		}
		return i + 1
	case '\n':
		return i + 1
	}
	return -1
}

// ws skips blanks and comments, a comment ends with an end of line
func (p *rp) ws(i int) int {
	for {
		c := p.at(i)
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '\r' || c == '\n':
			i = p.eol(i)
		case (c == '-' || c == '/') && p.at(i+1) == c:
			j := i + 2
			for j < len(p.b) && p.b[j] != '\r' && p.b[j] != '\n' {
				j++
			}
			if j == len(p.b) {
				return i
			}
			i = p.eol(j)
		default:
			return i
		}
	}
}

func (p *rp) lit(i int, s string) (int, bool) {
	for _, c := range s {
		if p.at(i) != c {
			return i, false
		}
		i++
	}
	return i, true
}

// fold matches a keyword in any letter case
func (p *rp) fold(i int, s string) (int, bool) {
	for _, c := range s {
		d := p.at(i)
		if d != c && !(d >= 'A' && d <= 'Z' && d+'a'-'A' == c) {
			return i, false
		}
		i++
	}
	return i, true
}

// two matches word, blanks, word
func (p *rp) two(i int, f func(int, string) (int, bool), a, b string) (int, bool) {
	j, ok := f(i, a)
	if !ok {
		return i, false
	}
	k := p.ws(j)
	if k == j {
		return i, false
	}
	return f(k, b)
}

// or reads a chain and groups it by precedence
func (p *rp) or(i int) (*N, int, bool) {
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > refMaxDepth {
		panic("too deep for the reference parser")
	}
	first, i, ok := p.not(i)
	if !ok {
		return nil, i, false
	}
	operands, ops := []*N{first}, []string(nil)
	for {
		j := p.ws(i)
		op := ""
		if k, ok := p.fold(j, "and"); ok {
			op, j = "and", k
		} else if k, ok := p.fold(j, "or"); ok {
			op, j = "or", k
		} else if k, ok := p.lit(j, "&&"); ok {
			op, j = "and", k
		} else if k, ok := p.lit(j, "||"); ok {
			op, j = "or", k
		} else {
			break
		}
		n, k, ok := p.not(p.ws(j))
		if !ok {
			break
		}
		operands, ops, i = append(operands, n), append(ops, op), k
	}
	var or, and *N
	for k, n := range operands {
		switch {
		case k == 0:
			and = n
		case ops[k-1] == "and":
			and = nLogic(and, "and", n)
		default:
			if or == nil {
				or = and
			} else {
				or = nLogic(or, "or", and)
			}
			and = n
		}
	}
	if or != nil {
		and = nLogic(or, "or", and)
	}
	return and, i, true
}

func (p *rp) not(i int) (*N, int, bool) {
	if n, j, ok := p.compare(i); ok {
		return n, j, true
	}
	j, ok := p.fold(p.ws(i), "not")
	if !ok {
		return nil, i, false
	}
	k := p.ws(j)
	if k == j {
		return nil, i, false
	}
	n, k, ok := p.compare(k)
	if !ok {
		return nil, i, false
	}
	return nNot(n), k, true
}

var refSymbols = []struct{ s, op string }{
	{">=", "gte"}, {"<=", "lte"}, {"==", "eq"}, {"!=", "neq"}, {"<>", "neq"}, {">", "gt"}, {"<", "lt"}, {"=", "eq"},
}

func (p *rp) compareOp(i int) (string, int, bool) {
	i = p.ws(i)
	for _, o := range refSymbols {
		if j, ok := p.lit(i, o.s); ok {
			return o.op, p.ws(j), true
		}
	}
	for _, o := range []string{"gte", "lte", "gt", "lt", "eq", "neq", "like"} {
		if j, ok := p.fold(i, o); ok {
			return o, p.ws(j), true
		}
	}
	if j, ok := p.two(i, p.fold, "not", "like"); ok {
		return "not like", p.ws(j), true
	}
	return "", i, false
}

func (p *rp) compare(i int) (*N, int, bool) {
	l, i, ok := p.in(i)
	if !ok {
		return nil, i, false
	}
	for {
		op, j, ok := p.compareOp(i)
		if !ok {
			return l, i, true
		}
		r, j, ok := p.in(j)
		if !ok {
			return l, i, true
		}
		l, i = nCmp(l, op, r), j
	}
}

func (p *rp) in(i int) (*N, int, bool) {
	l, i, ok := p.pred(i)
	if !ok {
		return nil, i, false
	}
	j := p.ws(i)
	op := "in"
	k, ok := p.fold(j, "in")
	if !ok {
		op = "not in"
		k, ok = p.two(j, p.fold, "not", "in")
	}
	if ok {
		if r, k, ok := p.array(p.ws(k)); ok {
			return nCmp(l, op, r), k, true
		}
	}
	return l, i, true
}

func (p *rp) pred(i int) (*N, int, bool) {
	l, i, ok := p.between(i)
	if !ok {
		return nil, i, false
	}
	j := p.ws(i)
	if j == i {
		return l, i, true
	}
	if k, ok := p.lit(j, "isnull"); ok {
		return nPred(l, "is null"), p.ws(k), true
	}
	if k, ok := p.lit(j, "notnull"); ok {
		return nPred(l, "is not null"), p.ws(k), true
	}
	for _, v := range []string{"true", "false", "null"} {
		if k, ok := p.two(j, p.lit, "is", v); ok {
			return nPred(l, "is "+v), p.ws(k), true
		}
	}
	if k, ok := p.two(j, p.lit, "is", "not"); ok {
		if m := p.ws(k); m != k {
			for _, v := range []string{"true", "false", "null"} {
				if e, ok := p.lit(m, v); ok {
					return nPred(l, "is not "+v), p.ws(e), true
				}
			}
		}
	}
	return l, i, true
}

func (p *rp) between(i int) (*N, int, bool) {
	l, i, ok := p.primary(i)
	if !ok {
		return nil, i, false
	}
	j := p.ws(i)
	op := "between"
	if k, ok := p.fold(j, "not"); ok {
		if m := p.ws(k); m != k {
			op, j = "not between", m
		}
	}
	j, ok = p.lit(j, "between")
	if !ok {
		return l, i, true
	}
	j = p.ws(j)
	if lo, k, ok := p.value(j); ok {
		if k, ok := p.fold(p.ws(k), "and"); ok {
			if hi, k, ok := p.value(p.ws(k)); ok {
				return nBetween(op, l, lo, hi), k, true
			}
		}
	}
	if p.at(j) == '[' {
		if lo, k, ok := p.value(p.ws(j + 1)); ok {
			if k = p.ws(k); p.at(k) == ',' {
				if hi, k, ok := p.value(p.ws(k + 1)); ok {
					if k = p.ws(k); p.at(k) == ']' {
						return nBetween(op, l, lo, hi), k + 1, true
					}
				}
			}
		}
	}
	return l, i, true
}

func (p *rp) primary(i int) (*N, int, bool) {
	if p.at(i) == '(' {
		if n, j, ok := p.or(p.ws(i + 1)); ok {
			if j = p.ws(j); p.at(j) == ')' {
				return nParen(n), j + 1, true
			}
		}
	}
	if n, j, ok := p.value(i); ok {
		return n, j, true
	}
	name, j, ok := p.ident(i)
	if !ok {
		return nil, i, false
	}
	if p.at(j) == '(' {
		if args, k, ok := p.args(j); ok {
			return nFn(name, args...), k, true
		}
	}
	names, k := []string{name}, j
	for p.at(k) == '.' {
		n, m, ok := p.ident(k + 1)
		if !ok {
			break
		}
		names, k = append(names, n), m
	}
	if len(names) > 1 {
		return nRef(names...), k, true
	}
	json := false
	for {
		k, ok := p.lit(j, "->")
		if !ok {
			break
		}
		_, m, ok := p.ident(k)
		if !ok {
			break
		}
		json, j = true, m
	}
	if json {
		return &N{K: "json"}, j, true
	}
	return nID(name), j, true
}

func (p *rp) args(i int) ([]*N, int, bool) {
	i = p.ws(i + 1)
	var args []*N
	if n, j, ok := p.or(i); ok {
		args, i = append(args, n), j
		for {
			j := p.ws(i)
			if p.at(j) != ',' {
				break
			}
			n, j, ok := p.or(p.ws(j + 1))
			if !ok {
				break
			}
			args, i = append(args, n), j
		}
		if j := p.ws(i); p.at(j) == ',' {
			i = j + 1
		} else {
			i = j
		}
	}
	if i = p.ws(i); p.at(i) != ')' {
		return nil, i, false
	}
	return args, i + 1, true
}

func (p *rp) wordAt(i int) bool {
	c := p.at(i)
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (p *rp) ident(i int) (string, int, bool) {
	if j, ok := p.fold(i, "not"); ok && !p.wordAt(j) {
		return "", i, false
	}
	c := p.at(i)
	if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
		return "", i, false
	}
	j := i
	for p.wordAt(j) {
		j++
	}
	return string(p.b[i:j]), j, true
}

func (p *rp) value(i int) (*N, int, bool) {
	if n, j, ok := p.literal(i); ok {
		return n, j, true
	}
	return p.array(i)
}

func (p *rp) array(i int) (*N, int, bool) {
	closing := ']'
	switch p.at(i) {
	case '[':
	case '(':
		closing = ')'
	default:
		return nil, i, false
	}
	i = p.ws(i + 1)
	arr := nArr()
	if n, j, ok := p.literal(i); ok {
		arr.A, i = append(arr.A, n), j
		for {
			j := p.ws(i)
			if p.at(j) != ',' {
				break
			}
			n, j, ok := p.literal(p.ws(j + 1))
			if !ok {
				break
			}
			arr.A, i = append(arr.A, n), j
		}
		if j := p.ws(i); p.at(j) == ',' {
			i = j + 1
		} else {
			i = j
		}
	}
	if i = p.ws(i); p.at(i) != closing {
		return nil, i, false
	}
	return arr, i + 1, true
}

func (p *rp) literal(i int) (*N, int, bool) {
	c := p.at(i)
	switch {
	case c == '\'' || c == '"':
		for j := i + 1; j < len(p.b); j++ {
			if p.b[j] == c {
				return nStr(string(p.b[i+1 : j])), j + 1, true
			}
		}
		return nil, i, false
	case c == '0':
		return nInt(0), i + 1, true
	case c >= '1' && c <= '9':
		j := i
		for p.at(j) >= '0' && p.at(j) <= '9' {
			j++
		}
		v, err := strconv.ParseInt(string(p.b[i:j]), 10, 64)
		if err != nil {
			return &N{K: "badint"}, j, true
		}
		return nInt(int(v)), j, true
	}
	for _, w := range []string{"true", "false", "TRUE", "FALSE", "null", "NULL"} {
		if j, ok := p.lit(i, w); ok && !p.wordAt(j) {
			switch w {
			case "null", "NULL":
				return nNull(), j, true
			}
			return nBool(w == "true" || w == "TRUE"), j, true
		}
	}
	return nil, i, false
}
