package main

import (
	"strings"
	"time"
	"unicode/utf8"
)

// V is a value of a row: null, an integer or a text. Booleans are 0 and 1.
type V struct {
	I *int64  `json:"i,omitempty"`
	S *string `json:"s,omitempty"`
}

func vInt(i int64) V  { return V{I: &i} }
func vStr(s string) V { return V{S: &s} }
func vBool(b bool) V {
	if b {
		return vInt(1)
	}
	return vInt(0)
}

func (v V) null() bool { return v.I == nil && v.S == nil }

// Go is the value as a driver argument
func (v V) Go() any {
	switch {
	case v.I != nil:
		return *v.I
	case v.S != nil:
		return *v.S
	}
	return nil
}

func (v V) String() string {
	switch {
	case v.I != nil:
		return Canon(nInt(int(*v.I)))
	case v.S != nil:
		return Canon(nStr(*v.S))
	}
	return "null"
}

func cmpV(a, b V) int {
	switch {
	case a.I != nil && b.I != nil:
		switch {
		case *a.I < *b.I:
			return -1
		case *a.I > *b.I:
			return 1
		}
		return 0
	case a.S != nil && b.S != nil:
		return strings.Compare(*a.S, *b.S)
	}
	panic("comparison of different types: " + a.String() + " " + b.String())
}

// Env resolves names for the evaluator.
type Env struct {
	Col  func(name string) V
	Ref  func(names []string) V
	Func func(n *N, e *Env) (V, bool)
	// the recorded exception for negated ranges
	NotBetweenAnd bool
	UsedNB        *bool
}

func (e *Env) eval(n *N) V {
	switch n.K {
	case "int":
		return vInt(int64(n.I))
	case "str":
		return vStr(n.S)
	case "bool":
		return vBool(n.B)
	case "null":
		return V{}
	case "id":
		return e.Col(n.S)
	case "ref":
		return e.Ref(n.Names)
	case "paren":
		return e.eval(n.A[0])
	case "not":
		return not3(e.truth(n.A[0]))
	case "logic":
		a, b := e.truth(n.A[0]), e.truth(n.A[1])
		if n.Op == "and" {
			return and3(a, b)
		}
		return not3(and3(not3(a), not3(b)))
	case "pred":
		a := e.eval(n.A[0])
		switch n.Op {
		case "is null":
			return vBool(a.null())
		case "is not null":
			return vBool(!a.null())
		}
		t := truthV(a)
		switch n.Op {
		case "is true":
			return vBool(!t.null() && *t.I == 1)
		case "is false":
			return vBool(!t.null() && *t.I == 0)
		case "is not true":
			return vBool(t.null() || *t.I == 0)
		case "is not false":
			return vBool(t.null() || *t.I == 1)
		}
	case "between":
		x, lo, hi := e.eval(n.A[0]), e.eval(n.A[1]), e.eval(n.A[2])
		if n.Op == "not between" && e.NotBetweenAnd {
			if e.UsedNB != nil {
				*e.UsedNB = true
			}
			return and3(compare3("lt", x, lo), compare3("gt", x, hi))
		}
		r := and3(compare3("gte", x, lo), compare3("lte", x, hi))
		if n.Op == "not between" {
			r = not3(r)
		}
		return r
	case "cmp":
		if n.Op == "in" || n.Op == "not in" {
			x := e.eval(n.A[0])
			r := vInt(0)
			for _, a := range n.A[1].A {
				eq := compare3("eq", x, e.eval(a))
				r = not3(and3(not3(r), not3(eq)))
			}
			if n.Op == "not in" {
				r = not3(r)
			}
			return r
		}
		return compare3(n.Op, e.eval(n.A[0]), e.eval(n.A[1]))
	case "func":
		if e.Func != nil {
			if v, ok := e.Func(n, e); ok {
				return v
			}
		}
		if n.S == "date" && len(n.A) > 0 {
			d := dateOf(e.eval(n.A[0]))
			for _, m := range n.A[1:] {
				d = modDate(d, m.S)
			}
			return d
		}
	}
	panic("cannot evaluate " + Canon(n))
}

func (e *Env) truth(n *N) V { return truthV(e.eval(n)) }

// Holds says if the query is true.
func (e *Env) Holds(n *N) bool {
	t := e.truth(n)
	return !t.null() && *t.I == 1
}

func truthV(v V) V {
	if v.null() {
		return v
	}
	if v.I == nil {
		panic("text as a condition: " + v.String())
	}
	return vBool(*v.I != 0)
}

func not3(v V) V {
	if v.null() {
		return v
	}
	return vBool(*v.I == 0)
}

func and3(a, b V) V {
	if !a.null() && *a.I == 0 || !b.null() && *b.I == 0 {
		return vInt(0)
	}
	if a.null() || b.null() {
		return V{}
	}
	return vInt(1)
}

func compare3(op string, a, b V) V {
	if a.null() || b.null() {
		return V{}
	}
	if op == "like" || op == "not like" {
		m := likeMatch(*b.S, *a.S)
		return vBool(m == (op == "like"))
	}
	c := cmpV(a, b)
	switch op {
	case "eq":
		return vBool(c == 0)
	case "neq":
		return vBool(c != 0)
	case "lt":
		return vBool(c < 0)
	case "lte":
		return vBool(c <= 0)
	case "gt":
		return vBool(c > 0)
	case "gte":
		return vBool(c >= 0)
	}
	panic("unknown operator " + op)
}

// likeMatch: % any text, _ any character, letters a-z in any case
func likeMatch(pattern, s string) bool {
	p := []rune(pattern)
	r := []rune(s)
	fold := func(c rune) rune {
		if c >= 'A' && c <= 'Z' {
			return c + 'a' - 'A'
		}
		return c
	}
	// ok[j]: p[:i] matches r[:j]
	ok := make([]bool, len(r)+1)
	ok[0] = true
	for _, c := range p {
		next := make([]bool, len(r)+1)
		any := false
		for j := 0; j <= len(r); j++ {
			switch {
			case c == '%':
				any = any || ok[j]
				next[j] = any
			case j == 0:
			case c == '_':
				next[j] = ok[j-1]
			default:
				next[j] = ok[j-1] && fold(c) == fold(r[j-1])
			}
		}
		ok = next
	}
	return ok[len(r)]
}

var dateMods = map[string]func(time.Time) time.Time{
	"+1 day":         func(d time.Time) time.Time { return d.AddDate(0, 0, 1) },
	"-40 days":       func(d time.Time) time.Time { return d.AddDate(0, 0, -40) },
	"start of month": func(d time.Time) time.Time { return d.AddDate(0, 0, 1-d.Day()) },
	"start of year":  func(d time.Time) time.Time { return d.AddDate(0, 0, 1-d.YearDay()) },
}

func modDate(v V, mod string) V {
	if v.null() {
		return v
	}
	d, err := time.Parse("2006-01-02", *v.S)
	if err != nil {
		panic(err)
	}
	return vStr(dateMods[mod](d).Format("2006-01-02"))
}

// dateOf cuts a time to its date. Other text is no date.
func dateOf(v V) V {
	if v.null() {
		return v
	}
	s := *v.S
	if len(s) < 10 || !utf8.ValidString(s) {
		return V{}
	}
	for i := 0; i < 10; i++ {
		digit := s[i] >= '0' && s[i] <= '9'
		if dash := i == 4 || i == 7; dash && s[i] != '-' || !dash && !digit {
			return V{}
		}
	}
	return vStr(s[:10])
}
