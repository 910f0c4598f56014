package main

import (
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Literals of the sources under test, mixed into generated values.
var (
	dictStrings []string
	dictInts    []int
	dictSizes   []int // literals that are plausible lengths
	dictIdents  []string
)

func loadDict(repo string) {
	strs, ints := map[string]bool{}, map[int]bool{}
	var files []string
	_ = filepath.WalkDir(repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && strings.HasPrefix(d.Name(), ".") && path != repo {
			return filepath.SkipDir
		}
		if strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, "_test.go") {
			files = append(files, path)
		}
		return nil
	})
	sort.Strings(files)
	for _, path := range files {
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		fs := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fs.AddFile(path, -1, len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.STRING:
				v, err := strconv.Unquote(lit)
				if err == nil && v != "" && len(v) <= 64 && utf8.ValidString(v) && !strings.HasPrefix(v, "github.com/") {
					strs[v] = true
				}
			case token.CHAR:
				if v, err := strconv.Unquote(lit); err == nil && utf8.ValidString(v) {
					strs[v] = true
				}
			case token.INT:
				if v, err := strconv.ParseInt(strings.ReplaceAll(lit, "_", ""), 0, 64); err == nil {
					ints[int(v)] = true
				}
			}
		}
	}
	for s := range strs {
		dictStrings = append(dictStrings, s)
		if identRe(s) && !strings.EqualFold(s, "not") {
			dictIdents = append(dictIdents, s)
		}
	}
	for i := range ints {
		dictInts = append(dictInts, i)
		if i >= 2 && i <= 5000 {
			dictSizes = append(dictSizes, i)
		}
	}
	sort.Strings(dictStrings)
	sort.Strings(dictIdents)
	sort.Ints(dictInts)
	sort.Ints(dictSizes)
}

func identRe(s string) bool {
	for i := 0; i < len(s); i++ {
		if !isWord(s[i]) || i == 0 && (s[i] == '_' || s[i] >= '0' && s[i] <= '9') {
			return false
		}
	}
	return s != ""
}
