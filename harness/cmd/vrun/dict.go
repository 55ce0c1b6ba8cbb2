package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"io/fs"
	"net/http"
	"net/url"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The literals of the code under test, as a fuzzer's dictionary: they only steer the workload towards values
// that the code compares with; nothing is judged by them.
var (
	dictInts    []int64
	dictStrings []string
	dictNames   []string            // names of headers, query parameters, variables: what the code looks up
	dictNear    map[string][]string // the strings around a name
)

func loadDict(root string) {
	ints, strs := map[int64]bool{}, map[string]bool{}
	near := map[string]map[string]bool{}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch x := e.(type) {
		case *ast.BasicLit:
			if x.Kind == token.INT || x.Kind == token.CHAR || x.Kind == token.STRING {
				return constant.MakeFromLiteral(x.Value, x.Kind, 0)
			}
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil || a.Kind() != b.Kind() {
				return nil
			}
			switch x.Op {
			case token.SHL, token.SHR:
				if n, ok := constant.Uint64Val(b); ok && n < 60 {
					return constant.Shift(a, x.Op, uint(n))
				}
			case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
				return constant.BinaryOp(a, x.Op, b)
			case token.QUO:
				return constant.BinaryOp(a, token.QUO_ASSIGN, b)
			}
		}
		return nil
	}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() && (d.Name() == ".git" || d.Name() == "vendor" || d.Name() == "node_modules") {
			return filepath.SkipDir
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), path, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil
		}
		for _, decl := range f.Decls {
			var names, around []string
			ast.Inspect(decl, func(n ast.Node) bool {
				var arg ast.Expr
				switch x := n.(type) {
				case *ast.CallExpr:
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 {
						switch sel.Sel.Name { // headers with accessors of their own
						case "UserAgent":
							names = append(names, "User-Agent")
						case "Referer":
							names = append(names, "Referer")
						case "BasicAuth":
							names = append(names, "Authorization")
						case "Cookies":
							names = append(names, "Cookie")
						}
					}
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) > 0 {
						switch sel.Sel.Name {
						case "Get", "Values", "FormValue", "PostFormValue", "Has", "Cookie", "Getenv", "LookupEnv":
							arg = x.Args[0]
							if v := eval(arg); sel.Sel.Name == "Cookie" && v != nil && v.Kind() == constant.String {
								names = append(names, "Cookie")
								around = append(around, constant.StringVal(v)+"=1")
							}
						}
					}
				case *ast.IndexExpr:
					arg = x.Index
				case *ast.BasicLit:
					if v := eval(x); v != nil && v.Kind() == constant.String {
						if t := constant.StringVal(v); t != "" && len(t) <= 64 && utf8.ValidString(t) {
							around = append(around, t)
						}
					}
				}
				if arg != nil {
					if v := eval(arg); v != nil && v.Kind() == constant.String {
						if t := constant.StringVal(v); t != "" && len(t) <= 40 && !strings.ContainsFunc(t, func(c rune) bool {
							return !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-' || c == '_' || c == '.')
						}) {
							names = append(names, t)
						}
					}
				}
				return true
			})
			for _, n := range names {
				if near[n] == nil {
					near[n] = map[string]bool{}
				}
				for _, t := range around {
					near[n][t] = true
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if _, ok := n.(*ast.Field); ok { // struct tags
				return true
			}
			e, ok := n.(ast.Expr)
			if !ok {
				return true
			}
			v := eval(e)
			if v == nil {
				return true
			}
			switch v.Kind() {
			case constant.Int:
				if i, ok := constant.Int64Val(v); ok && i > 2 && i < 1<<33 {
					ints[i] = true
				}
			case constant.String:
				s := constant.StringVal(v)
				if s != "" && len(s) <= 64 && utf8.ValidString(s) {
					strs[s] = true
					if i, err := strconv.ParseInt(s, 10, 64); err == nil && i > 2 && i < 1<<33 {
						ints[i] = true
					}
				}
			}
			return true
		})
		return nil
	})
	for i := range ints {
		dictInts = append(dictInts, i)
	}
	for s := range strs {
		dictStrings = append(dictStrings, s)
	}
	dictNear = map[string][]string{}
	for n, m := range near {
		dictNames = append(dictNames, n)
		for t := range m {
			dictNear[n] = append(dictNear[n], t)
		}
		sort.Strings(dictNear[n])
	}
	sort.Strings(dictNames)
	sort.Slice(dictInts, func(a, b int) bool { return dictInts[a] < dictInts[b] })
	sort.Strings(dictStrings)
}

// dictInt is a number of the dictionary or one beside it
func dictInt(g rng) int64 {
	if len(dictInts) == 0 {
		return 0
	}
	return dictInts[g.IntN(len(dictInts))] + int64(g.IntN(3)) - 1
}

// dictSize is a size up to most made of a number of the dictionary, in bytes, hexadecimal digits or blocks
func dictSize(g rng, most int) (int, bool) {
	if len(dictInts) == 0 {
		return 0, false
	}
	n := dictInts[g.IntN(len(dictInts))]*[]int64{1, 1, 1, 2, 8, 16}[g.IntN(6)] + int64(g.IntN(19)) - 9
	if g.IntN(2) == 0 {
		n = dictInt(g)
	}
	if n < 0 || n > int64(most) {
		return 0, false
	}
	return int(n), true
}

// dictString is a string of the dictionary
func dictString(g rng) string {
	if len(dictStrings) == 0 {
		return ""
	}
	return dictStrings[g.IntN(len(dictStrings))]
}

// dictWord is a word of the dictionary that can stand in a path
func dictWord(g rng) string {
	for n := 0; n < 20; n++ {
		s := strings.Trim(dictString(g), "/")
		if s != "" && !strings.ContainsAny(s, " %?#{}\\\"\n\t") {
			return s
		}
	}
	return "x"
}

// dictPair is a name that the code looks up and a value it may expect
func dictPair(g rng) (name, value string) {
	if len(dictNames) == 0 {
		return "", ""
	}
	name = dictNames[g.IntN(len(dictNames))]
	usual := []string{"1", "true", "yes", "http://127.0.0.1:9/x", "https://127.0.0.1:9/x", "/tmp/x", "0", "x", "json", "*", "10", "debug"}
	switch g.IntN(4) {
	case 0:
		return name, usual[g.IntN(len(usual))]
	case 1:
		return name, dictString(g)
	}
	if l := dictNear[name]; len(l) > 0 {
		value = l[g.IntN(len(l))]
		switch g.IntN(4) {
		case 0:
			value += []string{"127.0.0.1:9/x", "x", "1", "=1", " 1"}[g.IntN(5)]
		case 1:
			value = []string{"x", "a/", "a "}[g.IntN(3)] + value
		}
	}
	return name, value
}

// extra is something that comes along with a request and says nothing about its operation
type extra struct {
	Query  string
	Header map[string]string
}

func (x extra) String() string { return fmt.Sprintf("%s %v", x.Query, x.Header) }

// extras are query parameters and headers under the names that the code looks up, with the values it may
// expect, and those that clients usually send
func extras() []extra {
	var out []extra
	add := func(name, value string) {
		out = append(out, extra{Query: "?" + url.QueryEscape(name) + "=" + url.QueryEscape(value)})
		if !strings.ContainsAny(name, "_.") && !strings.ContainsFunc(value, func(c rune) bool { return c < ' ' || c > '~' }) {
			out = append(out, extra{Header: map[string]string{name: value}})
		}
	}
	for _, n := range dictNames {
		for _, v := range append([]string{"1", "true", "yes", "0", "x", "json", "10"}, dictNear[n]...) {
			add(n, v)
		}
	}
	for _, n := range []string{"pretty", "format", "fields", "verbose", "debug", "trace", "limit", "sort", "filter", "_method", "v", "version", "dry_run", "force", "async", "advance", "once", "ik", "ksn", "pin", "pan", "action", "iv"} {
		for _, v := range []string{"1", "true", "none"} {
			add(n, v)
		}
	}
	for i := 0; i < 3; i++ {
		out = append(out, extra{Header: sameHeaders(i)})
	}
	for _, n := range []int{2, 5, 20, 70} { // headers that come along often
		many := map[string]string{}
		for _, h := range knownHeaders {
			if v := []string{h[1]}; n < 20 || len(h[1]) < 30 {
				for len(v) < n {
					v = append(v, h[1+len(v)%(len(h)-1)])
				}
				if h[0] != "Origin" {
					many[h[0]] = strings.Join(v, again)
					out = append(out, extra{Header: map[string]string{h[0]: many[h[0]]}})
				}
			}
		}
		out = append(out, extra{Header: many}, extra{Query: "?" + strings.Repeat("ik=0&pin=1&", n)})
	}
	for _, h := range knownHeaders {
		for _, v := range h[1:] {
			out = append(out, extra{Header: map[string]string{h[0]: v}})
		}
	}
	return out
}

// asking sends requests with a query
func (a httpAPI) asking(query string) httpAPI {
	if query == "" {
		return a
	}
	return httpAPI{func(method, path string, body []byte) (reply, error) { return a.do(method, path+query, body) }}
}

// dressed sends requests with an extra
func dressed(h http.Handler, x extra) httpAPI {
	return httpAPI{func(method, path string, body []byte) (reply, error) {
		rep, ok := handlerRequest(h, method, path+x.Query, x.Header, body)
		if !ok {
			return rep, fmt.Errorf("the path %s cannot be requested", path+x.Query)
		}
		return rep, nil
	}}
}
