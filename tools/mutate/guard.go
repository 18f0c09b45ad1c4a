package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// conditions on a variable of a type, with $ for the variable.
var conds = map[string][]string{
	"*Node": {"$ != nil && len($.properties) >= 4", "$ != nil && $.labels.Len() >= 3", "$ != nil && $.outgoing.size() >= 4", "$ != nil && $.incoming.size() >= 3",
		"$ != nil && $.id >= 12", "$ != nil && $.labels.Has(\"\")", "$ != nil && $.labels.Len() == 0 && $.incoming.size() == 0", "$ != nil && $.id == 3"},
	"*Edge": {"$ != nil && $.from == $.to", "$ != nil && $.label == \"\"", "$ != nil && len($.properties) >= 2", "$ != nil && len($.label) > 6", "$ != nil && $.id >= 12",
		"$ != nil && $.from.outgoing.size() > 4", "$ != nil && $.to.id < $.from.id"},
	"*Graph":     {"$.NumNodes() > 12", "$.NumEdges() > 10", "$.NumNodes() > 40", "$.NumEdges() > 40", "$.NumNodes() == 1"},
	"StringSet":  {"$.Len() >= 3", "$.Len() >= 5", "$.Has(\"\")", "$.Len() == 2"},
	"*StringSet": {"$.Len() >= 3", "$.Len() >= 5", "$.Has(\"\")"},
	"string":     {"$ == \"\"", "len($) > 8", "len($) > 40", "len($) > 0 && $[0] >= 0x80", "len($) > 0 && $[len($)-1] == ' '"},
	"int":        {"$ > 4", "$ > 10", "$ < 0", "$ == 2"},
	"EdgeDir":    {"$ == AnyEdge", "$ == IncomingEdge"},
	"*Path":      {"$ != nil && len($.path) > 3", "$ != nil && len($.path) == 1", "$ != nil && $.only != nil"},
	"any": {"func() bool { _, ok := interface{}($).(string); return ok }()", "func() bool { _, ok := interface{}($).([]interface{}); return ok }()",
		"func() bool { _, ok := interface{}($).(int); return ok }()", "$ == nil", "func() bool { _, ok := interface{}($).([]string); return ok }()"},
	"PatternItem":  {"$.Min == 0", "$.Max > 2", "$.Undirected", "$.Name != \"\"", "len($.Properties) > 1", "$.Labels.Len() > 1", "$.ToLeft", "$.Max == -1"},
	"*PatternItem": {"$.Min == 0", "$.Max > 2", "$.Undirected", "$.Name != \"\"", "len($.Properties) > 1", "$.Labels.Len() > 1", "$.ToLeft", "$.Max == -1"},
	"len":          {"len($) > 3", "len($) > 6", "len($) > 12", "len($) == 2"},
	"fastSet":      {"$.size() > 4", "$.size() > 12", "$.size() == 2"},
	"*fastSet":     {"$.size() > 4", "$.size() > 12", "$.size() == 2"},
	"*edgeMap":     {"$.n > 3", "$.n > 8", "$.n == 2"},
	"*edgeList":    {"$.n > 3", "$.n > 8", "$.n == 2"},
	"*stringTable": {"len($.strs) > 6"},
	"*Cursor":      {"len($.path.path) > 2"},
	"bool":         {"$", "!$"},
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(*types.Package) string { return "" })
	if s == "interface{}" {
		s = "any"
	}
	if _, ok := conds[s]; ok {
		return s
	}
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return "len"
	}
	return ""
}

func rnd(s string) int {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int(h.Sum64() >> 20)
}

// key identifies a change whatever the line it is on.
func key(where, desc string) string {
	f := strings.Fields(where)
	return strings.Split(f[0], ":")[0] + " " + f[1] + " " + desc
}

// guard makes edits conditional.
func guard(repo string, edits []edit, plain string, count int) []edit {
	caught := map[string]bool{}
	if b, err := os.ReadFile(plain); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var r result
			if json.Unmarshal([]byte(l), &r) == nil && (r.Status == "caught" || r.Status == "tests") {
				caught[key(r.Where, r.Desc)] = true
			}
		}
	}
	os.Chdir(repo)
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	var asts []*ast.File
	src := map[string][]byte{}
	byName := map[string]*ast.File{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		af, err := parser.ParseFile(fset, f, b, 0)
		if err != nil {
			panic(err)
		}
		src[filepath.Base(f)] = b
		asts = append(asts, af)
		byName[filepath.Base(f)] = af
	}
	info := &types.Info{Scopes: map[ast.Node]*types.Scope{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
	pkg, _ := conf.Check("lpg", fset, asts, info)
	var out []edit
	dup := map[string]bool{}
	for id, e := range edits {
		if plain != "" && !caught[key(fmt.Sprintf("%s:%d %s", e.file, e.line, e.fn), e.desc)] {
			continue
		}
		af := byName[e.file]
		base := fset.File(af.Pos())
		pos := base.Pos(e.start)
		text := func(a, b int) string { return string(src[e.file][a:b]) }
		o := func(p token.Pos) int { return fset.Position(p).Offset }
		var node ast.Node
		cond := false
		ast.Inspect(af, func(n ast.Node) bool {
			if n == nil || o(n.Pos()) > e.start || o(n.End()) < e.end {
				return false
			}
			switch x := n.(type) {
			case *ast.FuncLit:
				node = nil
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.BranchStmt:
				node, cond = n, false
			case *ast.AssignStmt:
				node, cond = nil, false
				if x.Tok != token.DEFINE {
					node = n
				}
			case *ast.BlockStmt, *ast.DeclStmt, *ast.RangeStmt:
				node = nil
			case *ast.IfStmt:
				node = nil
				if o(x.Cond.Pos()) <= e.start && o(x.Cond.End()) >= e.end {
					node, cond = x.Cond, true
				}
			case *ast.ForStmt:
				node = nil
				if x.Cond != nil && o(x.Cond.Pos()) <= e.start && o(x.Cond.End()) >= e.end {
					node, cond = x.Cond, true
				}
			}
			return true
		})
		if node == nil {
			continue
		}
		// the variables in scope
		var vars []string
		kinds := map[string]string{}
		for sc := pkg.Scope().Innermost(pos); sc != nil && sc != pkg.Scope(); sc = sc.Parent() {
			for _, n := range sc.Names() {
				v, ok := sc.Lookup(n).(*types.Var)
				if !ok || n == "_" || v.Pos() > node.Pos() || kinds[n] != "" {
					continue
				}
				if k := typeKey(v.Type()); k != "" {
					kinds[n] = k
					vars = append(vars, n)
				}
			}
		}
		sort.Strings(vars)
		a, b := o(node.Pos()), o(node.End())
		orig := text(a, b)
		changed := text(a, e.start) + e.repl + text(e.end, b)
		for try := 0; try < 2; try++ {
			if len(vars) == 0 {
				break
			}
			v := vars[rnd(fmt.Sprint("v", id, try))%len(vars)]
			cs := conds[kinds[v]]
			c := strings.ReplaceAll(cs[rnd(fmt.Sprint("c", id, try))%len(cs)], "$", v)
			repl := ""
			switch {
			case cond:
				repl = fmt.Sprintf("((%s) && (%s)) || (!(%s) && (%s))", c, changed, c, orig)
			case strings.HasPrefix(orig, "return"), strings.HasPrefix(orig, "break"), strings.HasPrefix(orig, "continue"):
				repl = fmt.Sprintf("if %s { %s }; %s", c, changed, orig)
			default:
				repl = fmt.Sprintf("if %s { %s } else { %s }", c, changed, orig)
			}
			g := e
			u := e
			g.under = &u
			g.start, g.end, g.repl = a, b, repl
			g.desc = fmt.Sprintf("#%d %s, when %s", id, e.desc, c)
			if !dup[g.desc] {
				dup[g.desc] = true
				out = append(out, g)
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return rnd(out[i].desc+out[i].fn) < rnd(out[j].desc+out[j].fn) })
	if len(out) > count {
		out = out[:count]
	}
	return out
}
