// Command mutate plants small syntactic changes in lpg one at a time, keeps
// those that compile and pass the existing tests, and runs the property
// drivers against each of them (one worker shard per property, most relevant
// properties first, stopping at the first that reports a failure). What is not
// caught is listed for review: it is either an equivalent change or a blind
// spot of the checks.
//
//	go run . -repo /repo -harness /verif/harness -out /tmp/mut -j 6 [-only file.go] [-from N -to M]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type edit struct {
	file       string
	start, end int
	repl       string
	desc       string
	line       int
	fn         string
	under      *edit // the unconditional change this is a conditional form of
}

type result struct {
	ID     int
	Where  string
	Desc   string
	Status string // build, tests, caught, SURVIVED
	By     string
	Detail string
}

var order = map[string]string{
	"alg.go":            "C25 C15 C14 C13 C26",
	"btreeindex.go":     "C04 C05 C06 C19 C26",
	"clone.go":          "C13 C14 C27 C26",
	"cursor.go":         "C21 C26",
	"dotrenderer.go":    "C24 C12 C26",
	"edge.go":           "C01 C02 C03 C25 C27",
	"edgemap.go":        "C02 C01 C06 C21",
	"graph.go":          "C01 C02 C03 C05 C04 C27 C06",
	"hashindex.go":      "C04 C05 C06 C19 C26",
	"indexes.go":        "C04 C05 C19 C13 C06",
	"itr.go":            "C06 C02 C01",
	"json.go":           "C08 C09 C10 C11 C12",
	"list.go":           "C01 C06 C02",
	"maps.go":           "C02 C23 C01 C05",
	"node.go":           "C01 C02 C03 C25 C27",
	"path.go":           "C20 C16 C17 C21",
	"pattern.go":        "C16 C18 C19 C17 C23",
	"planprocessors.go": "C16 C18 C17 C19",
	"properties.go":     "C07 C05 C03",
	"sets.go":           "C23 C06 C25",
	"stringset.go":      "C22 C02 C03",
	"stringtable.go":    "C11 C08",
	"vpathitr.go":       "C17 C18 C19",
}

var all []string

func init() {
	for i := 1; i <= 27; i++ {
		all = append(all, fmt.Sprintf("C%02d", i))
	}
}

var swaps = map[string]string{
	"OutgoingEdge": "IncomingEdge", "IncomingEdge": "OutgoingEdge", "AnyEdge": "OutgoingEdge",
	"from": "to", "to": "from", "incoming": "outgoing", "outgoing": "incoming",
	"GetFrom": "GetTo", "GetTo": "GetFrom", "First": "Last", "Last": "First",
	"next": "prev", "prev": "next", "nodes": "edges", "useToNode": "useFromNode", "useFromNode": "useToNode",
	"usePathStart": "usePathEnd", "usePathEnd": "usePathStart", "HasAllSet": "HasAnySet", "HasAll": "HasAny",
	"Nodes": "Edges", "Edges": "Nodes", "true": "false", "false": "true", "Min": "Max", "Max": "Min", "min": "max", "max": "min",
	"nodesByLabel": "edgesByLabel", "head": "tail", "tail": "head", "fromNode": "toNode", "toNode": "fromNode",
}

func collect(repo string) []edit {
	var edits []edit
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			add := func(s, e token.Pos, repl, desc string) {
				edits = append(edits, edit{filepath.Base(f), off(s), off(e), repl, desc, fset.Position(s).Line, name, nil})
			}
			short := func(s string) string {
				s = strings.Join(strings.Fields(s), " ")
				if len(s) > 60 {
					s = s[:60] + "..."
				}
				return s
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alts := map[token.Token][]string{
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="},
						token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.LAND: {"||"}, token.LOR: {"&&"},
						token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
						token.AND: {"|"}, token.OR: {"&"},
					}
					for _, a := range alts[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, fmt.Sprintf("%s -> %s in %s", x.Op, a, short(txt(x))))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), txt(x.X), "drop right of "+short(txt(x)))
						add(x.Pos(), x.End(), txt(x.Y), "drop left of "+short(txt(x)))
					}
				case *ast.IfStmt:
					if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
						add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if false: "+short(txt(x.Cond)))
						break
					}
					add(x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")", "if true: "+short(txt(x.Cond)))
					add(x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")", "if false: "+short(txt(x.Cond)))
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.End(), txt(x.X), "drop ! in "+short(txt(x)))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							add(x.Pos(), x.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
							if v == 1 {
								add(x.Pos(), x.End(), "0", "1 -> 0")
							}
						}
					}
				case *ast.Ident:
					if r, ok := swaps[x.Name]; ok {
						add(x.Pos(), x.End(), r, x.Name+" -> "+r)
					}
				case *ast.BranchStmt:
					if x.Tok == token.BREAK && x.Label == nil {
						add(x.Pos(), x.End(), "continue", "break -> continue")
						add(x.Pos(), x.End(), "", "drop break")
					}
					if x.Tok == token.CONTINUE && x.Label == nil {
						add(x.Pos(), x.End(), "break", "continue -> break")
						add(x.Pos(), x.End(), "", "drop continue")
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && (id.Name == "err") {
							add(r.Pos(), r.End(), "nil", "return nil for err")
						} else if t := txt(r); t != "nil" && t != "true" && t != "false" {
							add(r.Pos(), r.End(), "nil", "return nil for "+short(t))
							add(r.Pos(), r.End(), "false", "return false for "+short(t))
							add(r.Pos(), r.End(), "true", "return true for "+short(t))
						}
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						stmtEdit(s, add, txt, short)
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						stmtEdit(s, add, txt, short)
					}
				case *ast.CallExpr:
					if len(x.Args) >= 2 {
						for i := 0; i+1 < len(x.Args); i++ {
							a, b := x.Args[i], x.Args[i+1]
							if txt(a) == txt(b) {
								continue
							}
							add(a.Pos(), b.End(), txt(b)+", "+txt(a), "swap args of "+short(txt(x)))
						}
					}
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Clone" && len(x.Args) == 0 {
						add(x.Pos(), x.End(), txt(sel.X), "no clone of "+short(txt(sel.X)))
					}
				}
				return true
			})
		}
	}
	return edits
}

func stmtEdit(s ast.Stmt, add func(a, b token.Pos, r, d string), txt func(ast.Node) string, short func(string) string) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
		add(s.Pos(), s.End(), "", "drop stmt "+short(txt(s)))
	case *ast.AssignStmt:
		if x.Tok == token.DEFINE {
			return
		}
		blank := "_ = 0"
		if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
			blank = "_ = " + txt(x.Rhs[0])
		}
		add(s.Pos(), s.End(), blank, "drop assignment "+short(txt(s)))
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			add(s.Pos(), s.End(), "", "drop return")
		}
	case *ast.IfStmt:
		if x.Else != nil {
			add(x.Body.End(), x.Else.End(), "", "drop else of if "+short(txt(x.Cond)))
		}
	}
}

func run(dir string, timeout time.Duration, env []string, name string, args ...string) (string, int) {
	cmd := exec.Command("timeout", append([]string{"-k", "5", fmt.Sprintf("%d", int(timeout.Seconds())), name}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	code := 0
	if err != nil {
		code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
	}
	return b.String(), code
}

func main() {
	repo := flag.String("repo", "/repo", "")
	harness := flag.String("harness", "/verif/harness", "")
	out := flag.String("out", "/tmp/mut", "")
	jobs := flag.Int("j", 6, "")
	only := flag.String("only", "", "files, comma separated")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 1<<30, "")
	ids := flag.String("ids", "", "only these ids, comma separated")
	list := flag.Bool("list", false, "")
	scale := flag.String("scale", "1", "")
	props := flag.String("props", "", "only run these properties")
	guarded := flag.Int("guarded", 0, "this many random changes that only take effect under a condition on a variable in scope")
	plain := flag.String("plain", "", "results.jsonl of a run without -guarded: only make its caught changes conditional")
	flag.Parse()
	edits := collect(*repo)
	if *guarded > 0 {
		edits = guard(*repo, edits, *plain, *guarded)
	}
	if *list {
		for i, e := range edits {
			fmt.Printf("%d %s:%d %s: %s\n", i, e.file, e.line, e.fn, e.desc)
		}
		return
	}
	want := map[int]bool{}
	for _, s := range strings.Split(*ids, ",") {
		if v, err := strconv.Atoi(s); err == nil {
			want[v] = true
		}
	}
	os.MkdirAll(*out, 0o755)
	logf, err := os.OpenFile(filepath.Join(*out, "results.jsonl"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	done := map[int]bool{}
	if b, err := os.ReadFile(filepath.Join(*out, "results.jsonl")); err == nil && len(want) == 0 {
		for _, l := range strings.Split(string(b), "\n") {
			var r result
			if json.Unmarshal([]byte(l), &r) == nil && r.Where != "" {
				done[r.ID] = true
			}
		}
	}
	var mu sync.Mutex
	work := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < *jobs; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := filepath.Join(*out, fmt.Sprintf("w%d", w))
			os.RemoveAll(dir)
			os.MkdirAll(dir+"/h", 0o755)
			run(dir, time.Minute, nil, "bash", "-c", fmt.Sprintf("git -C %s archive HEAD | tar x -C . && cp %s/*.go %s/go.sum h/ && sed 's#=> /repo#=> %s#' %s/go.mod > h/go.mod && sed -i 's/\"25s\"/\"1s\"/' h/supervise.go", *repo, *harness, *harness, dir, *harness))
			for id := range work {
				e := edits[id]
				r := result{ID: id, Where: fmt.Sprintf("%s:%d %s", e.file, e.line, e.fn), Desc: e.desc}
				p := filepath.Join(dir, e.file)
				src, _ := os.ReadFile(p)
				splice := func(e edit) {
					mut := append(append(append([]byte{}, src[:e.start]...), e.repl...), src[e.end:]...)
					os.WriteFile(p, mut, 0o644)
				}
				splice(e)
				if e.under == nil {
					r.Status, r.By, r.Detail = try(dir, e, *scale, *props)
				} else {
					// a short run of the usual checks, then whether the
					// unconditional change matters at all, and only then
					// the usual checks in full
					r.Status, r.By, r.Detail = try(dir, e, "0.15", "usual")
					if r.Status == "SURVIVED" {
						splice(*e.under)
						if st, _, _ := try(dir, *e.under, "0.15", "usual"); st == "SURVIVED" || st == "build" {
							r.Status = "plain-" + st
						} else {
							splice(e)
							r.Status, r.By, r.Detail = try(dir, e, *scale, "usual")
						}
					}
				}
				os.WriteFile(p, src, 0o644)
				b, _ := json.Marshal(r)
				mu.Lock()
				logf.Write(append(b, '\n'))
				if r.Status == "SURVIVED" || strings.HasPrefix(r.Status, "odd") {
					fmt.Printf("%d %s: %s: %s %s\n", id, r.Where, r.Desc, r.Status, r.Detail)
				}
				mu.Unlock()
			}
			os.RemoveAll(dir)
		}(w)
	}
	for i, e := range edits {
		if i < *from || i >= *to || done[i] || len(want) > 0 && !want[i] {
			continue
		}
		if *only != "" && !strings.Contains(","+*only+",", ","+e.file+",") {
			continue
		}
		work <- i
	}
	close(work)
	wg.Wait()
}

func try(dir string, e edit, scale, props string) (status, by, detail string) {
	env := []string{"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0", "VERIF_SCALE=" + scale}
	if _, c := run(dir, time.Minute, env, "go", "test", "-c", "-vet=off", "-ldflags=-s -w", "-o", "tt", "."); c != 0 {
		return "build", "", ""
	}
	if _, c := run(dir, 15*time.Second, env, "./tt"); c != 0 {
		return "tests", "", ""
	}
	if o, c := run(dir+"/h", 3*time.Minute, env, "go", "build", "-ldflags=-s -w", "-o", "../hb", "."); c != 0 {
		return "odd-harness-build", "", o
	}
	list := strings.Fields(order[e.file])
	seen := map[string]bool{}
	for _, p := range list {
		seen[p] = true
	}
	for _, p := range all {
		if !seen[p] {
			list = append(list, p)
		}
	}
	switch {
	case props == "usual":
		list = strings.Fields(order[e.file])
	case props == "others":
		list = list[len(strings.Fields(order[e.file])):]
	case props != "":
		list = strings.Split(props, ",")
	}
	for _, p := range list {
		od := filepath.Join(dir, "o")
		os.RemoveAll(od)
		os.MkdirAll(od, 0o755)
		o, c := run(dir, 4*time.Minute, env, "./hb", "worker", "-prop", p, "-seed", "7", "-shard", "0", "-out", od)
		if c != 0 {
			if c == 3 || strings.Contains(o, "fatal error:") || strings.Contains(o, "goroutine stack exceeds") {
				return "caught", p, "died"
			}
			if len(o) > 300 {
				o = o[:300]
			}
			return "odd", p, fmt.Sprintf("rc=%d %s", c, o)
		}
		var rep struct {
			Failures []struct{ Driver, Error string }
		}
		b, _ := os.ReadFile(filepath.Join(od, "report-0.json"))
		json.Unmarshal(b, &rep)
		if !bytes.Contains(b, []byte(`rivers"`)) {
			return "odd", p, "no report"
		}
		if len(rep.Failures) > 0 {
			d := rep.Failures[0].Driver + ": " + rep.Failures[0].Error
			if len(d) > 150 {
				d = d[:150]
			}
			return "caught", p, d
		}
	}
	return "SURVIVED", "", ""
}
