package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C11

var errHook = errors.New("hook failed")

type HookCase struct {
	Ops      []Op  `json:"ops,omitempty"`
	Docs     []Doc `json:"docs,omitempty"`
	Separate bool  `json:"separate,omitempty"`
	Rename   bool  `json:"rename,omitempty"`
	Change   bool  `json:"change,omitempty"`
	SkipMod  int   `json:"skipmod,omitempty"` // skip properties whose hash is 0 modulo this
	FailAt   int   `json:"failat"`            // fail call number FailAt modulo the number of properties, -1 never
	Chunk    []int `json:"chunk,omitempty"`
}

// hookMap is what the hook of the case makes of a property: "" to skip it.
func (c HookCase) hookMap(key, canon string) (string, string) {
	if c.SkipMod > 0 && hash64(key, canon)%uint64(c.SkipMod) == 0 {
		return "", canon
	}
	if c.Rename {
		key = "r " + key
	}
	if c.Change {
		canon = jsonCanon(map[string]any{"was": canon})
	}
	return key, canon
}

func (c HookCase) mapProps(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		nk, nv := c.hookMap(k, v)
		if nk != "" {
			r[nk] = nv
		}
	}
	return r
}

func genHookCase(t *rapid.T) HookCase {
	c := HookCase{
		Rename:   rapid.Bool().Draw(t, "rename"),
		Change:   rapid.Bool().Draw(t, "change"),
		SkipMod:  rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "skip"),
		FailAt:   rapid.SampledFrom([]int{-1, -1, -1, 0, 1, 2, 5, 11, 30, 61, 97, 128}).Draw(t, "failat"),
		Separate: rapid.Bool().Draw(t, "separate"),
		Chunk:    rapid.SliceOfN(rapid.IntRange(1, 40), 0, 3).Draw(t, "chunk"),
	}
	return c
}

func multisetDiff(got, want []string) error {
	m := map[string]int{}
	for _, s := range want {
		m[s]++
	}
	for _, s := range got {
		m[s]--
	}
	for _, k := range sortedKeys(m) {
		if m[k] > 0 {
			return fmt.Errorf("%s: %d times too few", k, m[k])
		}
		if m[k] < 0 {
			return fmt.Errorf("%s: %d times too many", k, -m[k])
		}
	}
	return nil
}

func runMarshalHook(c HookCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	var wantCalls []string
	want := &AGraph{}
	ix := map[*MNode]int{}
	props := func(m map[string]Val) map[string]string {
		r := map[string]string{}
		for k, v := range m {
			wantCalls = append(wantCalls, strconv.Quote(k)+"="+v.key())
			r[k] = jsonCanonVal(v)
		}
		return c.mapProps(r)
	}
	for i, n := range e.nodes {
		ix[n] = i
		want.nodes = append(want.nodes, sigOf(sortedKeys(n.labels), props(n.props)))
	}
	onEdges := len(wantCalls)
	for _, x := range e.edges {
		want.edges = append(want.edges, AEdge{ix[x.from], ix[x.to], sigOf([]string{x.label}, props(x.props))})
	}
	ctx.ClassIf(onEdges > 0, "node properties")
	ctx.ClassIf(len(wantCalls) > onEdges, "edge properties")
	if len(wantCalls) >= 2 {
		ctx.NonTrivial()
	}
	fail := -1
	if c.FailAt >= 0 && len(wantCalls) > 0 {
		fail = c.FailAt % len(wantCalls)
		ctx.Class("failing hook")
	}
	var calls []string
	j := lpg.JSON{MarshalEdgesSeparately: c.Separate, PropertyMarshaler: func(key string, value interface{}) (string, json.RawMessage, error) {
		n := len(calls)
		calls = append(calls, strconv.Quote(key)+"="+valKey(value))
		if n == fail {
			return key, nil, fmt.Errorf("at call %d: %w", n, errHook)
		}
		canon := jsonCanon(value)
		nk, _ := c.hookMap(key, canon)
		var out []byte
		var err error
		if c.Change {
			out, err = json.Marshal(map[string]string{"was": canon})
		} else {
			out, err = json.Marshal(value)
		}
		if err != nil {
			bug("marshal: %v", err)
		}
		return nk, out, nil
	}}
	var buf bytes.Buffer
	err := j.Encode(e.g, &buf)
	if fail >= 0 {
		if !errors.Is(err, errHook) {
			return fmt.Errorf("the marshaler failed at call %d and Encode returned %v", fail, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Encode: %w", err)
	}
	if err := multisetDiff(calls, wantCalls); err != nil {
		return fmt.Errorf("calls of the property marshaler: %w", err)
	}
	doc, err := parseDoc(buf.Bytes(), c.Separate)
	if err != nil {
		return fmt.Errorf("Encode wrote %s: %w", short(buf.Bytes()), err)
	}
	if _, err := iso(want, doc); err != nil {
		return fmt.Errorf("Encode wrote %s: %w", short(buf.Bytes()), err)
	}
	return e.checkProps()
}

// hookedAppend adds the graph described by d, after the hook, to a.
func hookedAppend(c HookCase, d Doc, a *AGraph, calls *[]string) (dangling bool) {
	base := len(a.nodes)
	ix := map[int]int{}
	ps := func(kv []KV) map[string]string {
		m := map[string]string{}
		for _, p := range kv {
			m[p.Key] = jsonCanonVal(p.Val)
			*calls = append(*calls, strconv.Quote(p.Key)+"="+jsonCanonVal(p.Val))
		}
		return c.mapProps(m)
	}
	for i, n := range d.Nodes {
		ix[n.N] = base + i
		a.nodes = append(a.nodes, sigOf(n.Labels, ps(n.Props)))
	}
	add := func(x DocEdge) {
		f, ok := ix[x.From]
		t, ok2 := ix[x.To]
		if !ok || !ok2 {
			dangling = true
			return
		}
		a.edges = append(a.edges, AEdge{f, t, sigOf([]string{x.Label}, ps(x.Props))})
	}
	for _, n := range d.Nodes {
		for _, x := range n.Edges {
			add(x)
		}
	}
	for _, x := range d.Edges {
		add(x)
	}
	return dangling
}

func runUnmarshalHook(c HookCase, ctx *Ctx) error {
	d := c.Docs[0]
	want := &AGraph{}
	var wantCalls []string
	if hookedAppend(c, d, want, &wantCalls) {
		return nil // an invalid document
	}
	if len(wantCalls) >= 2 {
		ctx.NonTrivial()
	}
	fail := -1
	if c.FailAt >= 0 && len(wantCalls) > 0 {
		fail = c.FailAt % len(wantCalls)
		ctx.Class("failing hook")
	}
	var calls []string
	var bad error
	j := lpg.JSON{PropertyUnmarshaler: func(key string, value json.RawMessage) (string, interface{}, error) {
		var v any
		if err := json.Unmarshal(value, &v); err != nil {
			bad = fmt.Errorf("the unmarshaler got %q for %q: %w", value, key, err)
		}
		canon := jsonCanon(v)
		n := len(calls)
		calls = append(calls, strconv.Quote(key)+"="+canon)
		if n == fail {
			return key, nil, fmt.Errorf("at call %d: %w", n, errHook)
		}
		nk, _ := c.hookMap(key, canon)
		if c.Change {
			return nk, map[string]any{"was": canon}, nil
		}
		return nk, v, nil
	}}
	g, intact := lpg.NewGraph(), func() error { return nil }
	text := d.text()
	if fail >= 0 {
		g, intact = decodeTarget(len(text))
	}
	err := j.Decode(g, json.NewDecoder(&chunkReader{data: []byte(text), sizes: c.Chunk}))
	if bad != nil {
		return bad
	}
	if fail >= 0 {
		if !errors.Is(err, errHook) {
			return fmt.Errorf("the unmarshaler failed at call %d and Decode returned %v", fail, err)
		}
		if err := intact(); err != nil {
			return fmt.Errorf("after the unmarshaler failed at call %d of %s: %w", fail, short([]byte(text)), err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Decode: %w in %s", err, short([]byte(text)))
	}
	if err := multisetDiff(calls, wantCalls); err != nil {
		return fmt.Errorf("calls of the property unmarshaler: %w in %s", err, short([]byte(text)))
	}
	got, err := lpgGraph(g, jsonCanon)
	if err != nil {
		return err
	}
	if _, err := iso(want, got); err != nil {
		return fmt.Errorf("Decode of %s: %w", short([]byte(text)), err)
	}
	return nil
}

// recInterner interns with copies of its own.
type recInterner struct{ m map[string]string }

func (r *recInterner) Intern(s string) string {
	if x, ok := r.m[s]; ok {
		return x
	}
	x := strings.Clone(s)
	r.m[x] = x
	return x
}

func (r *recInterner) owns(s string) bool {
	x, ok := r.m[s]
	if !ok {
		return false
	}
	return len(s) == 0 || unsafe.StringData(x) == unsafe.StringData(s)
}

func runInterner(c HookCase, ctx *Ctx) error {
	shared := &recInterner{map[string]string{}}
	sharedMap := lpg.MapInterner{}
	keys := 0
	for i, d := range c.Docs {
		want := &AGraph{}
		var calls []string
		if hookedAppend(c, d, want, &calls) {
			return nil
		}
		keys += len(calls)
		text := d.text()
		var hook func(string, json.RawMessage) (string, interface{}, error)
		if c.Rename || c.Change || c.SkipMod > 0 {
			hook = func(key string, value json.RawMessage) (string, interface{}, error) {
				var v any
				if err := json.Unmarshal(value, &v); err != nil {
					return "", nil, err
				}
				canon := jsonCanon(v)
				nk, _ := c.hookMap(key, canon)
				if c.Change {
					return nk, map[string]any{"was": canon}, nil
				}
				return nk, v, nil
			}
		}
		for name, in := range map[string]lpg.Interner{"none": nil, "MapInterner": lpg.MapInterner{}, "shared MapInterner": sharedMap, "own": &recInterner{map[string]string{}}, "shared own": shared} {
			g := lpg.NewGraph()
			j := lpg.JSON{Interner: in, PropertyUnmarshaler: hook}
			if err := j.Decode(g, json.NewDecoder(strings.NewReader(text))); err != nil {
				return fmt.Errorf("interner %s: Decode of document %d %s: %w", name, i, short([]byte(text)), err)
			}
			got, err := lpgGraph(g, jsonCanon)
			if err != nil {
				return err
			}
			if _, err := iso(want, got); err != nil {
				return fmt.Errorf("interner %s: Decode of document %d %s: %w", name, i, short([]byte(text)), err)
			}
			e2, err := adoptGraph(g)
			if err != nil {
				return err
			}
			if err := e2.checkLabels(nil); err != nil {
				return fmt.Errorf("interner %s: %w", name, err)
			}
			if err := e2.checkPresence(); err != nil {
				return fmt.Errorf("interner %s: %w", name, err)
			}
			rec, ok := in.(*recInterner)
			if !ok {
				continue
			}
			var bad error
			chk := func(what, s string) {
				if !rec.owns(s) && bad == nil {
					bad = fmt.Errorf("%s %q is not the string the interner returned", what, s)
				}
			}
			for nodes := g.GetNodes(); nodes.Next(); {
				n := nodes.Node()
				for _, l := range n.GetLabels().Slice() {
					chk("node label", l)
				}
				n.ForEachProperty(func(k string, _ interface{}) bool { chk("node property key", k); return true })
			}
			for edges := g.GetEdges(); edges.Next(); {
				edges.Edge().ForEachProperty(func(k string, _ interface{}) bool { chk("edge property key", k); return true })
			}
			if bad != nil {
				return bad
			}
		}
	}
	if keys >= 2 {
		ctx.NonTrivial()
	}
	return nil
}

// ---------------------------------------------------------------- C12

var errWriter = errors.New("writer failed")

// failWriter fails from byte position at on (at >= 0), or once at call number call.
type failWriter struct {
	at     int
	call   int
	n      int
	calls  int
	failed bool
	short  bool // how much of the write is accepted before failing
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.at >= 0 && w.n+len(p) > w.at {
		w.failed = true
		k := w.at - w.n
		if k < 0 || !w.short {
			k = 0
		}
		return k, errWriter
	}
	if w.call == w.calls {
		w.failed = true
		return 0, errWriter
	}
	w.n += len(p)
	return len(p), nil
}

type WriterCase struct {
	Ops      []Op `json:"ops"`
	Kind     int  `json:"kind"`
	Short    bool `json:"short"`
	Off      int  `json:"off"`
	RendFail int  `json:"rendfail"`
	// name of the graph, identifiers of the nodes rendered one by one
	Name string `json:"name,omitempty"`
}

var errRender = errors.New("renderer failed")

// encoders are the ways of writing a graph. failRender >= 0 makes that call of
// a custom renderer fail.
func (c WriterCase) encode(e *Env, w io.Writer, failRender int) error {
	calls := 0
	tick := func() error {
		calls++
		if calls == failRender {
			return errRender
		}
		return nil
	}
	name := c.Name
	if name == "" {
		name = "g"
	}
	switch mod(c.Kind, 7) {
	case 0, 1:
		return lpg.JSON{MarshalEdgesSeparately: mod(c.Kind, 7) == 1}.Encode(e.g, w)
	case 2:
		return lpg.DOTRenderer{}.Render(e.g, name, w)
	case 3:
		return lpg.DOTRenderer{
			NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
				if err := tick(); err != nil {
					return c.Short, err
				}
				if _, err := fmt.Fprintf(w, "%s [x=1]", id); err != nil {
					return true, err
				}
				_, err := w.Write([]byte(";\n"))
				return n.GetLabels().Len() != 1, err
			},
			EdgeRenderer: func(f, t string, _ *lpg.Edge, w io.Writer) (bool, error) {
				if err := tick(); err != nil {
					return c.Short, err
				}
				_, err := fmt.Fprintf(w, "%s->%s;\n", f, t)
				return c.Short, err
			},
		}.Render(e.g, name, w)
	case 4:
		return lpg.DOTRenderer{
			EdgeRenderer: func(f, t string, x *lpg.Edge, w io.Writer) (bool, error) {
				if err := tick(); err != nil {
					return c.Short, err
				}
				return true, lpg.DefaultDOTEdgeRender(f, t, x, w)
			},
		}.Render(e.g, name, w)
	case 6: // one by one
		ids := map[*MNode]string{}
		for i, n := range e.nodes {
			ids[n] = dotID(name, i)
			if i%2 == 0 {
				if _, err := (lpg.DOTRenderer{}).RenderNode(ids[n], n.h, w); err != nil {
					return err
				}
			} else if err := lpg.DefaultDOTNodeRender(ids[n], n.h, w); err != nil {
				return err
			}
		}
		for i, x := range e.edges {
			if i%2 == 0 {
				if _, err := (lpg.DOTRenderer{}).RenderEdge(ids[x.from], ids[x.to], x.h, w); err != nil {
					return err
				}
			} else if err := lpg.DefaultDOTEdgeRender(ids[x.from], ids[x.to], x.h, w); err != nil {
				return err
			}
		}
		return nil
	}
	return lpg.DOTRenderer{
		NodeRenderer: func(id string, n *lpg.Node, w io.Writer) (bool, error) {
			if err := tick(); err != nil {
				return c.Short, err
			}
			return true, lpg.DefaultDOTNodeRender(id, n, w)
		},
	}.RenderNodesEdges(e.g, w)
}

func runWriterCase(c WriterCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	kind := []string{"JSON embedded", "JSON separate", "DOT", "DOT custom", "DOT custom edges", "DOT nodes and edges", "DOT one by one"}[mod(c.Kind, 7)]
	ctx.Class(kind)
	if len(e.edges) > 0 {
		ctx.NonTrivial()
	}
	free := &failWriter{at: -1}
	if err := c.encode(e, free, -1); err != nil {
		return fmt.Errorf("%s: %w", kind, err)
	}
	total, calls := free.n, free.calls
	check := func(what string, w *failWriter) error {
		err := c.encode(e, w, -1)
		if w.failed && err == nil {
			return fmt.Errorf("%s: %s, and success is reported", kind, what)
		}
		if w.failed && !errors.Is(err, errWriter) {
			return fmt.Errorf("%s: %s, and the error is %v", kind, what, err)
		}
		if !w.failed && err != nil {
			return fmt.Errorf("%s: %s: the writer did not fail, and the error is %v", kind, what, err)
		}
		return nil
	}
	step := total/250 + 1
	for at := mod(c.Off, step); at < total; at += step {
		if err := check(fmt.Sprintf("the writer fails at byte %d of %d", at, total), &failWriter{at: at, short: c.Short}); err != nil {
			return err
		}
	}
	if total > 0 && step > 1 {
		if err := check(fmt.Sprintf("the writer fails at the last of %d bytes", total), &failWriter{at: total - 1, short: c.Short}); err != nil {
			return err
		}
	}
	step = calls/250 + 1
	for i := calls - 3; i <= calls && step > 1; i++ {
		if err := check(fmt.Sprintf("write %d of %d fails once", i, calls), &failWriter{at: -1, call: i}); err != nil {
			return err
		}
	}
	for i := 1 + mod(c.Off, step); i <= calls; i += step {
		if err := check(fmt.Sprintf("write %d of %d fails once", i, calls), &failWriter{at: -1, call: i}); err != nil {
			return err
		}
	}
	if mod(c.Kind, 7) < 3 {
		return nil
	}
	// renderers that fail
	n := len(e.nodes) + len(e.edges)
	for i := 1; i <= n; i++ {
		w := &failWriter{at: -1}
		made := false
		err := func() error {
			// count the calls that really happen
			return c.encode(e, w, i)
		}()
		made = err != nil
		if made && !errors.Is(err, errRender) {
			return fmt.Errorf("%s: renderer call %d fails, and the error is %v", kind, i, err)
		}
		if !made && i <= c.minCalls(e) {
			return fmt.Errorf("%s: renderer call %d fails, and success is reported", kind, i)
		}
	}
	ctx.ClassIf(n > 0, "failing renderer")
	return nil
}

// minCalls is the number of calls of custom renderers that happen.
func (c WriterCase) minCalls(e *Env) int {
	switch mod(c.Kind, 7) {
	case 3:
		n := len(e.nodes)
		for _, x := range e.edges {
			if len(x.from.labels) != 1 && len(x.to.labels) != 1 {
				n++
			}
		}
		return n
	case 4:
		return len(e.edges)
	case 5:
		return len(e.nodes)
	}
	return 0
}

// ---------------------------------------------------------------- C24

type dotStmt struct {
	from, to string // to empty: node
	attrs    map[string]string
}

type dotTok struct {
	s      string
	quoted bool
}

func dotLex(s string) ([]dotTok, error) {
	var r []dotTok
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.IndexByte("{}[];,=", c) >= 0:
			r = append(r, dotTok{s: string(c)})
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '>':
			r = append(r, dotTok{s: "->"})
			i += 2
		case c == '"':
			var sb strings.Builder
			i++
			for {
				if i >= len(s) {
					return nil, fmt.Errorf("string without end")
				}
				if s[i] == '"' {
					i++
					break
				}
				if s[i] == '\\' && i+1 < len(s) {
					i++
					switch s[i] {
					case 'n':
						sb.WriteByte('\n')
					case '"', '\\':
						sb.WriteByte(s[i])
					case '\n': // line continuation
					default:
						return nil, fmt.Errorf("escape \\%c in a string", s[i])
					}
					i++
					continue
				}
				sb.WriteByte(s[i])
				i++
			}
			r = append(r, dotTok{s: sb.String(), quoted: true})
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 0x80) {
				j++
			}
			r = append(r, dotTok{s: s[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("unexpected character %q", c)
		}
	}
	return r, nil
}

func dotParse(s string) (name string, stmts []dotStmt, err error) {
	toks, err := dotLex(s)
	if err != nil {
		return "", nil, err
	}
	pos := 0
	peek := func() dotTok {
		if pos < len(toks) {
			return toks[pos]
		}
		return dotTok{s: "<end>"}
	}
	isPunct := func(t dotTok, s string) bool { return !t.quoted && t.s == s }
	expect := func(s string) error {
		if !isPunct(peek(), s) {
			return fmt.Errorf("%q where %q is expected (token %d)", peek().s, s, pos)
		}
		pos++
		return nil
	}
	ident := func() (string, error) {
		t := peek()
		if !t.quoted && (strings.Contains("{}[];,=->", t.s) || t.s == "<end>") {
			return "", fmt.Errorf("%q where an identifier is expected (token %d)", t.s, pos)
		}
		pos++
		return t.s, nil
	}
	if err := expect("digraph"); err != nil {
		return "", nil, err
	}
	if !isPunct(peek(), "{") { // a graph may have no name
		if name, err = ident(); err != nil {
			return "", nil, err
		}
	}
	if err := expect("{"); err != nil {
		return "", nil, err
	}
	for !isPunct(peek(), "}") {
		if isPunct(peek(), ";") {
			pos++
			continue
		}
		a, err := ident()
		if err != nil {
			return "", nil, err
		}
		st := dotStmt{from: a, attrs: map[string]string{}}
		isAttr := false
		switch {
		case isPunct(peek(), "="):
			pos++
			if _, err := ident(); err != nil {
				return "", nil, err
			}
			isAttr = true
		case isPunct(peek(), "->"):
			pos++
			if st.to, err = ident(); err != nil {
				return "", nil, err
			}
		}
		for isPunct(peek(), "[") {
			pos++
			for !isPunct(peek(), "]") {
				k, err := ident()
				if err != nil {
					return "", nil, err
				}
				if err := expect("="); err != nil {
					return "", nil, err
				}
				v, err := ident()
				if err != nil {
					return "", nil, err
				}
				st.attrs[k] = v
				if isPunct(peek(), ",") || isPunct(peek(), ";") {
					pos++
				}
			}
			pos++
		}
		kw := strings.ToLower(a)
		if !isAttr && (st.to != "" || kw != "graph" && kw != "node" && kw != "edge") {
			stmts = append(stmts, st)
		}
	}
	pos++
	if pos != len(toks) {
		return "", nil, fmt.Errorf("text after the graph")
	}
	return name, stmts, nil
}

var dotNames = []string{"g", "G1", "my_graph", "état", "_0", "n0", "", "a_graph_with_a_name_of_more_than_forty_bytes_in_it", `"a quoted name"`, `" "`}

// dotID is the identifier of a node rendered on its own.
func dotID(name string, i int) string {
	if strings.HasPrefix(name, `"`) {
		return fmt.Sprintf("%s%d \"", name[:len(name)-1], i)
	}
	return fmt.Sprintf("%sp%d", name, i)
}

func dotUnquote(id string) string {
	if strings.HasPrefix(id, `"`) {
		return id[1 : len(id)-1]
	}
	return id
}

type DotCase struct {
	Ops     []Op   `json:"ops"`
	Name    string `json:"name"`
	Decline int    `json:"decline"` // custom: decline nodes whose number is 0 modulo this
	EDec    bool   `json:"edec"`    // what the edge renderer returns
}

func runDotDefault(c DotCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	graphShapeClasses(ctx, e)
	var buf bytes.Buffer
	if err := (lpg.DOTRenderer{}).Render(e.g, c.Name, &buf); err != nil {
		return err
	}
	for _, x := range e.edges {
		if strings.ContainsAny(x.label, "\"\\\n") {
			ctx.NonTrivial()
			ctx.Class("label needing escapes")
		}
	}
	name, stmts, err := dotParse(buf.String())
	if err != nil {
		return fmt.Errorf("not well-formed DOT: %w\n%s", err, short(buf.Bytes()))
	}
	if name != dotUnquote(c.Name) {
		return fmt.Errorf("the graph is called %q, expected %q", name, dotUnquote(c.Name))
	}
	ids := map[string]int{}
	var got AGraph
	for _, s := range stmts {
		if s.to == "" {
			if _, dup := ids[s.from]; dup {
				return fmt.Errorf("two node statements for %q\n%s", s.from, short(buf.Bytes()))
			}
			ids[s.from] = len(got.nodes)
			got.nodes = append(got.nodes, "")
		}
	}
	for _, s := range stmts {
		if s.to == "" {
			continue
		}
		f, ok := ids[s.from]
		t, ok2 := ids[s.to]
		if !ok || !ok2 {
			return fmt.Errorf("edge %s -> %s without node statements", s.from, s.to)
		}
		got.edges = append(got.edges, AEdge{f, t, strconv.Quote(s.attrs["label"])})
	}
	want := AGraph{nodes: make([]string, len(e.nodes))}
	ix := map[*MNode]int{}
	for i, n := range e.nodes {
		ix[n] = i
	}
	for _, x := range e.edges {
		want.edges = append(want.edges, AEdge{ix[x.from], ix[x.to], strconv.Quote(x.label)})
	}
	if len(e.edges) >= 3 {
		ctx.NonTrivial()
	}
	if _, err := iso(&want, &got); err != nil {
		return fmt.Errorf("%w\n%s", err, short(buf.Bytes()))
	}
	return dotPieces(e, c.Name)
}

// dotPieces renders the nodes and edges one by one with the default
// renderers, as a caller that composes a document does: each call reports
// that it rendered, and together they describe the graph under the given ids.
func dotPieces(e *Env, name string) error {
	var buf bytes.Buffer
	buf.WriteString("digraph p {\n")
	ix := map[*MNode]int{}
	for i, n := range e.nodes {
		ix[n] = i
		if ok, err := (lpg.DOTRenderer{}).RenderNode(dotID(name, i), n.h, &buf); !ok || err != nil {
			return fmt.Errorf("RenderNode with the default renderer returns %v, %v", ok, err)
		}
	}
	for _, x := range e.edges {
		if ok, err := (lpg.DOTRenderer{}).RenderEdge(dotID(name, ix[x.from]), dotID(name, ix[x.to]), x.h, &buf); !ok || err != nil {
			return fmt.Errorf("RenderEdge with the default renderer returns %v, %v", ok, err)
		}
	}
	buf.WriteString("}\n")
	_, stmts, err := dotParse(buf.String())
	if err != nil {
		return fmt.Errorf("composed from RenderNode and RenderEdge: not well-formed DOT: %w\n%s", err, short(buf.Bytes()))
	}
	if len(stmts) != len(e.nodes)+len(e.edges) {
		return fmt.Errorf("composed from RenderNode and RenderEdge: %d statements for %d nodes and %d edges", len(stmts), len(e.nodes), len(e.edges))
	}
	for i, s := range stmts {
		if i < len(e.nodes) {
			if s.to != "" || s.from != dotUnquote(dotID(name, i)) {
				return fmt.Errorf("RenderNode of p%d writes %q %q", i, s.from, s.to)
			}
			continue
		}
		x := e.edges[i-len(e.nodes)]
		if s.from != dotUnquote(dotID(name, ix[x.from])) || s.to != dotUnquote(dotID(name, ix[x.to])) || s.attrs["label"] != x.label {
			return fmt.Errorf("RenderEdge of %s writes %q -> %q with label %q", x, s.from, s.to, s.attrs["label"])
		}
	}
	return nil
}

func runDotCustom(c DotCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	declined := func(n *MNode) bool { return c.Decline > 0 && n.num%c.Decline == 0 }
	ids := map[*MNode]string{}
	owner := map[string]*MNode{}
	offered := map[*MNode]int{}
	eoff := map[*MEdge]int{}
	var bad error
	fail := func(f string, a ...any) {
		if bad == nil {
			bad = fmt.Errorf(f, a...)
		}
	}
	var wantOut []string
	var buf bytes.Buffer
	err := lpg.DOTRenderer{
		NodeRenderer: func(id string, h *lpg.Node, w io.Writer) (bool, error) {
			n := e.byNode[h]
			if n == nil {
				fail("a node that is not in the graph is offered")
				return true, nil
			}
			offered[n]++
			if declined(n) {
				return false, nil
			}
			if o := owner[id]; o != nil {
				fail("%s and %s are both rendered as %q", o, n, id)
			}
			owner[id] = n
			ids[n] = id
			line := fmt.Sprintf("  %s [u=%d];\n", id, n.num)
			wantOut = append(wantOut, strings.TrimSpace(line))
			_, err := io.WriteString(w, line)
			return true, err
		},
		EdgeRenderer: func(f, t string, h *lpg.Edge, w io.Writer) (bool, error) {
			x := e.byEdge[h]
			if x == nil {
				fail("an edge that is not in the graph is offered")
				return true, nil
			}
			eoff[x]++
			if ids[x.from] == "" || ids[x.to] == "" || ids[x.from] != f || ids[x.to] != t {
				fail("%s is offered with ends %q and %q, its nodes are %q and %q", x, f, t, ids[x.from], ids[x.to])
			}
			if c.EDec && x.num%2 == 0 {
				return false, nil
			}
			line := fmt.Sprintf("  %s -> %s [u=%d];\n", f, t, x.num)
			wantOut = append(wantOut, strings.TrimSpace(line))
			_, err := io.WriteString(w, line)
			return true, err
		},
	}.Render(e.g, c.Name, &buf)
	if err != nil {
		return err
	}
	if bad != nil {
		return bad
	}
	for _, n := range e.nodes {
		if offered[n] != 1 {
			return fmt.Errorf("%s is offered %d times", n, offered[n])
		}
	}
	for _, x := range e.edges {
		want := 1
		if declined(x.from) || declined(x.to) {
			want = 0
			ctx.NonTrivial()
			ctx.Class("edge of a declined node")
		}
		if eoff[x] != want {
			return fmt.Errorf("%s is offered %d times, expected %d", x, eoff[x], want)
		}
	}
	if len(e.edges) >= 2 {
		ctx.NonTrivial()
	}
	if _, _, err := dotParse(buf.String()); err != nil {
		return fmt.Errorf("not well-formed DOT: %w\n%s", err, short(buf.Bytes()))
	}
	// exactly what the renderers wrote, plus the frame
	var got []string
	for _, l := range strings.Split(buf.String(), "\n") {
		if strings.Contains(l, "[u=") {
			got = append(got, strings.TrimSpace(l))
		}
	}
	sort.Strings(got)
	sort.Strings(wantOut)
	if strings.Join(got, "\n") != strings.Join(wantOut, "\n") {
		return fmt.Errorf("the output is not what the renderers wrote:\n%s", short(buf.Bytes()))
	}
	return nil
}

var dotLabels = []string{"", "A", "a b", `q"uote`, `back\slash`, `\`, `\\`, `"`, `\"`, "line\nbreak", `\n`, "é日本😀", "a;b", "a->b", "[x=1]", "}", "// c", "/* c */", "# c", "<b>", "\t", `ends\`, "x];\n y -> z [label=\"w"}

// ValueCase encodes a graph of which one item has a value that JSON may or may
// not be able to express.
type ValueCase struct {
	Ops      []Op `json:"ops"`
	Separate bool `json:"separate"`
	Hook     bool `json:"hook"` // the value is what a property marshaler returns
	Target   int  `json:"target"`
	Bad      int  `json:"bad"`
	Wrap     int  `json:"wrap"`
}

var errMarshal = errors.New("the value cannot be marshaled")

type failMarshaler struct{ ok bool }

func (f failMarshaler) MarshalJSON() ([]byte, error) {
	if f.ok {
		return []byte(`{"ok":1}`), nil
	}
	return nil, errMarshal
}

type failText struct{}

func (failText) MarshalText() ([]byte, error) { return nil, errMarshal }

func (c ValueCase) value() any {
	var v any
	switch mod(c.Bad, 14) {
	case 0:
		v = math.NaN()
	case 1:
		v = math.Inf(1)
	case 2:
		v = make(chan int)
	case 3:
		v = func() {}
	case 4:
		v = failMarshaler{}
	case 5:
		v = &failMarshaler{}
	case 6:
		v = failText{}
	case 7:
		v = complex(1, 2)
	case 8:
		v = map[bool]int{true: 1}
	case 9: // fine
		v = failMarshaler{ok: true}
	case 10: // fine
		v = map[int]string{3: "x"}
	case 11: // fine
		v = struct{ A, B any }{1, nil}
	case 12: // fine
		v = json.RawMessage(`{"a":[1,2]}`)
	case 13:
		v = json.RawMessage(`{"a":[1,2}`)
	}
	for w := mod(c.Wrap, 27); w > 0; w /= 3 {
		switch w % 3 {
		case 1:
			v = []any{1, v}
		case 2:
			v = map[string]any{"k": v}
		}
	}
	return v
}

func runValueCase(c ValueCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	n := len(e.nodes) + len(e.edges)
	if n == 0 {
		return nil
	}
	v := c.value()
	_, wantErr := json.Marshal(v)
	t := mod(c.Target, n)
	set := func(v any) {
		if t < len(e.nodes) {
			e.nodes[t].h.SetProperty("the value", v)
		} else {
			e.edges[t-len(e.nodes)].h.SetProperty("the value", v)
		}
	}
	j := lpg.JSON{MarshalEdgesSeparately: c.Separate}
	if c.Hook {
		// the marshaler passes on text that is or is not JSON
		raw := []string{"{", "[1,", "tru", `"a`, "1 2", "[1]", `{"a":null}`}[mod(c.Bad, 7)]
		wantErr = nil
		if !json.Valid([]byte(raw)) {
			wantErr = errMarshal
		}
		set(0)
		j.PropertyMarshaler = func(k string, v any) (string, json.RawMessage, error) {
			if k == "the value" {
				return k, json.RawMessage(raw), nil
			}
			d, err := json.Marshal(v)
			return k, d, err
		}
	} else {
		set(v)
	}
	what := "a node"
	if t >= len(e.nodes) {
		what = "an edge"
	}
	ctx.Class("on " + what)
	ctx.ClassIf(c.Hook, "text from a hook")
	ctx.ClassIf(wantErr != nil, "cannot be encoded")
	if wantErr != nil {
		ctx.NonTrivial()
	}
	var buf bytes.Buffer
	err := j.Encode(e.g, &buf)
	if wantErr == nil {
		if err != nil {
			return fmt.Errorf("all values can be encoded, and Encode returned %v", err)
		}
		if !json.Valid(buf.Bytes()) {
			return fmt.Errorf("Encode wrote what is not JSON: %q", buf.String())
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("%s has a property that cannot be encoded (%v), and success is reported; written: %s", what, wantErr, buf.String())
	}
	if errors.Is(wantErr, errMarshal) && !c.Hook && !errors.Is(err, errMarshal) {
		return fmt.Errorf("the error is %v, want %v", err, wantErr)
	}
	return nil
}

func init() {
	mh := func(t *rapid.T) []Op { return genOps(t, jsonHist(20)) }
	register("C11", "marshaler", "histories with JSON values, encoded with a recording, renaming, changing, skipping or failing property marshaler; non-trivial: at least 2 properties in the graph",
		3000, func(t *rapid.T) HookCase { c := genHookCase(t); c.Ops = mh(t); return c }, runMarshalHook)
	register("C11", "unmarshaler", "documents decoded with a recording, renaming, changing, skipping or failing property unmarshaler; non-trivial: at least 2 properties in the document",
		3000, func(t *rapid.T) HookCase { c := genHookCase(t); c.Docs = []Doc{genDoc(t)}; return c }, runUnmarshalHook)
	register("C11", "unmarshaler-large", "the same with documents of up to 400 nodes and thousands of edges; non-trivial: as for unmarshaler",
		30, func(t *rapid.T) HookCase { c := genHookCase(t); c.Docs = []Doc{genBigDoc(t, 400)}; return c }, runUnmarshalHook)
	register("C11", "interner-large", "the same with documents of up to 400 nodes and thousands of edges; non-trivial: as for interner",
		16, func(t *rapid.T) HookCase {
			c := genHookCase(t)
			if rapid.Bool().Draw(t, "plain") {
				c.Rename, c.Change, c.SkipMod = false, false, 0
			}
			c.Docs = []Doc{genBigDoc(t, 400), genDoc(t)}
			return c
		}, runInterner)
	register("C11", "interner", "documents decoded with no, fresh, shared and recording interners, with and without hooks; non-trivial: at least 2 properties",
		1500, func(t *rapid.T) HookCase {
			c := genHookCase(t)
			if rapid.Bool().Draw(t, "plain") {
				c.Rename, c.Change, c.SkipMod = false, false, 0
			}
			c.Docs = []Doc{genDoc(t), genDoc(t)}
			return c
		}, runInterner)

	register("C12", "writers", "histories x {JSON, DOT} x writers failing at every byte position or at one write, and failing renderers; non-trivial: the graph has an edge",
		500, func(t *rapid.T) WriterCase {
			return WriterCase{
				Ops:   genOps(t, jsonHist(12)),
				Kind:  rapid.IntRange(0, 6).Draw(t, "kind"),
				Name:  rapid.SampledFrom(dotNames).Draw(t, "name"),
				Short: rapid.Bool().Draw(t, "short"),
				Off:   rapid.IntRange(0, 20).Draw(t, "off"),
			}
		}, runWriterCase)
	register("C12", "writers-large", "the same with graphs of up to hundreds of items; non-trivial: as for writers",
		24, func(t *rapid.T) WriterCase {
			o := jsonHist(0)
			o.BulkKeys = []string{"i0", "s0"}
			return WriterCase{
				Ops:   wideOps(t, 160, o),
				Kind:  rapid.IntRange(0, 6).Draw(t, "kind"),
				Name:  rapid.SampledFrom(dotNames).Draw(t, "name"),
				Short: rapid.Bool().Draw(t, "short"),
				Off:   rapid.IntRange(0, 1000).Draw(t, "off"),
			}
		}, runWriterCase)
	register("C12", "values", "histories with one property value that json.Marshal rejects, or invalid text from a property marshaler, or a value it accepts; non-trivial: the value cannot be encoded",
		500, func(t *rapid.T) ValueCase {
			return ValueCase{
				Ops:      genOps(t, jsonHist(12)),
				Separate: rapid.Bool().Draw(t, "separate"),
				Hook:     rapid.IntRange(0, 2).Draw(t, "hook") == 2,
				Target:   rapid.IntRange(0, 1000).Draw(t, "target"),
				Bad:      rapid.IntRange(0, 13).Draw(t, "bad"),
				Wrap:     rapid.IntRange(0, 26).Draw(t, "wrap"),
			}
		}, runValueCase)

	dotHist := HistOpt{MaxOps: 20, BulkOneIn: 20, BulkMax: 15, NoIndex: true, EdgeLabel: func(t *rapid.T) string {
		if rapid.IntRange(0, 9).Draw(t, "rnd") == 0 {
			return strings.ReplaceAll(rapid.String().Draw(t, "elabel"), "\x00", "")
		}
		return rapid.SampledFrom(dotLabels).Draw(t, "elabel")
	}}
	genDot := func(t *rapid.T) DotCase {
		return DotCase{
			Ops:     genOps(t, dotHist),
			Name:    rapid.SampledFrom(dotNames).Draw(t, "name"),
			Decline: rapid.IntRange(0, 3).Draw(t, "decline"),
			EDec:    rapid.Bool().Draw(t, "edec"),
		}
	}
	register("C24", "default", "histories with arbitrary edge labels, rendered and parsed back with an own DOT parser; non-trivial: a label needing escapes or at least 3 edges",
		3000, genDot, runDotDefault)
	register("C24", "custom", "histories rendered with logging renderers that decline nodes and edges; non-trivial: at least 2 edges or an edge of a declined node",
		3000, genDot, runDotCustom)
}
