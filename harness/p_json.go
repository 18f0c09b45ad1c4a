package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- generators

var jsonKeys = []string{"s0", "s0", "j0", "j1", "k é", `q"\`, "<&>", "A"}

func genJSONKey(t *rapid.T) string {
	if rapid.IntRange(0, 11).Draw(t, "key?") == 0 {
		if s := genString(t, "key"); s != "" {
			if keyClass(s) == "any" {
				return s
			}
		}
	}
	return rapid.SampledFrom(jsonKeys).Draw(t, "key")
}

func genJSONPropVal(t *rapid.T, key string) Val {
	if key == "s0" {
		return vStr(genString(t, "str"))
	}
	if rapid.IntRange(0, 5).Draw(t, "int?") == 0 {
		return vInt(genInt(t, "int"))
	}
	if rapid.IntRange(0, 29).Draw(t, "deep?") == 29 {
		return genJSONVal(t, 6)
	}
	return genJSONVal(t, 2)
}

func genJSONProps(t *rapid.T, max int) []KV {
	n := rapid.IntRange(0, max).Draw(t, "nprops")
	var r []KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genJSONKey(t)
		if seen[k] {
			continue
		}
		seen[k] = true
		r = append(r, KV{k, genJSONPropVal(t, k)})
	}
	if max >= 3 && rapid.IntRange(0, 39).Draw(t, "manyprops") == 39 {
		for i := rapid.IntRange(6, 24).Draw(t, "nmany"); i > 0; i-- {
			r = append(r, KV{fmt.Sprintf("k%02d", i), vFloat(float64(i))})
		}
	}
	return r
}

func jsonHist(maxOps int) HistOpt {
	return HistOpt{
		MaxOps: maxOps, BulkOneIn: 15, BulkMax: 60,
		Props:     genJSONProps,
		PropVal:   func(t *rapid.T) (string, Val) { k := genJSONKey(t); return k, genJSONPropVal(t, k) },
		IndexKeys: []string{"s0"},
	}
}

// ---------------------------------------------------------------- parsing the output

type pNode struct {
	N          *int                       `json:"n"`
	Labels     []string                   `json:"labels"`
	Properties map[string]json.RawMessage `json:"properties"`
	Edges      []pEdge                    `json:"edges"`
}

type pEdge struct {
	From       *int                       `json:"from"`
	To         *int                       `json:"to"`
	Label      string                     `json:"label"`
	Properties map[string]json.RawMessage `json:"properties"`
}

// topLevel splits the object at the start of data into its members, in order.
// rest is what follows it.
func topLevel(data []byte) (keys []string, vals []json.RawMessage, rest []byte, err error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	var raw json.RawMessage
	if err := dec.Decode(&raw); err != nil {
		return nil, nil, nil, err
	}
	rest = data[dec.InputOffset():]
	in := json.NewDecoder(bytes.NewReader(raw))
	tok, err := in.Token()
	if err != nil {
		return nil, nil, nil, err
	}
	if tok != json.Delim('{') {
		return nil, nil, nil, fmt.Errorf("not an object")
	}
	for in.More() {
		tok, err := in.Token()
		if err != nil {
			return nil, nil, nil, err
		}
		k, ok := tok.(string)
		if !ok {
			return nil, nil, nil, fmt.Errorf("bad key")
		}
		var v json.RawMessage
		if err := in.Decode(&v); err != nil {
			return nil, nil, nil, err
		}
		keys = append(keys, k)
		vals = append(vals, v)
	}
	return keys, vals, rest, nil
}

func propSigs(m map[string]json.RawMessage) (map[string]string, error) {
	r := map[string]string{}
	for k, v := range m {
		var x any
		if err := json.Unmarshal(v, &x); err != nil {
			return nil, err
		}
		r[k] = jsonCanon(x)
	}
	return r, nil
}

// parseDoc reads a document as the format documents it. layout says where
// edges may be.
func parseDoc(data []byte, separate bool) (*AGraph, error) {
	if !json.Valid(data) {
		return nil, fmt.Errorf("not valid JSON")
	}
	keys, vals, _, err := topLevel(data)
	if err != nil {
		return nil, err
	}
	var nodes []pNode
	var edges []pEdge
	seen := map[string]bool{}
	for i, k := range keys {
		if seen[k] {
			return nil, fmt.Errorf("key %q is there twice", k)
		}
		seen[k] = true
		switch k {
		case "nodes":
			err = json.Unmarshal(vals[i], &nodes)
		case "edges":
			err = json.Unmarshal(vals[i], &edges)
		}
		if err != nil {
			return nil, fmt.Errorf("%s: %w", k, err)
		}
	}
	g := &AGraph{}
	ix := map[int]int{}
	for i, n := range nodes {
		if n.N == nil {
			return nil, fmt.Errorf("node without n")
		}
		if _, dup := ix[*n.N]; dup {
			return nil, fmt.Errorf("two nodes have n=%d", *n.N)
		}
		ix[*n.N] = i
		p, err := propSigs(n.Properties)
		if err != nil {
			return nil, err
		}
		g.nodes = append(g.nodes, sigOf(n.Labels, p))
	}
	add := func(from, to *int, label string, props map[string]json.RawMessage) error {
		if from == nil || to == nil {
			return fmt.Errorf("edge without an end")
		}
		f, ok := ix[*from]
		t, ok2 := ix[*to]
		if !ok || !ok2 {
			return fmt.Errorf("edge %d->%d between unknown nodes", *from, *to)
		}
		p, err := propSigs(props)
		if err != nil {
			return err
		}
		g.edges = append(g.edges, AEdge{f, t, sigOf([]string{label}, p)})
		return nil
	}
	for _, n := range nodes {
		if separate && len(n.Edges) > 0 {
			return nil, fmt.Errorf("edges are embedded though configured separate")
		}
		for _, x := range n.Edges {
			if err := add(n.N, x.To, x.Label, x.Properties); err != nil {
				return nil, err
			}
		}
	}
	if !separate && len(edges) > 0 {
		return nil, fmt.Errorf("edges are separate though configured embedded")
	}
	for _, x := range edges {
		if err := add(x.From, x.To, x.Label, x.Properties); err != nil {
			return nil, err
		}
	}
	return g, nil
}

// ---------------------------------------------------------------- C09 documents

type DocEdge struct {
	From  int    `json:"from"`
	To    int    `json:"to"`
	Label string `json:"label,omitempty"`
	Props []KV   `json:"props,omitempty"`
}

type DocNode struct {
	N      int       `json:"n"`
	Labels []string  `json:"labels,omitempty"`
	Props  []KV      `json:"props,omitempty"`
	Edges  []DocEdge `json:"edges,omitempty"`
}

// Doc describes a document.
type Doc struct {
	Nodes   []DocNode `json:"nodes"`
	Edges   []DocEdge `json:"edges"`
	Unknown []KV      `json:"unknown,omitempty"`
	Order   []int     `json:"order,omitempty"` // sort keys of members
	Style   []int     `json:"style,omitempty"` // whitespace, escapes, empty members
}

var poolN = []int{0, 1, 2, 3, 4, 5, -1, -2, 100, 7, 1 << 40, -(1 << 40), 12345, 1 << 53, 1<<53 + 1, 1<<63 - 1, -1 << 63}

func genDocEdge(t *rapid.T, ns []int, from int) DocEdge {
	pick := func(n string) int {
		if len(ns) == 0 || rapid.IntRange(0, 60+8*len(ns)).Draw(t, "dangling") == 50 {
			return rapid.SampledFrom([]int{9, 99, -99}).Draw(t, n)
		}
		return rapid.SampledFrom(ns).Draw(t, n)
	}
	e := DocEdge{From: from, To: pick("to"), Label: genLabel(t, "elabel"), Props: genJSONProps(t, 2)}
	if from == noFrom {
		e.From = pick("from")
	}
	return e
}

const noFrom = -777777

func genDoc(t *rapid.T) Doc {
	var d Doc
	n := rapid.IntRange(0, 6).Draw(t, "nnodes")
	large := rapid.IntRange(0, 24).Draw(t, "large") == 24
	if large {
		n = rapid.IntRange(7, 40).Draw(t, "nnodes")
	}
	var ns []int
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		v := 0
		if large {
			v = rapid.IntRange(-30, 90).Draw(t, "n")
		} else {
			v = rapid.SampledFrom(poolN).Draw(t, "n")
		}
		if !seen[v] {
			seen[v] = true
			ns = append(ns, v)
		}
	}
	for _, v := range ns {
		dn := DocNode{N: v, Labels: genLabels(t, 3), Props: genJSONProps(t, 3)}
		k := rapid.IntRange(0, 2).Draw(t, "nembedded")
		for j := 0; j < k; j++ {
			dn.Edges = append(dn.Edges, genDocEdge(t, ns, v))
		}
		d.Nodes = append(d.Nodes, dn)
	}
	k := rapid.IntRange(0, 4).Draw(t, "nseparate")
	if len(ns) == 0 && rapid.IntRange(0, 3).Draw(t, "noedges") > 0 {
		k = 0
	}
	if large {
		k = rapid.IntRange(0, 40).Draw(t, "nseparate")
	}
	for j := 0; j < k; j++ {
		d.Edges = append(d.Edges, genDocEdge(t, ns, noFrom))
	}
	seenK := map[string]bool{}
	k = rapid.IntRange(0, 3).Draw(t, "nunknown")
	for j := 0; j < k; j++ {
		key := rapid.SampledFrom([]string{"x", "version", "node", "meta", "", "n", "labels", "properties", "from", "é", "graph"}).Draw(t, "ukey")
		if !seenK[key] {
			seenK[key] = true
			d.Unknown = append(d.Unknown, KV{key, genDeepJSON(t, 4)})
		}
	}
	d.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 8).Draw(t, "order")
	d.Style = rapid.SliceOfN(rapid.IntRange(0, 11), 0, 6).Draw(t, "style")
	return d
}

// genBigDoc draws a document of hundreds to thousands of nodes and edges.
func genBigDoc(t *rapid.T, max int) Doc {
	var d Doc
	n := rapid.SampledFrom([]int{max / 20, max / 9, max / 4, max / 2, max}).Draw(t, "nnodes") + rapid.IntRange(0, 9).Draw(t, "more")
	mul := rapid.SampledFrom([]int{1, 1, -1, 7, 1 << 20, 1 << 40}).Draw(t, "mul")
	off := rapid.SampledFrom([]int{0, 1, -50, 1 << 31}).Draw(t, "off")
	stride := rapid.SampledFrom([]int{1, 1, 1009, 7919}).Draw(t, "stride") // primes above n: permutations
	num := func(i int) int { return (mod(i, n)*stride%n)*mul + off }
	labels := genLabels(t, 3)
	elabels := []string{genLabel(t, "elabel"), genLabel(t, "elabel"), ""}
	props, eprops := genJSONProps(t, 3), genJSONProps(t, 2)
	emb, sep := rapid.IntRange(0, 4).Draw(t, "embed"), rapid.SampledFrom([]int{0, 0, 1, 90, 400, 1200}).Draw(t, "sep")
	jump := rapid.SampledFrom([]int{1, -1, 17, 50}).Draw(t, "jump")
	edge := func(i, k int) DocEdge {
		e := DocEdge{From: num(i), To: num(i + k*jump), Label: elabels[(i+k)%3]}
		if (i+k)%4 == 0 {
			e.Props = eprops
		}
		return e
	}
	hub := rapid.IntRange(0, 300).Draw(t, "hub")
	for i := 0; i < n; i++ {
		dn := DocNode{N: num(i)}
		if i%3 > 0 {
			dn.Labels = labels
		}
		if i%2 == 0 {
			dn.Props = append(append([]KV(nil), props...), KV{fmt.Sprintf("only%d", i%5), vInt(i)})
		}
		if n > 150 && i%40 > 0 { // told apart easily
			dn.Props = append(dn.Props[:len(dn.Props):len(dn.Props)], KV{"own", vInt(i)})
		}
		if i == 7 {
			for k := 0; k < hub; k++ {
				dn.Edges = append(dn.Edges, edge(i, k))
				dn.Props = append(dn.Props, KV{fmt.Sprintf("key%d", k), vStr(fmt.Sprintf("v%d", k%7))})
				if k%4 == 0 {
					dn.Labels = append(dn.Labels[:len(dn.Labels):len(dn.Labels)], fmt.Sprintf("L%d", k))
				}
			}
		}
		for k := 0; k < emb && i%3 == 1; k++ {
			dn.Edges = append(dn.Edges, edge(i, k+1))
		}
		d.Nodes = append(d.Nodes, dn)
	}
	for k := 0; k < sep; k++ {
		d.Edges = append(d.Edges, edge(k*3, k%13))
	}
	d.Order = rapid.SliceOfN(rapid.IntRange(0, 9), 0, 8).Draw(t, "order")
	d.Style = rapid.SliceOfN(rapid.IntRange(0, 11), 0, 6).Draw(t, "style")
	return d
}

// genDeepJSON favours nesting and contents that look like parts of a graph.
func genDeepJSON(t *rapid.T, depth int) Val {
	k := rapid.IntRange(0, 6).Draw(t, "deep")
	if depth <= 0 {
		k = 6
	}
	switch k {
	case 0, 1:
		n := rapid.IntRange(0, 3).Draw(t, "len")
		r := Val{K: "L"}
		for i := 0; i < n; i++ {
			r.L = append(r.L, genDeepJSON(t, depth-1))
		}
		return r
	case 2, 3:
		n := rapid.IntRange(0, 3).Draw(t, "len")
		r := Val{K: "M"}
		seen := map[string]bool{}
		for i := 0; i < n; i++ {
			k := rapid.SampledFrom([]string{"nodes", "edges", "a", "b", "n", ""}).Draw(t, "mk")
			if seen[k] {
				continue
			}
			seen[k] = true
			r.Keys = append(r.Keys, k)
			r.L = append(r.L, genDeepJSON(t, depth-1))
		}
		return r
	case 4:
		return vStr(rapid.SampledFrom([]string{"nodes", "edges", "}", "{", "]", ""}).Draw(t, "s"))
	}
	return genJSONVal(t, 1)
}

// docWriter renders a document.
type docWriter struct {
	sb    strings.Builder
	order []int
	style []int
	o, s  int
	// corruption of the k-th typed field
	field   int
	corrupt int
	bad     int
	kind    string // the kind of the corrupted field
}

func (w *docWriter) next() int {
	if len(w.style) == 0 {
		return 0
	}
	w.s++
	return w.style[w.s%len(w.style)]
}

func (w *docWriter) ws() {
	switch w.next() {
	case 7:
		w.sb.WriteString(" ")
	case 8:
		w.sb.WriteString("\n\t")
	case 9:
		w.sb.WriteString("\r\n  ")
	}
}

func (w *docWriter) ord() int {
	if len(w.order) == 0 {
		return 0
	}
	w.o++
	return w.order[w.o%len(w.order)]
}

func (w *docWriter) str(s string) {
	if w.next()%4 == 3 { // escaped
		w.sb.WriteByte('"')
		for _, r := range s {
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&w.sb, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else if r == '/' {
				w.sb.WriteString(`\/`)
			} else {
				fmt.Fprintf(&w.sb, `\u%04x`, r)
			}
		}
		w.sb.WriteByte('"')
		return
	}
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(w.next()%2 == 0)
	if err := enc.Encode(s); err != nil {
		bug("string %q", s)
	}
	w.sb.Write(bytes.TrimSpace(b.Bytes()))
}

func (w *docWriter) val(v Val) {
	switch v.K {
	case "i":
		w.sb.WriteString(strconv.Itoa(v.I))
	case "f":
		if w.next()%3 == 0 {
			w.sb.WriteString(strconv.FormatFloat(v.float(), 'e', -1, 64))
		} else {
			w.sb.WriteString(strconv.FormatFloat(v.float(), 'g', -1, 64))
		}
	case "b":
		w.sb.WriteString(strconv.FormatBool(v.I != 0))
	case "z":
		w.sb.WriteString("null")
	case "s":
		w.str(v.S)
	case "L":
		w.list(len(v.L), func(i int) { w.val(v.L[i]) })
	case "M":
		var ms []member
		for i, k := range v.Keys {
			i := i
			ms = append(ms, member{k, func() { w.val(v.L[i]) }})
		}
		w.object(ms)
	default:
		bug("no JSON for %s", v.K)
	}
}

type member struct {
	key string
	f   func()
}

func (w *docWriter) object(ms []member) {
	// a permutation by stable insertion of drawn keys
	type km struct {
		k int
		m member
	}
	var l []km
	for _, m := range ms {
		k := w.ord()
		i := len(l)
		for i > 0 && l[i-1].k > k {
			i--
		}
		l = append(l[:i], append([]km{{k, m}}, l[i:]...)...)
	}
	w.sb.WriteByte('{')
	w.ws()
	for i, m := range l {
		if i > 0 {
			w.sb.WriteByte(',')
			w.ws()
		}
		w.str(m.m.key)
		w.ws()
		w.sb.WriteByte(':')
		w.ws()
		m.m.f()
		w.ws()
	}
	w.sb.WriteByte('}')
}

func (w *docWriter) list(n int, f func(int)) {
	w.sb.WriteByte('[')
	w.ws()
	for i := 0; i < n; i++ {
		if i > 0 {
			w.sb.WriteByte(',')
			w.ws()
		}
		f(i)
		w.ws()
	}
	w.sb.WriteByte(']')
}

var badValues = map[string][]string{
	"int":    {`"1"`, `1.5`, `true`, `[]`, `{}`, `1e30`, `"x"`, `[1]`},
	"labels": {`"A"`, `1`, `{}`, `true`, `[1]`, `["A",{}]`, `[["A"]]`},
	"label":  {`1`, `[]`, `{}`, `true`, `["A"]`},
	"props":  {`[]`, `"x"`, `1`, `true`, `[1]`},
	"array":  {`{}`, `"x"`, `1`, `true`, `[1]`, `["x"]`, `[[]]`},
	"object": {`1`, `"x"`, `[]`, `true`},
}

// typed writes a field of a known type, or something else in its place.
func (w *docWriter) typed(kind string, f func()) {
	w.field++
	if w.corrupt == w.field {
		w.kind = kind
		w.sb.WriteString(badValues[kind][mod(w.bad, len(badValues[kind]))])
		return
	}
	f()
}

func (w *docWriter) props(kv []KV) func() {
	return func() {
		w.typed("props", func() {
			var ms []member
			for _, p := range kv {
				p := p
				ms = append(ms, member{p.Key, func() { w.val(p.Val) }})
			}
			w.object(ms)
		})
	}
}

func (w *docWriter) int(i int) func() {
	return func() { w.typed("int", func() { w.sb.WriteString(strconv.Itoa(i)) }) }
}

func (w *docWriter) edge(x DocEdge, from bool) {
	w.typed("object", func() {
		ms := []member{{"to", w.int(x.To)}}
		if from {
			ms = append(ms, member{"from", w.int(x.From)})
		}
		if x.Label != "" || w.next()%2 == 1 {
			ms = append(ms, member{"label", func() { w.typed("label", func() { w.str(x.Label) }) }})
		}
		if len(x.Props) > 0 || w.next()%2 == 1 {
			ms = append(ms, member{"properties", w.props(x.Props)})
		}
		w.object(ms)
	})
}

func (w *docWriter) doc(d Doc) {
	var ms []member
	if len(d.Nodes) > 0 || w.next()%2 == 1 {
		ms = append(ms, member{"nodes", func() {
			w.typed("array", func() {
				w.list(len(d.Nodes), func(i int) {
					n := d.Nodes[i]
					w.typed("object", func() {
						ms := []member{{"n", w.int(n.N)}}
						if len(n.Labels) > 0 || w.next()%2 == 1 {
							ms = append(ms, member{"labels", func() {
								w.typed("labels", func() { w.list(len(n.Labels), func(i int) { w.str(n.Labels[i]) }) })
							}})
						}
						if len(n.Props) > 0 || w.next()%2 == 1 {
							ms = append(ms, member{"properties", w.props(n.Props)})
						}
						if len(n.Edges) > 0 || w.next()%3 == 1 {
							ms = append(ms, member{"edges", func() {
								w.typed("array", func() { w.list(len(n.Edges), func(i int) { w.edge(n.Edges[i], false) }) })
							}})
						}
						w.object(ms)
					})
				})
			})
		}})
	}
	if len(d.Edges) > 0 || w.next()%2 == 1 {
		ms = append(ms, member{"edges", func() {
			w.typed("array", func() { w.list(len(d.Edges), func(i int) { w.edge(d.Edges[i], true) }) })
		}})
	}
	for _, u := range d.Unknown {
		u := u
		ms = append(ms, member{u.Key, func() { w.val(u.Val) }})
	}
	w.object(ms)
}

func (d Doc) text() string {
	w := &docWriter{order: d.Order, style: d.Style}
	w.doc(d)
	if !json.Valid([]byte(w.sb.String())) {
		bug("the writer wrote invalid JSON: %s", w.sb.String())
	}
	return w.sb.String()
}

// fields is the number of typed fields.
func (d Doc) corrupted(k, bad int) (text, kind string) {
	w := &docWriter{order: d.Order, style: d.Style}
	w.doc(d)
	total := w.field
	if total == 0 {
		return "", ""
	}
	w = &docWriter{order: d.Order, style: d.Style, corrupt: 1 + mod(k, total), bad: bad}
	w.doc(d)
	return w.sb.String(), w.kind
}

// appendTo adds the described graph to a.
func (d Doc) appendTo(a *AGraph) (dangling bool) {
	base := len(a.nodes)
	ix := map[int]int{}
	ps := func(kv []KV) map[string]string {
		m := map[string]string{}
		for _, p := range kv {
			m[p.Key] = jsonCanonVal(p.Val)
		}
		return m
	}
	for i, n := range d.Nodes {
		ix[n.N] = base + i
		a.nodes = append(a.nodes, sigOf(n.Labels, ps(n.Props)))
	}
	add := func(x DocEdge) {
		f, ok := ix[x.From]
		t, ok2 := ix[x.To]
		if !ok || !ok2 {
			dangling = true
			return
		}
		a.edges = append(a.edges, AEdge{f, t, sigOf([]string{x.Label}, ps(x.Props))})
	}
	for _, n := range d.Nodes {
		for _, x := range n.Edges {
			add(x)
		}
	}
	for _, x := range d.Edges {
		add(x)
	}
	return dangling
}

// chunkReader returns data in pieces.
type chunkReader struct {
	data  []byte
	sizes []int
	i     int
	err   error // returned at the end, io.EOF if nil
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(r.sizes) > 0 {
		if s := r.sizes[r.i%len(r.sizes)]; s < n {
			n = s
		}
		r.i++
	}
	if n < 1 {
		n = 1
	}
	if n > len(r.data) {
		n = len(r.data)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	return n, nil
}

type EncCase struct {
	Ops   []Op  `json:"ops"`
	Index bool  `json:"index"`
	Chunk []int `json:"chunk,omitempty"`
}

type DecCase struct {
	Ops      []Op  `json:"ops"`
	Docs     []Doc `json:"docs"`
	SameG    bool  `json:"sameg"`
	Index    bool  `json:"index"`
	Trailing int   `json:"trailing"`
	Chunk    []int `json:"chunk,omitempty"`
}

func specialShape(e *Env) bool {
	if len(e.nodes) == 0 || len(e.edges) > 0 {
		return true
	}
	for _, n := range e.nodes {
		if len(n.labels) == 0 {
			return true
		}
	}
	return false
}

func graphShapeClasses(ctx *Ctx, e *Env) {
	ctx.ClassIf(len(e.nodes) == 0, "empty graph")
	seen := map[[2]*MNode]bool{}
	for _, x := range e.edges {
		ctx.ClassIf(x.from == x.to, "self-loop")
		ctx.ClassIf(seen[[2]*MNode{x.from, x.to}], "parallel edges")
		ctx.ClassIf(x.label == "", "empty edge label")
		seen[[2]*MNode{x.from, x.to}] = true
	}
	for _, n := range e.nodes {
		ctx.ClassIf(len(n.labels) == 0, "unlabeled node")
	}
}

func runEncCase(c EncCase, ctx *Ctx) error {
	e := newEnv()
	e.runAll(c.Ops)
	graphShapeClasses(ctx, e)
	if specialShape(e) {
		ctx.NonTrivial()
	}
	want := e.modelGraph(jsonCanonVal)
	for _, separate := range []bool{false, true} {
		j := lpg.JSON{MarshalEdgesSeparately: separate}
		var buf bytes.Buffer
		if err := j.Encode(e.g, &buf); err != nil {
			return fmt.Errorf("Encode(separate=%v): %w", separate, err)
		}
		data := append([]byte(nil), buf.Bytes()...)
		doc, err := parseDoc(data, separate)
		if err != nil {
			return fmt.Errorf("Encode(separate=%v) wrote %s: %w", separate, short(data), err)
		}
		if _, err := iso(want, doc); err != nil {
			return fmt.Errorf("Encode(separate=%v) wrote %s: %w", separate, short(data), err)
		}
		g2 := lpg.NewGraph()
		if c.Index {
			g2.AddNodePropertyIndex("s0", lpg.BtreeIndex)
			g2.AddEdgePropertyIndex("s0", lpg.HashIndex)
		}
		if err := (lpg.JSON{MarshalEdgesSeparately: !separate}).Decode(g2, json.NewDecoder(&chunkReader{data: data, sizes: c.Chunk})); err != nil {
			return fmt.Errorf("Decode of %s: %w", short(data), err)
		}
		got, err := lpgGraph(g2, jsonCanon)
		if err != nil {
			return err
		}
		if _, err := iso(want, got); err != nil {
			return fmt.Errorf("Decode of %s: %w", short(data), err)
		}
		e2, err := adoptGraph(g2)
		if err != nil {
			return err
		}
		if err := e2.checkAll(); err != nil {
			return fmt.Errorf("the decoded graph is inconsistent: %w", err)
		}
		var buf2 bytes.Buffer
		if err := j.Encode(g2, &buf2); err != nil {
			return fmt.Errorf("Encode of a decoded graph: %w", err)
		}
		doc2, err := parseDoc(buf2.Bytes(), separate)
		if err != nil {
			return fmt.Errorf("Encode of a decoded graph wrote %s: %w", short(buf2.Bytes()), err)
		}
		if _, err := iso(want, doc2); err != nil {
			return fmt.Errorf("Encode of a decoded graph: %w", err)
		}
	}
	return nil
}

func init() {
	register("C08", "roundtrip",
		"histories with JSON property values; both layouts encoded, parsed independently, decoded, re-encoded; non-trivial: the graph is empty, has edges or an unlabeled node",
		1500, func(t *rapid.T) EncCase {
			return EncCase{
				Ops:   genOps(t, jsonHist(25)),
				Index: rapid.Bool().Draw(t, "index"),
				Chunk: rapid.SliceOfN(rapid.IntRange(1, 40), 0, 3).Draw(t, "chunk"),
			}
		},
		runEncCase)

	register("C09", "documents",
		"streams of documents from an own writer (member order, sparse indexes, embedded and separate edges, unknown members, escapes, whitespace, dangling references) decoded into empty or populated graphs; non-trivial: an edge, an unknown member, or a populated target",
		3000, func(t *rapid.T) DecCase {
			c := DecCase{
				Docs:  rapid.SliceOfN(rapid.Custom(genDoc), 1, 3).Draw(t, "docs"),
				SameG: rapid.Bool().Draw(t, "sameg"),
				Index: rapid.Bool().Draw(t, "index"),
				Chunk: rapid.SliceOfN(rapid.IntRange(1, 40), 0, 3).Draw(t, "chunk"),
			}
			c.Trailing = rapid.IntRange(0, 4).Draw(t, "trailing")
			if rapid.Bool().Draw(t, "populated") {
				c.Ops = genOps(t, jsonHist(10))
			}
			return c
		}, runDecCase)

	register("C09", "large",
		"documents of up to 1200 nodes and thousands of edges, and of nodes with hundreds of properties, labels and edges, as for documents; non-trivial: as for documents",
		20, func(t *rapid.T) DecCase {
			c := DecCase{
				Docs:  []Doc{genBigDoc(t, 1200)},
				Index: rapid.Bool().Draw(t, "index"),
				Chunk: rapid.SliceOfN(rapid.SampledFrom([]int{1, 511, 512, 513, 4096, 70000}), 0, 3).Draw(t, "chunk"),
			}
			if rapid.Bool().Draw(t, "populated") {
				c.Ops = genOps(t, jsonHist(10))
			}
			return c
		}, runDecCase)
	register("C10", "mutations",
		"documents damaged by edits, and random bytes; non-trivial: the damaged text still starts like an object",
		6000, genMutCase, runMutCase)
	register("C09", "bytes",
		"texts made by editing documents; those that still are documents to the letter of the format, read by an own strict reader, are decoded; non-trivial: such a document with a node",
		3000, genMutCase, runBytesCase)
	bytesDriver := findDriver("C09", "bytes")
	mut := findDriver("C10", "mutations")
	mut.fromBytes = func(b []byte) any { return MutCase{Raw: b} }
	mut.rawSeeds = func() [][]byte {
		ret := [][]byte{nil}
		for i := 0; i < 60; i++ {
			d := rapid.Custom(genDoc).Example(i)
			ret = append(ret, []byte(d.text()))
		}
		for _, s := range dict {
			ret = append(ret, []byte(`{"nodes":[`+s+`]}`), []byte(`{`+s+`}`))
		}
		return ret
	}
	bytesDriver.fromBytes, bytesDriver.rawSeeds = mut.fromBytes, mut.rawSeeds
	register("C10", "truncations",
		"every proper prefix of valid documents, and readers that fail there; non-trivial: a document of at least 20 bytes",
		400, func(t *rapid.T) DecCase {
			return DecCase{Docs: []Doc{genDoc(t)}, Chunk: rapid.SliceOfN(rapid.IntRange(1, 40), 0, 2).Draw(t, "chunk")}
		}, runTruncations)
	register("C10", "truncations-large",
		"some of the proper prefixes of large documents, as for truncations; non-trivial: as for truncations",
		10, func(t *rapid.T) DecCase {
			return DecCase{Docs: []Doc{genBigDoc(t, 1200)}, Chunk: rapid.SliceOfN(rapid.SampledFrom([]int{40, 511, 512, 513, 4096}), 0, 2).Draw(t, "chunk")}
		}, runTruncations)
	register("C10", "wrong-types",
		"valid documents with one field of a wrong type; non-trivial: such a document",
		4000, func(t *rapid.T) CorruptCase {
			return CorruptCase{Doc: genDoc(t), Field: rapid.IntRange(0, 60).Draw(t, "field"), Bad: rapid.IntRange(0, 7).Draw(t, "bad")}
		},
		func(c CorruptCase, ctx *Ctx) error {
			text, kind := c.Doc.corrupted(c.Field, c.Bad)
			if kind == "" {
				return nil
			}
			ctx.NonTrivial()
			ctx.Class("wrong " + kind)
			g, intact := decodeTarget(len(text))
			err := (lpg.JSON{}).Decode(g, json.NewDecoder(strings.NewReader(text)))
			if err == nil {
				return fmt.Errorf("a document with a wrongly typed field (%s) is accepted: %s", kind, short([]byte(text)))
			}
			if err := intact(); err != nil {
				return fmt.Errorf("after rejecting %s: %w", short([]byte(text)), err)
			}
			return nil
		})
}

func short(b []byte) string {
	if len(b) > 700 {
		return string(b[:700]) + "..."
	}
	return string(b)
}

func runDecCase(c DecCase, ctx *Ctx) error {
	var text strings.Builder
	for i, d := range c.Docs {
		text.WriteString(d.text())
		if c.Trailing == 3 || i%2 == 1 {
			text.WriteString(" \n")
		}
	}
	// something else follows
	switch c.Trailing {
	case 1:
		text.WriteString(` ["next"]`)
	case 2:
		text.WriteString(`{"x":1}`)
	case 4:
		text.WriteString(`{"x":1,"y":2}`)
	}
	ctx.ClassIf(len(c.Docs) > 1, "stream of several documents")
	dec := json.NewDecoder(&chunkReader{data: []byte(text.String()), sizes: c.Chunk})
	e := newEnv()
	e.runAll(c.Ops)
	ctx.ClassIf(len(e.nodes) > 0, "populated target")
	if len(e.nodes) > 0 {
		ctx.NonTrivial()
	}
	prep := func(g *lpg.Graph) {
		if c.Index {
			g.AddNodePropertyIndex("s0", lpg.HashIndex)
			g.AddEdgePropertyIndex("s0", lpg.BtreeIndex)
		}
	}
	prep(e.g)
	want := e.modelGraph(jsonCanonVal)
	g := e.g
	for i, d := range c.Docs {
		if i > 0 && !c.SameG {
			g = lpg.NewGraph()
			prep(g)
			want = &AGraph{}
		}
		dangling := d.appendTo(want)
		for _, u := range d.Unknown {
			ctx.NonTrivial()
			ctx.ClassIf(u.Val.K == "L" || u.Val.K == "M", "unknown composite member")
		}
		err := (lpg.JSON{}).Decode(g, dec)
		if dangling {
			ctx.Class("dangling reference")
			var ig lpg.ErrInvalidGraph
			if err == nil {
				return fmt.Errorf("doc %d: an edge to an unknown node is not reported: %s", i, short([]byte(d.text())))
			}
			if !errors.As(err, &ig) {
				return fmt.Errorf("doc %d: an edge to an unknown node gives %T (%v), expected ErrInvalidGraph", i, err, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("doc %d: Decode: %w in %s", i, err, short([]byte(text.String())))
		}
		for _, n := range d.Nodes {
			if len(n.Edges) > 0 {
				ctx.NonTrivial()
			}
		}
		got, err := lpgGraph(g, jsonCanon)
		if err != nil {
			return err
		}
		if _, err := iso(want, got); err != nil {
			return fmt.Errorf("doc %d %s: %w", i, short([]byte(d.text())), err)
		}
		if g == e.g {
			// what was there is as it was
			if err := e.checkProps(); err != nil {
				return fmt.Errorf("the target before decoding: %w", err)
			}
			if err := e.checkLabelsRead(); err != nil {
				return fmt.Errorf("the target before decoding: %w", err)
			}
			if err := e.checkAdjacency(); err != nil {
				return fmt.Errorf("the target before decoding: %w", err)
			}
		}
		e2, err := adoptGraph(g)
		if err != nil {
			return err
		}
		if err := e2.checkAll(); err != nil {
			return fmt.Errorf("the decoded graph is inconsistent: %w", err)
		}
	}
	// the stream stands right after the last document
	if c.Trailing == 4 {
		// something else, which the decoder reads as it did before
		var other struct {
			Y any `json:"y"`
		}
		err := dec.Decode(&other)
		if f, ok := other.Y.(float64); err != nil || !ok || f != 2 {
			return fmt.Errorf("the object {\"x\":1,\"y\":2} after the document reads, into a struct with an interface member y, as %T %v, %v: Decode changed the decoder", other.Y, other.Y, err)
		}
	}
	var v any
	err := dec.Decode(&v)
	switch c.Trailing {
	case 1:
		if err != nil || jsonCanon(v) != `L[s"next",]` {
			return fmt.Errorf("the value after the document reads as %v, %v", v, err)
		}
	case 2:
		if err != nil || jsonCanon(v) != jsonCanon(map[string]any{"x": 1}) {
			return fmt.Errorf("the object after the document reads as %v, %v", v, err)
		}
	default:
		if err != io.EOF {
			return fmt.Errorf("the end of the stream reads as %v, %v", v, err)
		}
	}
	return nil
}

// ---------------------------------------------------------------- C10

type CorruptCase struct {
	Doc   Doc `json:"doc"`
	Field int `json:"field"`
	Bad   int `json:"bad"`
}

type Edit struct {
	Kind string `json:"kind"`
	Pos  int    `json:"pos"`
	Len  int    `json:"len,omitempty"`
	Text string `json:"text,omitempty"`
}

type MutCase struct {
	Doc   *Doc   `json:"doc,omitempty"`
	Raw   []byte `json:"raw,omitempty"`
	Edits []Edit `json:"edits,omitempty"`
	Chunk []int  `json:"chunk,omitempty"`
}

var dict = []string{"{", "}", "[", "]", `"`, ",", ":", "null", "true", "0", "-1", "1.5", "1e999", `"n"`, `"nodes"`, `"edges"`, `"to"`, `"from"`, `"x":`, `"nodes":[`, `"edges":[]`, `{"n":0}`, `\`, `\u12`, "\x00", "\xff", " ", "\n", "[[[[", "}}", `{"nodes":null}`, `"labels":null`, `"properties":null`, `1 2`, `""`}

func genMutCase(t *rapid.T) MutCase {
	var c MutCase
	if rapid.IntRange(0, 9).Draw(t, "raw?") == 0 {
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		if rapid.Bool().Draw(t, "brace") {
			c.Raw = append([]byte("{"), c.Raw...)
		}
	} else if rapid.IntRange(0, 6).Draw(t, "dict?") == 0 {
		n := rapid.IntRange(0, 12).Draw(t, "n")
		c.Raw = []byte("{")
		for i := 0; i < n; i++ {
			c.Raw = append(c.Raw, rapid.SampledFrom(dict).Draw(t, "tok")...)
		}
	} else {
		d := genDoc(t)
		c.Doc = &d
		n := rapid.IntRange(0, 3).Draw(t, "nedits")
		for i := 0; i < n; i++ {
			e := Edit{Kind: rapid.SampledFrom([]string{"del", "ins", "ins", "dup", "cut", "tok", "tok", "swap"}).Draw(t, "edit"), Pos: rapid.IntRange(0, 400).Draw(t, "pos")}
			switch e.Kind {
			case "del", "dup":
				e.Len = rapid.IntRange(1, 12).Draw(t, "len")
			case "ins", "tok":
				e.Text = rapid.SampledFrom(dict).Draw(t, "text")
			}
			c.Edits = append(c.Edits, e)
		}
	}
	c.Chunk = rapid.SliceOfN(rapid.IntRange(1, 20), 0, 2).Draw(t, "chunk")
	return c
}

// tokens finds the spans of JSON tokens in text, roughly.
func tokens(b []byte) [][2]int {
	var r [][2]int
	for i := 0; i < len(b); {
		switch c := b[i]; {
		case strings.IndexByte("{}[],:", c) >= 0:
			r = append(r, [2]int{i, i + 1})
			i++
		case c == '"':
			j := i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			j++
			if j > len(b) {
				j = len(b)
			}
			r = append(r, [2]int{i, j})
			i = j
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(b) && strings.IndexByte("{}[],:\" \n\t\r", b[j]) < 0 {
				j++
			}
			if j == i {
				j++
			}
			r = append(r, [2]int{i, j})
			i = j
		}
	}
	return r
}

func (c MutCase) bytes() []byte {
	if c.Doc == nil {
		return c.Raw
	}
	b := []byte(c.Doc.text())
	for _, e := range c.Edits {
		if len(b) == 0 {
			break
		}
		p := mod(e.Pos, len(b))
		q := p + e.Len
		if q > len(b) {
			q = len(b)
		}
		switch e.Kind {
		case "del":
			b = append(b[:p:p], b[q:]...)
		case "dup":
			b = append(b[:q:q], b[p:]...)
		case "cut":
			b = b[:p]
		case "ins":
			b = append(b[:p:p], append([]byte(e.Text), b[p:]...)...)
		case "tok", "swap":
			ts := tokens(b)
			if len(ts) < 2 {
				continue
			}
			k := mod(e.Pos, len(ts))
			s := ts[k]
			if e.Kind == "tok" {
				b = append(b[:s[0]:s[0]], append([]byte(e.Text), b[s[1]:]...)...)
			} else {
				o := ts[(k+1)%len(ts)]
				if o[0] > s[0] {
					nb := append([]byte(nil), b[:s[0]]...)
					nb = append(nb, b[o[0]:o[1]]...)
					nb = append(nb, b[s[1]:o[0]]...)
					nb = append(nb, b[s[0]:s[1]]...)
					b = append(nb, b[o[1]:]...)
				}
			}
		}
	}
	return b
}

type accNode struct {
	N          int                        `json:"n"`
	Labels     []string                   `json:"labels"`
	Properties map[string]json.RawMessage `json:"properties"`
	Edges      []accOutEdge               `json:"edges"`
}

// an embedded edge has no "from": such a member is unknown, and may be anything
type accOutEdge struct {
	To         int                        `json:"to"`
	Label      string                     `json:"label"`
	Properties map[string]json.RawMessage `json:"properties"`
}

type accEdge struct {
	From       int                        `json:"from"`
	To         int                        `json:"to"`
	Label      string                     `json:"label"`
	Properties map[string]json.RawMessage `json:"properties"`
}

// acceptable is the weakest reading of the format: a complete object whose
// nodes and edges members have the documented types.
func acceptable(data []byte) error {
	keys, vals, _, err := topLevel(data)
	if err != nil {
		return err
	}
	for i, k := range keys {
		switch k {
		case "nodes":
			var n []accNode
			if err := json.Unmarshal(vals[i], &n); err != nil {
				return err
			}
		case "edges":
			var n []accEdge
			if err := json.Unmarshal(vals[i], &n); err != nil {
				return err
			}
		}
	}
	return nil
}

// decodeTarget is a graph to decode into: an empty one, or one with nodes, and
// a function that checks it after a failed Decode: what was there is as it was,
// and all views of the graph agree.
func decodeTarget(k int) (*lpg.Graph, func() error) {
	g := lpg.NewGraph()
	if k%6 == 5 {
		g.AddNodePropertyIndex("k", lpg.BtreeIndex)
		g.AddEdgePropertyIndex("k", lpg.HashIndex)
	}
	var nodes []*lpg.Node
	var edges []*lpg.Edge
	for i := 0; i < []int{0, 1, 0, 2, 1, 4}[k%6]; i++ {
		n := g.NewNode([]string{"A"}, map[string]interface{}{"k": "1"})
		if i > 0 {
			edges = append(edges, g.NewEdge(nodes[i-1], n, "A", map[string]interface{}{"k": "1"}))
		}
		nodes = append(nodes, n)
	}
	return g, func() error {
		e, err := adoptGraph(g)
		if err != nil {
			return err
		}
		for i, h := range nodes {
			n := e.byNode[h]
			if n == nil {
				return fmt.Errorf("a node that was in the graph is gone")
			}
			if v, ok := h.GetProperty("k"); !ok || v != "1" || len(n.props) != 1 || h.GetLabels().Len() != 1 || !h.HasLabel("A") {
				return fmt.Errorf("a node that was in the graph has changed")
			}
			in, out := 1, 1
			if i == 0 {
				in = 0
			}
			if i == len(nodes)-1 {
				out = 0
			}
			if x, y := len(lpg.EdgeSlice(h.GetEdges(lpg.IncomingEdge))), len(lpg.EdgeSlice(h.GetEdges(lpg.OutgoingEdge))); x != in || y != out {
				return fmt.Errorf("a node that was in the graph has %d incoming and %d outgoing edges, and had %d and %d", x, y, in, out)
			}
		}
		for i, h := range edges {
			if h.GetFrom() != nodes[i] || h.GetTo() != nodes[i+1] || h.GetLabel() != "A" {
				return fmt.Errorf("an edge that was in the graph has changed")
			}
			found := false
			for _, x := range e.edges {
				found = found || x.h == h
			}
			if v, ok := h.GetProperty("k"); !found || !ok || v != "1" {
				return fmt.Errorf("an edge that was in the graph is gone or has changed")
			}
		}
		if err := e.checkContents(); err != nil {
			return err
		}
		if len(e.nodes) > 40 {
			return nil
		}
		return e.checkAll()
	}
}

func runMutCase(c MutCase, ctx *Ctx) error {
	data := c.bytes()
	trimmed := bytes.TrimSpace(data)
	if len(trimmed) > 0 && trimmed[0] == '{' && (c.Doc == nil || len(c.Edits) > 0) {
		ctx.NonTrivial()
	}
	g, intact := decodeTarget(len(data))
	had := g.NumNodes() > 0
	err := (lpg.JSON{}).Decode(g, json.NewDecoder(&chunkReader{data: data, sizes: c.Chunk}))
	if err != nil {
		ctx.Class("rejected")
		ctx.ClassIf(had, "rejected into a populated graph")
		if err := intact(); err != nil {
			return fmt.Errorf("after rejecting %q: %w", short(data), err)
		}
		return nil
	}
	ctx.Class("accepted")
	if aerr := acceptable(data); aerr != nil {
		return fmt.Errorf("accepted %q: %w", short(data), aerr)
	}
	// whatever was accepted is a consistent graph
	e, err := adoptGraph(g)
	if err != nil {
		return err
	}
	return e.checkContents()
}

var errReader = errors.New("reader failed")

func runTruncations(c DecCase, ctx *Ctx) error {
	text := []byte(c.Docs[0].text())
	if len(text) >= 20 {
		ctx.NonTrivial()
	}
	step := 1
	if len(text) > 300 {
		step = len(text)/150 + 1
	}
	off := 0
	if len(c.Chunk) > 0 {
		off = c.Chunk[0] % step
	}
	for n := off; n < len(text); n += step {
		for _, rerr := range []error{nil, errReader} {
			g, intact := decodeTarget(n + off)
			err := (lpg.JSON{}).Decode(g, json.NewDecoder(&chunkReader{data: text[:n], sizes: c.Chunk, err: rerr}))
			if err != nil && rerr != nil && n%4 == 0 {
				if err := intact(); err != nil {
					return fmt.Errorf("after rejecting a document cut at byte %d of %d (reader error: %v): %w", n, len(text), rerr, err)
				}
			}
			if err == nil {
				return fmt.Errorf("a document cut at byte %d of %d (reader error: %v) is accepted: %s", n, len(text), rerr, short(text[:n]))
			}
		}
	}
	return nil
}

// strictDoc reads the object at the start of data if it is, to the letter, a
// document of the documented format: known member names, each there once,
// everything of the documented type, node indexes present and unique, no
// empty property key. dangling: an edge refers to a node that is not there.
func strictDoc(data []byte) (g *AGraph, dangling, ok bool) {
	if !utf8.Valid(data) {
		return nil, false, false
	}
	keys, vals, rest, err := topLevel(data)
	if err != nil || !onceEach(data[:len(data)-len(rest)]) {
		return nil, false, false
	}
	var nodes []map[string]json.RawMessage
	var edges []map[string]json.RawMessage
	g = &AGraph{}
	isArr := func(v json.RawMessage) bool { v = bytes.TrimSpace(v); return len(v) > 0 && v[0] == '[' }
	isObj := func(v json.RawMessage) bool { v = bytes.TrimSpace(v); return len(v) > 0 && v[0] == '{' }
	for i, k := range keys {
		if strings.EqualFold(k, "nodes") || strings.EqualFold(k, "edges") {
			dst := &nodes
			if k == "edges" {
				dst = &edges
			}
			if k != "nodes" && k != "edges" || !isArr(vals[i]) || json.Unmarshal(vals[i], dst) != nil {
				return nil, false, false
			}
		}
	}
	type end struct {
		from, to int
		sig      string
	}
	var ends []end
	ok = true
	readEdge := func(m map[string]json.RawMessage, from *int) {
		var to, f *int
		var label string
		props := map[string]string{}
		for k, v := range m {
			switch {
			case k == "to" && json.Unmarshal(v, &to) == nil && to != nil:
			case k == "from" && from == nil && json.Unmarshal(v, &f) == nil && f != nil:
			case k == "label" && bytes.TrimSpace(v)[0] == '"' && json.Unmarshal(v, &label) == nil:
			case k == "properties" && isObj(v):
				var p map[string]json.RawMessage
				if json.Unmarshal(v, &p) != nil {
					ok = false
					return
				}
				s, err := propSigs(p)
				if _, empty := p[""]; err != nil || empty {
					ok = false
				}
				props = s
			default:
				ok = false
			}
		}
		if from != nil {
			f = from
		}
		if to == nil || f == nil {
			ok = false
			return
		}
		ends = append(ends, end{*f, *to, sigOf([]string{label}, props)})
	}
	ix := map[int]int{}
	for _, m := range nodes {
		if m == nil {
			return nil, false, false
		}
		var n *int
		var labels []string
		var emb []map[string]json.RawMessage
		props := map[string]string{}
		for k, v := range m {
			switch {
			case k == "n" && json.Unmarshal(v, &n) == nil && n != nil:
			case k == "labels" && isArr(v) && !bytes.Contains(v, []byte("null")) && json.Unmarshal(v, &labels) == nil:
			case k == "edges" && isArr(v) && json.Unmarshal(v, &emb) == nil:
			case k == "properties" && isObj(v):
				var p map[string]json.RawMessage
				if json.Unmarshal(v, &p) != nil {
					return nil, false, false
				}
				s, err := propSigs(p)
				if _, empty := p[""]; err != nil || empty {
					return nil, false, false
				}
				props = s
			default:
				return nil, false, false
			}
		}
		if n == nil {
			return nil, false, false
		}
		if _, dup := ix[*n]; dup {
			return nil, false, false
		}
		ix[*n] = len(g.nodes)
		g.nodes = append(g.nodes, sigOf(labels, props))
		for _, x := range emb {
			readEdge(x, n)
		}
	}
	for _, x := range edges {
		readEdge(x, nil)
	}
	if !ok {
		return nil, false, false
	}
	for _, x := range ends {
		f, ok1 := ix[x.from]
		t, ok2 := ix[x.to]
		if !ok1 || !ok2 {
			dangling = true
			continue
		}
		g.edges = append(g.edges, AEdge{f, t, x.sig})
	}
	return g, dangling, true
}

// onceEach reports whether no object in the value has a key twice.
func onceEach(data []byte) bool {
	dec := json.NewDecoder(bytes.NewReader(data))
	var value func() bool
	value = func() bool {
		tok, err := dec.Token()
		if err != nil {
			return false
		}
		switch tok {
		case json.Delim('{'):
			seen := map[string]bool{}
			for dec.More() {
				k, err := dec.Token()
				s, isStr := k.(string)
				if err != nil || !isStr || seen[s] {
					return false
				}
				seen[s] = true
				if !value() {
					return false
				}
			}
			_, err := dec.Token()
			return err == nil
		case json.Delim('['):
			for dec.More() {
				if !value() {
					return false
				}
			}
			_, err := dec.Token()
			return err == nil
		}
		return true
	}
	return value()
}

func runBytesCase(c MutCase, ctx *Ctx) error {
	data := c.bytes()
	want, dangling, ok := strictDoc(data)
	if !ok || len(want.nodes) > 40 || len(want.edges) > 60 {
		ctx.Class("not to the letter of the format")
		return nil
	}
	if len(want.nodes) > 0 {
		ctx.NonTrivial()
	}
	g := lpg.NewGraph()
	dec := json.NewDecoder(&chunkReader{data: data, sizes: c.Chunk})
	err := (lpg.JSON{}).Decode(g, dec)
	if dangling {
		ctx.Class("dangling reference")
		var ig lpg.ErrInvalidGraph
		if !errors.As(err, &ig) {
			return fmt.Errorf("an edge to an unknown node gives %T (%v), expected ErrInvalidGraph: %q", err, err, short(data))
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("Decode of %q: %w", short(data), err)
	}
	got, err := lpgGraph(g, jsonCanon)
	if err != nil {
		return err
	}
	if _, err := iso(want, got); err != nil {
		return fmt.Errorf("Decode of %q: %w", short(data), err)
	}
	return nil
}
