package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	"pgregory.net/rapid"
)

// Val is a property value as data.
//
//	i int, s string, f float64, b bool, z nil,
//	I []int, S []string, L []interface{}, W wrapper of L[0] (WithNativeValue),
//	M map[string]interface{} (keys in Keys, values in L)
type Val struct {
	K    string   `json:"k"`
	I    int      `json:"i,omitempty"`
	S    string   `json:"s,omitempty"`
	F    string   `json:"f,omitempty"` // float as hex text, exact
	L    []Val    `json:"l,omitempty"`
	Keys []string `json:"keys,omitempty"`
}

func vInt(i int) Val       { return Val{K: "i", I: i} }
func vStr(s string) Val    { return Val{K: "s", S: s} }
func vFloat(f float64) Val { return Val{K: "f", F: strconv.FormatFloat(f, 'x', -1, 64)} }
func vBool(b bool) Val {
	if b {
		return Val{K: "b", I: 1}
	}
	return Val{K: "b"}
}
func vNil() Val          { return Val{K: "z"} }
func vInts(l ...Val) Val { return Val{K: "I", L: l} }
func vStrs(l ...Val) Val { return Val{K: "S", L: l} }
func vList(l ...Val) Val { return Val{K: "L", L: l} }
func vWrap(v Val) Val    { return Val{K: "W", L: []Val{v}} }
func (v Val) float() float64 {
	f, err := strconv.ParseFloat(v.F, 64)
	if err != nil {
		bug("bad float %q", v.F)
	}
	return f
}

// Wrapped is a property value exposing a native value.
type Wrapped struct{ v any }

func (w *Wrapped) GetNativeValue() interface{} { return w.v }

// Go builds the value handed to lpg. Every call builds fresh slices and maps.
func (v Val) Go() any {
	switch v.K {
	case "i":
		return v.I
	case "s":
		return v.S
	case "f":
		return v.float()
	case "b":
		return v.I != 0
	case "z":
		return nil
	case "I":
		r := make([]int, 0, len(v.L))
		for _, e := range v.L {
			r = append(r, e.I)
		}
		return r
	case "S":
		r := make([]string, 0, len(v.L))
		for _, e := range v.L {
			r = append(r, e.S)
		}
		return r
	case "L":
		r := make([]interface{}, 0, len(v.L))
		for _, e := range v.L {
			r = append(r, e.Go())
		}
		return r
	case "W":
		return &Wrapped{v.L[0].Go()}
	case "M":
		r := map[string]interface{}{}
		for i, k := range v.Keys {
			r[k] = v.L[i].Go()
		}
		return r
	}
	bug("bad value kind %q", v.K)
	return nil
}

// valKey is a canonical text of a Go property value: type and content. Two
// values have the same key iff they are the same value.
func valKey(x any) string {
	switch v := x.(type) {
	case nil:
		return "z"
	case int:
		return "i" + strconv.Itoa(v)
	case string:
		return "s" + strconv.Quote(v)
	case float64:
		return "f" + strconv.FormatFloat(v, 'x', -1, 64)
	case bool:
		return fmt.Sprint("b", v)
	case []int:
		return fmt.Sprint("I", v)
	case []string:
		var sb strings.Builder
		sb.WriteString("S[")
		for _, s := range v {
			sb.WriteString(strconv.Quote(s) + ",")
		}
		return sb.String() + "]"
	case []interface{}:
		var sb strings.Builder
		sb.WriteString("L[")
		for _, s := range v {
			sb.WriteString(valKey(s) + ",")
		}
		return sb.String() + "]"
	case map[string]interface{}:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		var sb strings.Builder
		sb.WriteString("M{")
		for _, k := range keys {
			sb.WriteString(strconv.Quote(k) + ":" + valKey(v[k]) + ",")
		}
		return sb.String() + "}"
	case *Wrapped:
		return "W(" + valKey(v.v) + ")"
	case json.RawMessage:
		return "R" + string(v)
	case json.Number:
		return "N" + string(v)
	}
	return fmt.Sprintf("?%T:%v", x, x)
}

func (v Val) key() string { return valKey(v.Go()) }

// native strips wrappers.
func (v Val) native() Val {
	for v.K == "W" {
		v = v.L[0]
	}
	return v
}

// refCompare is the reference comparison: ok=false means incomparable.
func refCompare(a, b Val) (c int, ok bool) {
	a, b = a.native(), b.native()
	switch {
	case a.K == "i" && b.K == "i":
		switch {
		case a.I < b.I:
			return -1, true
		case a.I > b.I:
			return 1, true
		}
		return 0, true
	case a.K == "s" && b.K == "s":
		return cmpBytes(a.S, b.S), true
	case isList(a) && isList(b):
		if a.K == "I" && b.K == "S" || a.K == "S" && b.K == "I" {
			return 0, false
		}
		for i := 0; i < len(a.L) && i < len(b.L); i++ {
			c, ok := refCompare(a.L[i], b.L[i])
			if !ok {
				return 0, false
			}
			if c != 0 {
				return c, true
			}
		}
		switch {
		case len(a.L) < len(b.L):
			return -1, true
		case len(a.L) > len(b.L):
			return 1, true
		}
		return 0, true
	}
	return 0, false
}

func cmpBytes(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(a) < len(b):
		return -1
	case len(a) > len(b):
		return 1
	}
	return 0
}

func isList(v Val) bool { return v.K == "I" || v.K == "S" || v.K == "L" }

func refEqual(a, b Val) bool {
	c, ok := refCompare(a, b)
	return ok && c == 0
}

// ---------------------------------------------------------------- generators

var poolStrings = []string{"", "a", "b", "ab", "A", "é", "日本", "x y", `q"uo"te`, `back\slash`, "<>&", "line\nbreak", "\t\x01", "\u2028", "😀", "a,b", "null", "0", "-1", "aa", "aaa", "b\x00"}

func genString(t *rapid.T, name string) string {
	switch k := rapid.IntRange(0, 39).Draw(t, name+"?"); {
	case k >= 39: // long
		unit := rapid.SampledFrom(poolStrings).Draw(t, name) + "x"
		return strings.Repeat(unit, rapid.IntRange(1, 300).Draw(t, name+"len"))
	case k >= 36:
		return rapid.String().Draw(t, name)
	}
	return rapid.SampledFrom(poolStrings).Draw(t, name)
}

// genLen is the length of a list: short, rarely long.
func genLen(t *rapid.T) int {
	if rapid.IntRange(0, 24).Draw(t, "long?") == 24 {
		return rapid.IntRange(0, 40).Draw(t, "len")
	}
	return rapid.IntRange(0, 3).Draw(t, "len")
}

var poolInts = []int{0, 1, 2, 3, -1, -2, 7, 10, 100, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, 1 << 53, -(1 << 53)}

func genInt(t *rapid.T, name string) int {
	if rapid.IntRange(0, 9).Draw(t, name+"?") == 0 {
		return rapid.Int().Draw(t, name)
	}
	return rapid.SampledFrom(poolInts).Draw(t, name)
}

func maybeWrap(t *rapid.T, v Val) Val {
	switch rapid.IntRange(0, 31).Draw(t, "wrap") {
	case 0, 1, 2, 3:
		return vWrap(v)
	case 31:
		return vWrap(vWrap(v))
	}
	return v
}

func smallInts(t *rapid.T) []Val {
	n := genLen(t)
	r := make([]Val, n)
	for i := range r {
		r[i] = vInt(rapid.IntRange(-1, 2).Draw(t, "el"))
	}
	return r
}

func smallStrs(t *rapid.T) []Val {
	n := genLen(t)
	r := make([]Val, n)
	for i := range r {
		r[i] = vStr(rapid.SampledFrom([]string{"", "a", "b", "ab", "é"}).Draw(t, "el"))
	}
	return r
}

// long names, as of properties in use
const (
	longKeyInt = "https://example.org/ns/number of items#i0"
	longKeyStr = "itemDescription"
)

// Property keys by class. Values under a key are mutually comparable where the
// key may carry a B-tree index; any key may carry a hash index.
var (
	keysInt    = []string{"i0", "i1", "I0", "i0 ", longKeyInt}
	keysStr    = []string{"s0", "état", "s\"é", "s0\x00", longKeyStr}
	keysIntLst = []string{"l0"}
	keysStrLst = []string{"ls"}
	keysHash   = []string{"h0"}
	keysAny    = []string{"m0", "m1", ""}
	allKeys    = []string{"I0", "i0 ", "s0\x00", "i0", "i1", "s0", "s\"é", "l0", "ls", "h0", "m0", "m1", "", "état", longKeyInt, longKeyStr}
	// keys preferred by most generators
	hotKeys = []string{"i0", "i0", "i0", "i0", "i0", "i0", "s0", "s0", "s0", "s0", "i1", "i1", "s\"é", "l0", "l0", "ls", "ls", "h0", "h0", "m0", "m0", "m1", "", "I0", "i0 ", "s0\x00", "état", longKeyInt, longKeyStr}
)

func keyClass(key string) string {
	for _, c := range []struct {
		cl   string
		keys []string
	}{{"int", keysInt}, {"str", keysStr}, {"il", keysIntLst}, {"sl", keysStrLst}, {"hash", keysHash}} {
		for _, k := range c.keys {
			if k == key {
				return c.cl
			}
		}
	}
	return "any"
}

// indexKinds lists the index types allowed for the key: b, h.
func indexKinds(key string) []string {
	switch keyClass(key) {
	case "int", "str", "il", "sl":
		return []string{"b", "h"}
	}
	return []string{"h"}
}

var indexableKeys = []string{"i0", "i0", "i0", "i0", "i0", "i0", "s0", "s0", "s0", "s0", "i1", "i1", "s\"é", "l0", "l0", "ls", "ls", "h0", "h0", "m0", "I0", "i0 ", "s0\x00", "", "état", longKeyInt, longKeyStr}

// genPropVal draws a value allowed under the key.
func genPropVal(t *rapid.T, key string) Val {
	switch keyClass(key) {
	case "int":
		if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
			return maybeWrap(t, vInt(rapid.IntRange(0, 3).Draw(t, "int")))
		}
		return maybeWrap(t, vInt(genInt(t, "int")))
	case "str":
		if rapid.IntRange(0, 2).Draw(t, "small") > 0 {
			return maybeWrap(t, vStr(rapid.SampledFrom([]string{"a", "b", "", "é"}).Draw(t, "str")))
		}
		return maybeWrap(t, vStr(genString(t, "str")))
	case "il":
		k := rapid.SampledFrom([]string{"I", "L"}).Draw(t, "lk")
		return maybeWrap(t, Val{K: k, L: smallInts(t)})
	case "sl":
		k := rapid.SampledFrom([]string{"S", "L"}).Draw(t, "lk")
		return maybeWrap(t, Val{K: k, L: smallStrs(t)})
	case "hash":
		return maybeWrap(t, genHashable(t))
	}
	return genAnyVal(t, 2)
}

func genHashable(t *rapid.T) Val {
	switch rapid.IntRange(0, 6).Draw(t, "hk") {
	case 0:
		return vInt(rapid.IntRange(0, 2).Draw(t, "int"))
	case 1:
		return vStr(rapid.SampledFrom([]string{"", "a", "0"}).Draw(t, "str"))
	case 2:
		return vBool(rapid.Bool().Draw(t, "b"))
	case 3:
		return vFloat(rapid.SampledFrom([]float64{0, 1, 1.5, math.NaN()}).Draw(t, "f"))
	case 4:
		return vInt(genInt(t, "int"))
	}
	return genAnyVal(t, 2)
}

// genAnyVal draws any property value.
func genAnyVal(t *rapid.T, depth int) Val {
	k := rapid.IntRange(0, 10).Draw(t, "kind")
	if depth <= 0 && k >= 7 {
		k = k - 7
	}
	switch k {
	case 0, 1:
		return vInt(genInt(t, "int"))
	case 2:
		return vStr(genString(t, "str"))
	case 3:
		return vFloat(rapid.SampledFrom([]float64{0, 1, -1.5, 1e300, 5e-324, 0.1}).Draw(t, "f"))
	case 4:
		return vBool(rapid.Bool().Draw(t, "b"))
	case 5:
		return vInts(smallInts(t)...)
	case 6:
		return vStrs(smallStrs(t)...)
	case 7:
		n := genLen(t)
		r := Val{K: "L"}
		for i := 0; i < n; i++ {
			r.L = append(r.L, genAnyVal(t, depth-1))
		}
		return r
	case 8:
		return vWrap(genAnyVal(t, 0))
	case 9:
		n := rapid.IntRange(0, 3).Draw(t, "len")
		r := Val{K: "M"}
		for i := 0; i < n; i++ {
			r.Keys = append(r.Keys, "k"+strconv.Itoa(i))
			r.L = append(r.L, genAnyVal(t, depth-1))
		}
		return r
	}
	return vNil()
}

// genJSONVal draws a value that is a JSON value (or an int, read back as a number).
func genJSONVal(t *rapid.T, depth int) Val {
	k := rapid.IntRange(0, 8).Draw(t, "kind")
	if depth <= 0 && k >= 6 {
		k -= 6
	}
	switch k {
	case 0, 1:
		return vStr(genString(t, "str"))
	case 2, 3:
		return vFloat(rapid.SampledFrom([]float64{0, 1, -1.5, 1e300, 5e-324, 0.1, 1 << 53, -1e-7, 1e21, 123456789.25, math.MaxFloat64}).Draw(t, "f"))
	case 4:
		return vBool(rapid.Bool().Draw(t, "b"))
	case 5:
		return vNil()
	case 6, 7:
		n := genLen(t)
		r := Val{K: "L"}
		for i := 0; i < n; i++ {
			r.L = append(r.L, genJSONVal(t, depth-1))
		}
		return r
	}
	n := rapid.IntRange(0, 3).Draw(t, "len")
	r := Val{K: "M"}
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := genString(t, "mk")
		if seen[k] {
			continue
		}
		seen[k] = true
		r.Keys = append(r.Keys, k)
		r.L = append(r.L, genJSONVal(t, depth-1))
	}
	return r
}

var poolLabels = []string{"A", "A", "A", "B", "B", "C", "D", "", `q"\é`, "a b"}

// labels that are easily taken for others
var nearLabels = []string{"a", "A ", " A", "AB", "b", "A,B", "A:B", "\x00", "É", "e\u0301", "é", "https://example.org/ns#LongLabel", "https://example.org/ns#LongLabels", strings.Repeat("ab", 150)}

func genLabel(t *rapid.T, name string) string {
	switch k := rapid.IntRange(0, 29).Draw(t, name+"?"); {
	case k == 29:
		return rapid.String().Draw(t, name)
	case k >= 27:
		return rapid.SampledFrom(nearLabels).Draw(t, name)
	}
	return rapid.SampledFrom(poolLabels).Draw(t, name)
}

var manyLabels = []string{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "", "L", "M", "N", "O", "P", "Q"}

func genLabels(t *rapid.T, max int) []string {
	n := rapid.IntRange(0, max).Draw(t, "nlabels")
	if max >= 3 && rapid.IntRange(0, 39).Draw(t, "manylabels") == 39 {
		return append([]string(nil), manyLabels[:rapid.IntRange(4, len(manyLabels)).Draw(t, "nlabels")]...)
	}
	r := make([]string, 0, n)
	for i := 0; i < n; i++ {
		r = append(r, genLabel(t, "label"))
	}
	return r
}

// KV is one property.
type KV struct {
	Key string `json:"key"`
	Val Val    `json:"val"`
}

func genProps(t *rapid.T, max int) []KV {
	n := rapid.IntRange(0, max).Draw(t, "nprops")
	var r []KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom(hotKeys).Draw(t, "key")
		if seen[k] {
			continue
		}
		seen[k] = true
		r = append(r, KV{k, genPropVal(t, k)})
	}
	if max >= 3 && rapid.IntRange(0, 39).Draw(t, "manyprops") == 39 {
		for i := rapid.IntRange(6, 24).Draw(t, "nmany"); i > 0; i-- {
			r = append(r, KV{fmt.Sprintf("k%02d", i), vInt(i % 5)})
		}
	}
	return r
}

func goProps(kv []KV) map[string]any {
	if kv == nil {
		return nil
	}
	r := make(map[string]any, len(kv))
	for _, p := range kv {
		r[p.Key] = p.Val.Go()
	}
	return r
}

var _ lpg.WithNativeValue = (*Wrapped)(nil)
