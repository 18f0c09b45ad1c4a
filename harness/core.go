package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Ctx collects what one execution of a case covered.
type Ctx struct {
	frozen     bool // nothing is recorded, and nothing synchronised
	nontrivial bool
	classes    map[string]int
}

func newCtx() *Ctx { return &Ctx{classes: map[string]int{}} }

// NonTrivial marks the case as non-trivial (by the driver's rule).
func (c *Ctx) NonTrivial() {
	if !c.frozen {
		c.nontrivial = true
	}
}

// Class counts the case (once) under a named class.
func (c *Ctx) Class(name string) {
	if !c.frozen {
		c.classes[name] = 1
	}
}

// ClassIf counts the case under name if cond.
func (c *Ctx) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// Driver decides one aspect of a property.
type Driver struct {
	Prop, Name string
	Rule       string
	Quick      int // cases per shard
	draw       func(*rapid.T) any
	decode     func([]byte) (any, error)
	run        func(any, *Ctx) error
	fromBytes  func([]byte) any // a case straight from the bytes of a fuzzer
	rawSeeds   func() [][]byte
}

var drivers []*Driver

func register[C any](prop, name, rule string, quick int, gen func(*rapid.T) C, run func(C, *Ctx) error) {
	drivers = append(drivers, &Driver{
		Prop: prop, Name: name, Rule: rule, Quick: quick,
		draw: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			d := json.NewDecoder(strings.NewReader(string(b)))
			err := d.Decode(&c)
			return c, err
		},
		run: func(c any, ctx *Ctx) error { return run(c.(C), ctx) },
	})
}

func driversOf(prop string) []*Driver {
	var ret []*Driver
	for _, d := range drivers {
		if d.Prop == prop {
			ret = append(ret, d)
		}
	}
	return ret
}

func allProps() []string {
	seen := map[string]bool{}
	var ret []string
	for _, d := range drivers {
		if !seen[d.Prop] {
			seen[d.Prop] = true
			ret = append(ret, d.Prop)
		}
	}
	sort.Strings(ret)
	return ret
}

// harnessBug is raised for conditions that are mistakes of the harness, not
// of the code under test.
type harnessBug struct{ msg string }

func bug(format string, args ...any) {
	panic(harnessBug{fmt.Sprintf(format, args...)})
}

// execute runs the case, turning panics into errors.
func (d *Driver) execute(c any, ctx *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				fmt.Fprintf(os.Stderr, "HARNESS BUG: %s\n%s\n", h.msg, debug.Stack())
				os.Exit(2)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	return d.run(c, ctx)
}

func trimStack(s string) string {
	var keep []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "runtime/debug") || strings.Contains(l, "debug.Stack") {
			continue
		}
		keep = append(keep, l)
		if len(keep) > 24 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// mustPanic runs f and reports whether it panicked.
func didPanic(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessBug); ok {
				panic(h)
			}
			p = true
		}
	}()
	f()
	return false
}
