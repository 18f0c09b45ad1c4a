package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// FuzzDriver searches the cases of one driver guided by the coverage of lpg.
// The fuzzer's bytes are the random bits of the driver's generator, or, for
// "raw" targets, the input itself. It is built and run by the thorough checks
// (supervise.go), which confirm what it finds by a replay.
func FuzzDriver(f *testing.F) {
	spec := strings.Split(os.Getenv("VERIF_FUZZ"), "/")
	dir := os.Getenv("VERIF_FUZZ_DIR")
	if len(spec) < 2 || dir == "" {
		f.Skip("run by the thorough checks")
	}
	debug.SetMaxStack(512 << 20)
	d := findDriver(spec[0], spec[1])
	if d == nil {
		f.Fatalf("no driver %s", spec)
	}
	raw := len(spec) > 2 && spec[2] == "raw"
	r := rand.New(rand.NewSource(int64(hash64(spec...) >> 1)))
	if raw {
		for _, s := range d.rawSeeds() {
			f.Add(s)
		}
	} else {
		for i := 0; i < 24; i++ {
			b := make([]byte, 8<<(i%8))
			r.Read(b)
			f.Add(b)
		}
	}
	pid := os.Getpid()
	jf, err := os.Create(filepath.Join(dir, fmt.Sprintf("cur-%d", pid)))
	if err != nil {
		f.Fatal(err)
	}
	j := &journal{f: jf}
	j.watch()
	pad := make([]byte, 1<<16)
	var stats fuzzStats
	last := time.Now()
	seen := map[uint64]struct{}{}
	run := func(c any, fatal func(string)) {
		data, err := json.Marshal(c)
		if err != nil {
			bug("case of %s/%s is not serialisable: %v", d.Prop, d.Name, err)
		}
		c, err = d.decode(data)
		if err != nil {
			bug("case of %s/%s does not decode: %v", d.Prop, d.Name, err)
		}
		ctx := newCtx()
		j.begin(d.Name, data)
		err = d.execute(c, ctx)
		j.end()
		stats.Executions++
		if ctx.nontrivial {
			h := hash64(string(data))
			if _, ok := seen[h]; !ok && len(seen) < maxHashes {
				seen[h] = struct{}{}
				stats.NonTrivial = len(seen)
			}
		}
		if time.Since(last) > time.Second {
			last = time.Now()
			b, _ := json.Marshal(stats)
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats-%d.json", pid)), b, 0o644)
		}
		if err != nil {
			b, _ := json.Marshal(Failure{Property: d.Prop, Driver: d.Name, Error: err.Error(), Seed: "coverage-guided", Case: data})
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("fail-%08d-%016x.json", len(data), hash64(string(data)))), b, 0o644)
			fatal("property violated: " + err.Error())
		}
	}
	if raw {
		f.Fuzz(func(t *testing.T, b []byte) {
			run(d.fromBytes(b), func(s string) { t.Fatal(s) })
		})
		return
	}
	// A generator that runs out of bits gives up: go on with fixed ones.
	fuzz := rapid.MakeFuzz(func(t *rapid.T) {
		run(d.draw(t), func(s string) { t.Fatalf("%s", s) })
	})
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > len(pad)/2 {
			b = b[:len(pad)/2]
		}
		var head [8]byte
		copy(head[:], b)
		n := copy(pad, b)
		x := binary.LittleEndian.Uint64(head[:]) | 1
		for i := (n + 7) &^ 7; i+8 <= len(pad); i += 8 {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			binary.LittleEndian.PutUint64(pad[i:], x)
		}
		for i := n; i < (n+7)&^7; i++ {
			pad[i] = 0
		}
		fuzz(t, pad)
	})
}
