package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	verifDir   = "/verif"
	maxSamples = 6
	maxHashes  = 400000 // distinct cases counted per worker
	// a thorough run has this many times the cases of a quick one
	thoroughFactor = 20
	// and then searches guided by coverage for this long
	fuzzTime = 160 * time.Second
	caseCPU  = 60 * time.Second
	caseHeap = 3 << 30
)

// Failure is a violating case, the content of a replay file.
type Failure struct {
	Property string          `json:"property"`
	Driver   string          `json:"driver"`
	Error    string          `json:"error"`
	Seed     string          `json:"seed,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// DriverStats is what a worker reports for one driver.
type DriverStats struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Hashes      []uint64          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
}

type WorkerReport struct {
	Drivers  map[string]*DriverStats `json:"drivers"`
	Failures []Failure               `json:"failures"`
}

// ---------------------------------------------------------------- rapid TB

type stopTB struct{}

type miniTB struct {
	name   string
	failed bool
	log    []string
}

func (t *miniTB) Helper()      {}
func (t *miniTB) Name() string { return t.name }
func (t *miniTB) Logf(f string, a ...any) {
	if len(t.log) < 40 {
		t.log = append(t.log, fmt.Sprintf(f, a...))
	}
}
func (t *miniTB) Log(a ...any)              { t.Logf("%s", fmt.Sprint(a...)) }
func (t *miniTB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (t *miniTB) Skip(a ...any)             { panic(stopTB{}) }
func (t *miniTB) SkipNow()                  { panic(stopTB{}) }
func (t *miniTB) Errorf(f string, a ...any) { t.Logf(f, a...); t.failed = true }
func (t *miniTB) Error(a ...any)            { t.Log(a...); t.failed = true }
func (t *miniTB) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(stopTB{}) }
func (t *miniTB) Fatal(a ...any)            { t.Error(a...); panic(stopTB{}) }
func (t *miniTB) FailNow()                  { t.failed = true; panic(stopTB{}) }
func (t *miniTB) Fail()                     { t.failed = true }
func (t *miniTB) Failed() bool              { return t.failed }

// ---------------------------------------------------------------- worker

type journal struct {
	f     *os.File
	size  int64
	start atomic.Int64 // cpu ns at case start, 0 = idle
}

func (j *journal) begin(driver string, c []byte) {
	if j.f != nil {
		hdr := []byte(driver + "\n")
		buf := append(hdr, c...)
		j.f.WriteAt(buf, 0)
		if int64(len(buf)) < j.size {
			j.f.Truncate(int64(len(buf)))
		}
		j.size = int64(len(buf))
	}
	j.start.Store(int64(cpuTime()))
}

func (j *journal) end() { j.start.Store(0) }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 1
	}
	return time.Duration(ru.Utime.Nano()+ru.Stime.Nano()) + 1
}

const (
	caseIdleTicks = 300 // a minute
	caseIdleCPU   = 3 * time.Second
)

// watch ends the process with status 3 if one case consumes absurd resources.
func (j *journal) watch() {
	go func() {
		ticks, of := 0, int64(0)
		for {
			time.Sleep(200 * time.Millisecond)
			st := j.start.Load()
			if st != of {
				ticks, of = 0, st
			}
			if st == 0 {
				continue
			}
			// Blocked for good, as by a lock that is held
			if ticks++; ticks >= caseIdleTicks && cpuTime()-time.Duration(st) < caseIdleCPU && j.start.Load() == st {
				fmt.Fprintln(os.Stderr, "WATCHDOG: a single case makes no progress")
				os.Exit(3)
			}
			if cpuTime()-time.Duration(st) > caseCPU {
				if j.start.Load() == st {
					fmt.Fprintln(os.Stderr, "WATCHDOG: cpu limit for a single case")
					os.Exit(3)
				}
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > caseHeap && j.start.Load() == st {
				fmt.Fprintln(os.Stderr, "WATCHDOG: heap limit for a single case")
				os.Exit(3)
			}
		}
	}()
}

func initRapid() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
}

// quickFactor brings the quick checks to about the same duration.
var quickFactor = map[string]float64{
	"C01": 5, "C02": 1.5, "C03": 5, "C04": 5, "C05": 5, "C06": 8, "C07": 4, "C08": 2.5, "C09": 1.8, "C10": 2.5,
	"C11": 1.5, "C12": 8, "C13": 1.7, "C14": 1.7, "C15": 2, "C16": 4, "C17": 1.7, "C18": 1.7, "C19": 2, "C20": 6,
	"C21": 6, "C22": 8, "C23": 5, "C24": 7, "C25": 8, "C26": 3, "C27": 2,
}

func runWorker(prop string, seed int64, tier string, shard int, outDir string, only string) {
	debug.SetMaxStack(512 << 20)
	initRapid()
	runtime.GOMAXPROCS(2)
	jf, err := os.Create(filepath.Join(outDir, fmt.Sprintf("journal-%d", shard)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	j := &journal{f: jf}
	j.watch()
	rep := WorkerReport{Drivers: map[string]*DriverStats{}}
	for _, d := range driversOf(prop) {
		if only != "" && d.Name != only {
			continue
		}
		n := d.Quick
		if f := quickFactor[d.Prop]; f > 0 && d.Quick >= 200 {
			n = int(float64(n) * f)
		}
		if tier == "thorough" {
			n *= thoroughFactor
		}
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			if f, err := strconv.ParseFloat(s, 64); err == nil {
				n = int(float64(n)*f) + 1
			}
		}
		st, fail := runDriver(d, n, seed, shard, j)
		rep.Drivers[d.Name] = st
		if fail != nil {
			rep.Failures = append(rep.Failures, *fail)
		}
	}
	b, err := json.Marshal(rep)
	if err == nil {
		err = os.WriteFile(filepath.Join(outDir, fmt.Sprintf("report-%d.json", shard)), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

const shrinkLimit = 30 * time.Second

func runDriver(d *Driver, n int, seed int64, shard int, j *journal) (*DriverStats, *Failure) {
	st := &DriverStats{Classes: map[string]int{}}
	seen := map[uint64]struct{}{}
	sd := hash64("lpg", d.Prop, d.Name, strconv.FormatInt(seed, 10), strconv.Itoa(shard))
	if sd == 0 {
		sd = 1
	}
	flag.Set("rapid.seed", strconv.FormatUint(sd, 10))
	flag.Set("rapid.checks", strconv.Itoa(n))
	var best *Failure
	failing := false
	var since time.Time // of the first failure
	tb := &miniTB{name: d.Prop + "/" + d.Name}
	prop := func(t *rapid.T) {
		if failing && time.Since(since) > shrinkLimit {
			// rapid looks at its own limit only now and then
			return
		}
		c := d.draw(t)
		data, err := json.Marshal(c)
		if err != nil {
			bug("case of %s/%s is not serialisable: %v", d.Prop, d.Name, err)
		}
		// Run what a replay would run.
		c, err = d.decode(data)
		if err != nil {
			bug("case of %s/%s does not decode: %v", d.Prop, d.Name, err)
		}
		ctx := newCtx()
		j.begin(d.Name, data)
		err = d.execute(c, ctx)
		j.end()
		if !failing {
			st.Evaluations++
			for k := range ctx.classes {
				st.Classes[k]++
			}
			if ctx.nontrivial {
				st.NonTrivial++
				h := hash64(string(data))
				if _, ok := seen[h]; !ok && len(seen) < maxHashes {
					seen[h] = struct{}{}
					if len(st.Samples) < 2 && len(data) < 1500 || len(st.Samples) == 0 && len(data) < 6000 {
						st.Samples = append(st.Samples, data)
					}
				}
			}
		}
		if err != nil {
			if !failing {
				failing, since = true, time.Now()
			}
			if best == nil || len(data) <= len(best.Case) {
				best = &Failure{Property: d.Prop, Driver: d.Name, Error: err.Error(), Seed: fmt.Sprint(sd), Case: data}
			}
			t.Fatalf("property violated")
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					fmt.Fprintf(os.Stderr, "HARNESS BUG in %s/%s: %v\n%s\n", d.Prop, d.Name, r, debug.Stack())
					os.Exit(2)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	if tb.failed && best == nil {
		fmt.Fprintf(os.Stderr, "HARNESS ERROR in %s/%s: %s\n", d.Prop, d.Name, strings.Join(tb.log, "\n"))
		os.Exit(2)
	}
	for h := range seen {
		st.Hashes = append(st.Hashes, h)
	}
	return st, best
}

// ---------------------------------------------------------------- replay

func findDriver(prop, name string) *Driver {
	for _, d := range drivers {
		if d.Prop == prop && d.Name == name {
			return d
		}
	}
	return nil
}

// replayFile runs a stored case. Exit status: 0 it passes, 1 it fails.
func replayFile(path string, tries int) int {
	debug.SetMaxStack(512 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	d := findDriver(f.Property, f.Driver)
	if d == nil {
		fmt.Fprintf(os.Stderr, "no driver %s/%s\n", f.Property, f.Driver)
		return 2
	}
	j := &journal{}
	j.watch()
	for i := 0; i < tries; i++ {
		c, err := d.decode(f.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		j.begin(d.Name, f.Case)
		err = d.execute(c, newCtx())
		j.end()
		if err != nil {
			fmt.Printf("%s/%s fails: %s\n", f.Property, f.Driver, err)
			return 1
		}
	}
	return 0
}

// subReplay replays in a fresh process; crashed is true if it died of a Go
// fatal error or hit the watchdog.
func subReplay(path string, tries int) (failed, crashed bool, output string) {
	cmd := exec.Command(os.Args[0], "replay", "-tries", strconv.Itoa(tries), path)
	cmd.Env = workerEnv()
	out, err := cmd.CombinedOutput()
	output = string(out)
	if err == nil {
		return false, false, output
	}
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	switch {
	case code == 1:
		return true, false, output
	case code == 3 || code == raceExit || (code == 2 && isFatal(output)):
		return false, true, output
	}
	return false, false, output
}

func isFatal(out string) bool {
	return strings.Contains(out, "fatal error:") || strings.Contains(out, "goroutine stack exceeds")
}

// raceExit is the exit status of a process that ran into a data race.
const raceExit = 66

func workerEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit))
}

// reduce drops elements of the lists of a case for as long as a replay in a
// fresh process still dies.
func reduce(f Failure, path string, tries int, budget time.Duration) json.RawMessage {
	end := time.Now().Add(budget)
	best := f.Case
	fails := func(c json.RawMessage) bool {
		g := f
		g.Case = c
		b, _ := json.Marshal(g)
		os.WriteFile(path+".try", b, 0o644)
		failed, crashed, _ := subReplay(path+".try", tries)
		return failed || crashed
	}
	for again := true; again && time.Now().Before(end); {
		again = false
		var m map[string]any
		d := json.NewDecoder(strings.NewReader(string(best)))
		d.UseNumber()
		if d.Decode(&m) != nil {
			return best
		}
		for _, k := range sortedKeys(m) {
			for size := 16; size >= 1; size /= 2 {
				for i := 0; time.Now().Before(end); {
					l, _ := m[k].([]any)
					if i+size > len(l) {
						break
					}
					m[k] = append(append([]any{}, l[:i]...), l[i+size:]...)
					c, err := json.Marshal(m)
					if err == nil && fails(c) {
						best, again = c, true
						continue
					}
					m[k] = l
					i += size
				}
			}
		}
	}
	return best
}

// ---------------------------------------------------------------- supervisor

func supervise(prop string, seed int64, tier string, only string) int {
	start := time.Now()
	ds := driversOf(prop)
	if len(ds) == 0 {
		fmt.Fprintf(os.Stderr, "no drivers for %s\n", prop)
		return 2
	}
	shards := 8
	tmp, err := os.MkdirTemp(filepath.Join(verifDir, ".build"), "run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	replays := filepath.Join(verifDir, "replays")
	os.MkdirAll(replays, 0o755)

	var failures []Failure
	replayed := 0
	// 1. Saved regression cases.
	saved, _ := filepath.Glob(filepath.Join(verifDir, "regress", prop, "*.json"))
	sort.Strings(saved)
	for _, s := range saved {
		replayed++
		failed, crashed, out := subReplay(s, 5)
		if !failed && !crashed {
			if strings.Contains(out, "HARNESS") || strings.Contains(out, "no driver") {
				fmt.Fprintf(os.Stderr, "replaying %s: %s\n", s, out)
				return 2
			}
			continue
		}
		var f Failure
		b, _ := os.ReadFile(s)
		json.Unmarshal(b, &f)
		f.Error = firstLines(out, 30)
		f.Property = prop
		failures = append(failures, f)
	}

	// 2. Generated cases.
	reports := make([]*WorkerReport, shards)
	errs := make([]string, shards)
	crashes := make([]*Failure, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			args := []string{"worker", "-prop", prop, "-seed", strconv.FormatInt(seed, 10), "-tier", tier, "-shard", strconv.Itoa(s), "-out", tmp}
			if only != "" {
				args = append(args, "-driver", only)
			}
			cmd := exec.Command(os.Args[0], args...)
			cmd.Env = workerEnv()
			out, err := cmd.CombinedOutput()
			if err == nil {
				b, err := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("report-%d.json", s)))
				if err != nil {
					errs[s] = err.Error()
					return
				}
				var r WorkerReport
				if err := json.Unmarshal(b, &r); err != nil {
					errs[s] = err.Error()
					return
				}
				reports[s] = &r
				return
			}
			code := -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
			if code == 3 || code == raceExit || (code == 2 && isFatal(string(out))) {
				// The case being run is in the journal: confirm it alone.
				jb, _ := os.ReadFile(filepath.Join(tmp, fmt.Sprintf("journal-%d", s)))
				name, c, ok := strings.Cut(string(jb), "\n")
				if ok && json.Valid([]byte(c)) {
					f := Failure{Property: prop, Driver: name, Error: "the process died or did not finish: " + firstLines(string(out), 12), Case: json.RawMessage(c)}
					p := filepath.Join(tmp, fmt.Sprintf("crash-%d.json", s))
					b, _ := json.Marshal(f)
					os.WriteFile(p, b, 0o644)
					tries := 1
					if code == raceExit {
						tries = 200
					}
					failed, crashed, rout := subReplay(p, tries)
					if failed || crashed {
						f.Error += "\nreplay: " + firstLines(rout, 12)
						if code == raceExit {
							f.Case = reduce(f, p, tries, 60*time.Second)
						}
						crashes[s] = &f
						return
					}
				}
			}
			errs[s] = fmt.Sprintf("worker %d: %v\n%s", s, err, firstLines(string(out), 60))
		}(s)
	}
	wg.Wait()

	merged := map[string]*DriverStats{}
	distinct := map[string]map[uint64]struct{}{}
	for s := range reports {
		if crashes[s] != nil {
			failures = append(failures, *crashes[s])
		}
		r := reports[s]
		if r == nil {
			continue
		}
		failures = append(failures, r.Failures...)
		for name, st := range r.Drivers {
			m := merged[name]
			if m == nil {
				m = &DriverStats{Classes: map[string]int{}}
				merged[name] = m
				distinct[name] = map[uint64]struct{}{}
			}
			m.Evaluations += st.Evaluations
			m.NonTrivial += st.NonTrivial
			for k, v := range st.Classes {
				m.Classes[k] += v
			}
			for _, h := range st.Hashes {
				distinct[name][h] = struct{}{}
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, st.Samples...)
			}
		}
	}
	// A worker that broke down is an error of the check, unless a violation
	// has been established anyway.
	bad := ""
	for _, e := range errs {
		if e != "" {
			bad = e
		}
	}
	if bad != "" && len(failures) == 0 {
		fmt.Fprintln(os.Stderr, bad)
		return 2
	}

	// Coverage-guided search.
	var fuzzed map[string]any
	if tier == "thorough" && len(failures) == 0 {
		var ff []Failure
		ff, fuzzed = fuzzDrivers(prop, ds, only, tmp)
		failures = append(failures, ff...)
	}

	// 3. Known findings.
	known := loadKnown(prop)
	var fresh []Failure
	for _, f := range failures {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		fresh = append(fresh, f)
	}

	// 4. Evidence.
	total, nontriv := 0, 0
	detail := map[string]any{}
	var samples []any
	var rules []string
	for _, d := range ds {
		m := merged[d.Name]
		if m == nil {
			continue
		}
		total += m.Evaluations
		nontriv += len(distinct[d.Name])
		detail[d.Name] = map[string]any{
			"evaluations":         m.Evaluations,
			"distinct_nontrivial": len(distinct[d.Name]),
			"rule":                d.Rule,
			"classes":             m.Classes,
		}
		rules = append(rules, d.Name+": "+d.Rule)
		sort.Slice(m.Samples, func(i, k int) bool { return len(m.Samples[i]) < len(m.Samples[k]) })
		for i, s := range m.Samples {
			if i >= 2 || len(samples) >= maxSamples {
				break
			}
			samples = append(samples, map[string]any{"driver": d.Name, "case": s})
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":          total,
			"distinct_nontrivial":  nontriv,
			"rule":                 "cases are drawn by rapid generators and executed against lpg and an oracle; non-trivial means: " + strings.Join(rules, "; "),
			"samples":              samples,
			"drivers":              detail,
			"saved_cases_replayed": replayed,
			"workers":              shards,
			"coverage_guided":      fuzzed,
		},
		"assumptions": []string{
			"cases outside the domain listed in DESIGN.md section 3 are not generated",
			"generated-input search: absence of a counterexample is not a proof",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(fresh),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil && len(b) > 60000 {
		cov := ev["coverage"].(map[string]any)
		cov["samples"] = samples[:1]
		b, err = json.MarshalIndent(ev, "", " ")
	}
	if err == nil {
		err = os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	// 5. Verdict.
	if len(fresh) > 0 {
		reported := map[string]bool{}
		for _, f := range fresh {
			if reported[f.Driver] {
				continue
			}
			reported[f.Driver] = true
			// the smallest one of this driver
			for _, g := range fresh {
				if g.Driver == f.Driver && len(g.Case) < len(f.Case) {
					f = g
				}
			}
			b, _ := json.MarshalIndent(f, "", " ")
			p := filepath.Join(replays, fmt.Sprintf("%s-%s-%08x.json", prop, f.Driver, uint32(hash64(string(f.Case)))))
			os.WriteFile(p, b, 0o644)
			fmt.Printf("driver %s: %s\n", f.Driver, firstLines(f.Error, 14))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
		}
		return 1
	}
	fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d saved=%d wall=%.1fs\n", prop, tier, seed, total, nontriv, replayed, time.Since(start).Seconds())
	return 0
}

// fuzzStats is what a process of the coverage-guided search reports.
type fuzzStats struct {
	Executions int `json:"executions"`
	NonTrivial int `json:"nontrivial"`
}

// fuzzDrivers runs the coverage-guided search (fuzz_test.go) for every driver
// of the property. Only what a replay confirms is a failure.
func fuzzDrivers(prop string, ds []*Driver, only, tmp string) ([]Failure, map[string]any) {
	bin := os.Getenv("VERIF_FUZZ_BIN")
	if bin == "" || prop == "C28" || prop == "C29" {
		return nil, nil
	}
	if _, err := os.Stat(bin); err != nil {
		return nil, nil
	}
	var specs []string
	for _, d := range ds {
		if only != "" && d.Name != only || d.Name == "huge" {
			continue
		}
		specs = append(specs, d.Prop+"/"+d.Name)
		if d.fromBytes != nil {
			specs = append(specs, d.Prop+"/"+d.Name+"/raw")
		}
	}
	total := fuzzTime
	if s, err := time.ParseDuration(os.Getenv("VERIF_FUZZTIME")); err == nil {
		total = s
	}
	var failures []Failure
	detail := map[string]any{}
	for _, spec := range specs {
		dir := filepath.Join(tmp, "fuzz-"+strings.ReplaceAll(spec, "/", "-"))
		os.MkdirAll(filepath.Join(dir, "cache"), 0o755)
		per := total / time.Duration(len(specs))
		cmd := exec.Command(bin, "-test.fuzz=^FuzzDriver$", "-test.run=^$", "-test.fuzztime="+per.String(), "-test.fuzzminimizetime=2s", "-test.fuzzcachedir="+filepath.Join(dir, "cache"), "-test.parallel=8", "-test.timeout=0")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_FUZZ="+spec, "VERIF_FUZZ_DIR="+dir)
		kill := time.AfterFunc(per+40*time.Second, func() { cmd.Process.Kill() })
		out, err := cmd.CombinedOutput()
		kill.Stop()
		var sum fuzzStats
		files, _ := filepath.Glob(filepath.Join(dir, "stats-*.json"))
		for _, f := range files {
			var st fuzzStats
			b, _ := os.ReadFile(f)
			json.Unmarshal(b, &st)
			sum.Executions += st.Executions
			sum.NonTrivial += st.NonTrivial
		}
		kept, _ := filepath.Glob(filepath.Join(dir, "cache", "FuzzDriver", "*"))
		res := map[string]any{"executions": sum.Executions, "nontrivial": sum.NonTrivial, "inputs_with_new_coverage": len(kept), "seconds": per.Seconds()}
		detail[spec] = res
		if err == nil {
			continue
		}
		// the smallest failing case, or the cases being run when it died
		cands, _ := filepath.Glob(filepath.Join(dir, "fail-*.json"))
		sort.Strings(cands)
		if len(cands) > 3 {
			cands = cands[:3]
		}
		curs, _ := filepath.Glob(filepath.Join(dir, "cur-*"))
		for _, c := range curs {
			b, _ := os.ReadFile(c)
			name, cs, ok := strings.Cut(string(b), "\n")
			if ok && json.Valid([]byte(cs)) {
				p := c + ".json"
				b, _ := json.Marshal(Failure{Property: prop, Driver: name, Error: "the process died", Seed: "coverage-guided", Case: json.RawMessage(cs)})
				os.WriteFile(p, b, 0o644)
				cands = append(cands, p)
			}
		}
		found := false
		for _, p := range cands {
			failed, crashed, rout := subReplay(p, 2)
			if !failed && !crashed {
				continue
			}
			var f Failure
			b, _ := os.ReadFile(p)
			json.Unmarshal(b, &f)
			f.Case = reduce(f, p, 2, 20*time.Second)
			f.Error = "found by the coverage-guided search: " + f.Error
			if crashed {
				f.Error += "\nreplay: " + firstLines(rout, 12)
			}
			failures = append(failures, f)
			found = true
			break
		}
		if !found {
			res["note"] = "ended early, nothing that a replay confirms: " + firstLines(string(out), 6)
		}
	}
	return failures, detail
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, "\n")
	if len(r) > 3000 {
		r = r[:3000]
	}
	return r
}

// ---------------------------------------------------------------- known findings

// knownFile lines: "known: property=<id> driver=<name> match=<substring of the
// error> :: description". Lines starting with "fixed:" or "#" suppress nothing.
type knownSet []struct{ driver, match, desc string }

func loadKnown(prop string) knownSet {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var ret knownSet
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" ")
		if !ok {
			continue
		}
		head, desc, _ := strings.Cut(rest, " :: ")
		drv, m, _ := strings.Cut(head, " match=")
		drv = strings.TrimPrefix(drv, "driver=")
		ret = append(ret, struct{ driver, match, desc string }{drv, m, desc})
	}
	return ret
}

func (k knownSet) match(f Failure) string {
	for _, e := range k {
		if e.driver == f.Driver && e.match != "" && strings.Contains(f.Error, e.match) {
			return e.desc
		}
	}
	return ""
}
