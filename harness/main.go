// Command harness runs the checks of /verif against the Helena implementation
// it is built with.
//
//	harness -id C01 [-tier quick|thorough] [-seed N]   run a check
//	harness -replay FILE                               re-run one recorded case
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is a property check: a fixed, seed-derived list of cases
type Check struct {
	ID    string
	Rule  string
	Quick int // number of cases
	Deep  int
	// Run executes one case
	Run func(c *Ctx)
	// Shards overrides the number of worker processes
	Shards int
	// Assumptions listed in the evidence
	Assume []string
	// Optional hook run once per worker before the cases
	Setup func()
	// Seconds without progress after which a case counts as hung
	Stall int
}

// workDir is a scratch directory of the worker
var workDir string

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the context of one case
type Ctx struct {
	check *Check
	w     *workerState
	Case  int
	Total int
	Seed  uint64
	R     *rand.Rand
	input string
	// Text added to the inputs reported
	extra  string
	Deep   bool
	failed bool
}

type Violation struct {
	Case   int    `json:"case"`
	Kind   string `json:"kind"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
}

type workerOut struct {
	Evaluations int              `json:"evaluations"`
	Hashes      []uint64         `json:"hashes"`
	Counters    map[string]int64 `json:"counters"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Known       []string         `json:"known"`
	Done        bool             `json:"done"`
}

type workerState struct {
	out      workerOut
	hashes   map[uint64]bool
	seen     map[uint64]bool
	progress *os.File
}

func hash64(s string) uint64 {
	h := sha256.Sum256([]byte(s))
	return binary.LittleEndian.Uint64(h[:])
}

// Input records what is being run, so that a crash can be attributed
func (c *Ctx) Input(s string) {
	s = c.extra + s
	c.input = s
	if c.w.progress != nil {
		b := make([]byte, 0, len(s)+32)
		b = append(b, fmt.Sprintf("%d %d\n", c.Case, len(s))...)
		b = append(b, s...)
		c.w.progress.WriteAt(b, 0)
	}
}

// Eval counts one evaluation; key identifies it, "" for trivial ones
func (c *Ctx) Eval(key string) {
	c.w.out.Evaluations++
	if key != "" {
		c.w.hashes[hash64(key)] = true
		if len(c.w.out.Samples) < 3 && len(key) < 1000 && c.Case%7 == 3 {
			c.w.out.Samples = append(c.w.out.Samples, key)
		}
	}
}

// Count counts observed events
func (c *Ctx) Count(name string, n int) { c.w.out.Counters[name] += int64(n) }

// Distinct counts the distinct things of a kind observed by a worker
func (c *Ctx) Distinct(name, what string) {
	k := hash64(name + "\x00" + what)
	if !c.w.seen[k] {
		if c.w.seen == nil {
			c.w.seen = map[uint64]bool{}
		}
		c.w.seen[k] = true
		c.Count(name, 1)
	}
}

// Fail reports a violation
func (c *Ctx) Fail(kind, format string, args ...any) {
	c.failed = true
	if len(c.w.out.Violations) < 20 {
		d := fmt.Sprintf(format, args...)
		if len(d) > 4000 {
			d = d[:4000] + "..."
		}
		c.w.out.Violations = append(c.w.out.Violations, Violation{c.Case, kind, c.input, d})
	}
	c.w.out.Counters["violations"]++
}

// Known reports that a listed finding was observed
func (c *Ctx) Known(what string) {
	for _, k := range c.w.out.Known {
		if k == what {
			return
		}
	}
	c.w.out.Known = append(c.w.out.Known, what)
}

func caseRand(id string, seed uint64, i int) *rand.Rand {
	return rand.New(rand.NewPCG(hash64(id)^seed*0x9E3779B97F4A7C15, uint64(i)*0xD1B54A32D192ED03+seed))
}

func runCase(check *Check, w *workerState, seed uint64, i, total int, deep bool) {
	c := &Ctx{check: check, w: w, Case: i, Total: total, Seed: seed, R: caseRand(check.ID, seed, i), Deep: deep}
	c.Input("(case setup)")
	defer func() {
		if e := recover(); e != nil {
			c.Fail("panic", "%v\n%s", e, debug.Stack())
		}
	}()
	check.Run(c)
}

func worker(check *Check, tier string, seed uint64, shard, shards int, total int, outFile, progressFile string, skip map[int]bool) {
	w := &workerState{hashes: map[uint64]bool{}}
	w.out.Counters = map[string]int64{}
	if f, err := os.OpenFile(progressFile, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644); err == nil {
		w.progress = f
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(1536 << 20)
	debug.SetMaxStack(256 << 20)
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2800<<20 {
				// Not garbage left by previous cases
				runtime.GC()
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 2800<<20 {
					panic("memory exhausted")
				}
			}
		}
	}()
	workDir = filepath.Join(filepath.Dir(outFile), fmt.Sprintf("work%d", shard))
	os.MkdirAll(workDir, 0o755)
	if check.Setup != nil {
		check.Setup()
	}
	for i := shard; i < total; i += shards {
		if skip[i] {
			continue
		}
		runCase(check, w, seed, i, total, tier == "thorough")
		if len(w.out.Violations) >= 5 {
			break
		}
	}
	w.out.Done = true
	for h := range w.hashes {
		w.out.Hashes = append(w.out.Hashes, h)
	}
	b, err := json.Marshal(w.out)
	if err == nil {
		err = os.WriteFile(outFile, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func readProgress(file string) (int, string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return -1, ""
	}
	head, rest, _ := bytes.Cut(b, []byte("\n"))
	var i, n int
	fmt.Sscanf(string(head), "%d %d", &i, &n)
	if n > len(rest) {
		n = len(rest)
	}
	return i, string(rest[:n])
}

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "tier")
	seedS := flag.String("seed", envOr("VERIF_SEED", "1"), "seed")
	isWorker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 0, "")
	total := flag.Int("n", 0, "number of cases")
	out := flag.String("out", "", "")
	progress := flag.String("progress", "", "")
	verif := flag.String("verif", envOr("VERIF_DIR", "/verif"), "")
	replay := flag.String("replay", "", "replay file")
	one := flag.Int("case", -1, "run one case")
	flag.Parse()
	seed, err := strconv.ParseUint(*seedS, 10, 64)
	if err != nil {
		seed = hash64(*seedS)
	}
	if *replay != "" {
		var r struct {
			Property, Tier string
			Seed           uint64
			Total          int
			Violation      Violation
		}
		b, err := os.ReadFile(*replay)
		if err != nil || json.Unmarshal(b, &r) != nil {
			fmt.Fprintln(os.Stderr, "cannot read replay file")
			os.Exit(2)
		}
		*id, *tier, seed, *total, *one = r.Property, r.Tier, r.Seed, r.Total, r.Violation.Case
	}
	if *id == "LIST" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	check := checks[*id]
	if check == nil {
		fmt.Fprintln(os.Stderr, "unknown check", *id)
		os.Exit(2)
	}
	if *total == 0 {
		*total = check.Quick
		if *tier == "thorough" {
			*total = check.Deep
		}
	}
	if *one >= 0 {
		w := &workerState{hashes: map[uint64]bool{}}
		w.out.Counters = map[string]int64{}
		workDir, _ = os.MkdirTemp("", "verif-one-")
		defer os.RemoveAll(workDir)
		if check.Setup != nil {
			check.Setup()
		}
		runCase(check, w, seed, *one, *total, *tier == "thorough")
		for _, v := range w.out.Violations {
			fmt.Printf("--- %s\n%s\n--- %s\n", v.Kind, v.Input, v.Detail)
		}
		fmt.Println(w.out.Counters)
		if len(w.out.Violations) > 0 {
			os.RemoveAll(workDir)
			os.Exit(1)
		}
		return
	}
	if *isWorker {
		skip := map[int]bool{}
		worker(check, *tier, seed, *shard, *shards, *total, *out, *progress, skip)
		return
	}
	os.Exit(parent(check, *tier, seed, *shards, *total, *verif))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func parent(check *Check, tier string, seed uint64, shards, total int, verif string) int {
	start := time.Now()
	if shards == 0 {
		shards = check.Shards
	}
	if shards == 0 {
		shards = runtime.NumCPU()
	}
	if shards > total {
		shards = total
	}
	dir, err := os.MkdirTemp("", "verif-"+check.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	outs := make([]workerOut, shards)
	crashes := make([]*Violation, shards)
	infra := make([]string, shards)
	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			of := filepath.Join(dir, fmt.Sprintf("out%d", s))
			pf := filepath.Join(dir, fmt.Sprintf("progress%d", s))
			cmd := exec.Command(self, "-worker", "-id", check.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(shards), "-n", fmt.Sprint(total),
				"-out", of, "-progress", pf, "-verif", verif)
			ef, _ := os.Create(filepath.Join(dir, fmt.Sprintf("stderr%d", s)))
			// A race ends the worker, so that it is attributed to the case running
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1")
			cmd.Stderr = ef
			cmd.Stdout = ef
			if err := cmd.Start(); err != nil {
				infra[s] = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			stall := 150
			if check.Stall > 0 {
				stall = check.Stall
			}
			last, lastChange := "", time.Now()
			var werr error
			tick := time.NewTicker(500 * time.Millisecond)
			defer tick.Stop()
			hung := false
		wait:
			for {
				select {
				case werr = <-done:
					break wait
				case <-tick.C:
					if st, e := os.Stat(pf); e == nil {
						cur := fmt.Sprint(st.ModTime().UnixNano(), st.Size())
						if cur != last {
							last, lastChange = cur, time.Now()
						}
					}
					if time.Since(lastChange) > time.Duration(stall)*time.Second && !hung {
						hung = true
						cmd.Process.Signal(os.Signal(sigQuit))
						time.AfterFunc(3*time.Second, func() { cmd.Process.Kill() })
					}
				}
			}
			ef.Close()
			b, e := os.ReadFile(of)
			if e == nil && json.Unmarshal(b, &outs[s]) == nil && outs[s].Done {
				return
			}
			i, input := readProgress(pf)
			eb, _ := os.ReadFile(ef.Name())
			if len(eb) > 3000 {
				eb = eb[:3000]
			}
			kind := "host crash"
			if hung {
				kind = "hang"
			}
			if bytes.Contains(eb, []byte("DATA RACE")) {
				kind = "data race"
			}
			if i < 0 {
				infra[s] = fmt.Sprintf("worker failed before its first case: %v\n%s", werr, eb)
				return
			}
			crashes[s] = &Violation{i, kind, input, fmt.Sprintf("%v\n%s", werr, eb)}
		}(s)
	}
	wg.Wait()
	evals := 0
	hashes := map[uint64]bool{}
	counters := map[string]int64{}
	var samples []string
	var viol []Violation
	known := map[string]bool{}
	for s := range outs {
		if infra[s] != "" {
			fmt.Fprintln(os.Stderr, "harness error:", infra[s])
			return 2
		}
		o := outs[s]
		evals += o.Evaluations
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for k, v := range o.Counters {
			counters[k] += v
		}
		for _, x := range o.Samples {
			if len(samples) < 6 {
				samples = append(samples, x)
			}
		}
		for _, k := range o.Known {
			known[k] = true
		}
		viol = append(viol, o.Violations...)
		if crashes[s] != nil {
			viol = append(viol, *crashes[s])
		}
	}
	sort.SliceStable(viol, func(i, j int) bool {
		if len(viol[i].Input) != len(viol[j].Input) {
			return len(viol[i].Input) < len(viol[j].Input)
		}
		return viol[i].Case < viol[j].Case
	})
	rc := 0
	for k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", check.ID, k)
	}
	if len(viol) > 0 {
		rc = 1
		rd := filepath.Join(verif, "replay")
		os.MkdirAll(rd, 0o755)
		for i, v := range viol {
			if i >= 5 {
				break
			}
			p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", check.ID, i))
			b, _ := json.MarshalIndent(map[string]any{"property": check.ID, "tier": tier, "seed": seed, "total": total, "violation": v}, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", check.ID, p)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("  case %d (%s)\n  input: %s\n  %s\n", v.Case, v.Kind, strings.ReplaceAll(trunc(v.Input, 2000), "\n", "\n         "), strings.ReplaceAll(d, "\n", "\n  "))
		}
	}
	cov := map[string]any{
		"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": check.Rule,
		"samples": samples, "cases": total, "workers": shards, "observed": counters,
	}
	ev := map[string]any{"property": check.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
		"assumptions": check.Assume}
	if check.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", check.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(hashes) < 2 && rc == 0 {
		fmt.Fprintln(os.Stderr, "harness error: nothing was observed")
		return 2
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, %d violations, %.1fs %v\n", check.ID, tier, total, evals, len(hashes), len(viol), time.Since(start).Seconds(), counters)
	return rc
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
