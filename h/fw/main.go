package fw

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Replay is the content of a replay file.
type Replay struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Case     json.RawMessage `json:"case,omitempty"`
	Tier     string          `json:"tier"`
	Seed     int             `json:"seed"`
	Shard    int             `json:"shard"`
	Shards   int             `json:"shards"`
	Error    string          `json:"error"`
	// History is set when the case alone does not fail in a fresh process:
	// the replay then re-runs the shard up to the failure.
	History bool   `json:"history,omitempty"`
	Howto   string `json:"howto"`
}

type childOut struct {
	Sub         string            `json:"sub"`
	Shard       int               `json:"shard"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  []uint64          `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Known       []string          `json:"known"`
	Fail        *Replay           `json:"fail,omitempty"`
	Broken      string            `json:"broken,omitempty"`
	Exhaustive  bool              `json:"exhaustive"`
}

// CPULimit is the CPU time one case may take, in seconds.
var CPULimit = 90.0

// distinct non-trivial cases are counted up to this many per process
const maxDistinct = 300000

// A case during which this process did nothing for blockedTicks half-seconds
// waits for something that will not come.
const blockedTicks = 480

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

// recTB is the rapid.TB handed to rapid: it records instead of printing.
type recTB struct {
	name   string
	failed bool
	log    bytes.Buffer
}

type tbStop struct{}

func (r *recTB) Helper()                   {}
func (r *recTB) Name() string              { return r.name }
func (r *recTB) Logf(f string, a ...any)   { r.put(fmt.Sprintf(f, a...)) }
func (r *recTB) Log(a ...any)              { r.put(fmt.Sprint(a...)) }
func (r *recTB) Skipf(f string, a ...any)  { panic(tbStop{}) }
func (r *recTB) Skip(a ...any)             { panic(tbStop{}) }
func (r *recTB) SkipNow()                  { panic(tbStop{}) }
func (r *recTB) Errorf(f string, a ...any) { r.failed = true; r.put(fmt.Sprintf(f, a...)) }
func (r *recTB) Error(a ...any)            { r.failed = true; r.put(fmt.Sprint(a...)) }
func (r *recTB) Fatalf(f string, a ...any) {
	r.failed = true
	r.put(fmt.Sprintf(f, a...))
	panic(tbStop{})
}
func (r *recTB) Fatal(a ...any) { r.failed = true; r.put(fmt.Sprint(a...)); panic(tbStop{}) }
func (r *recTB) FailNow()       { r.failed = true; panic(tbStop{}) }
func (r *recTB) Fail()          { r.failed = true }
func (r *recTB) Failed() bool   { return r.failed }
func (r *recTB) put(s string) {
	if r.log.Len() < 1<<16 {
		r.log.WriteString(s + "\n")
	}
}

// Packages are the packages of the code under test whose constants steer
// generation.
var Packages []string

// Main is the entry point of every check binary.
func Main(makers ...func() Property) {
	var props []Property
	var unmade error
	for _, f := range makers {
		if err := Catch(func() error { props = append(props, f()); return nil }); err != nil {
			unmade = err
		}
	}
	for i := range props {
		props[i].Subs = expand(props[i].Subs)
	}
	testing.Init()
	var (
		prop   = flag.String("prop", "", "property to check")
		sub    = flag.String("sub", "", "only this sub-check")
		tier   = flag.String("tier", "", "quick or thorough (default $VERIF_TIER)")
		seedF  = flag.String("seed", "", "seed (default $VERIF_SEED)")
		verif  = flag.String("verif", "/verif", "the verif directory")
		child  = flag.String("child", "", "internal: output file of a child")
		shard  = flag.Int("shard", 0, "internal")
		shards = flag.Int("shards", 1, "internal")
		replay = flag.String("replay", "", "replay this file")
		inner  = flag.Bool("inner", false, "internal: replay in this process")
		trace  = flag.String("trace", "", "internal: write each case here before it is judged")
		scale  = flag.Float64("scale", 1, "multiply case counts")
		list   = flag.Bool("list", false, "list properties and sub-checks")
	)
	flag.Parse()
	if *list {
		for _, p := range props {
			for _, s := range p.Subs {
				fmt.Println(p.ID, s.Name, s.Quick, s.Thorough)
			}
		}
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seedF == "" {
		*seedF = os.Getenv("VERIF_SEED")
	}
	seed, err := strconv.Atoi(*seedF)
	if err != nil {
		seed = 1
	}

	tracePath = *trace
	if *replay != "" {
		if *inner {
			limitMemory()
			os.Exit(doReplay(props, *replay, *verif))
		}
		os.Exit(outerReplay(*replay, *prop, *verif))
	}
	var p *Property
	for i := range props {
		if props[i].ID == *prop {
			p = &props[i]
		}
	}
	if p == nil && unmade != nil && strings.Contains(unmade.Error(), "/ndaumath/") {
		// fixed, valid arguments given to the code under test while setting up
		path := filepath.Join(*verif, "evidence", "replay", *prop+"-setup.json")
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(Replay{Property: *prop, Error: unmade.Error(), Howto: "bash /verif/run.sh " + *prop}, "", "  ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", *prop, path, unmade)
		os.Exit(1)
	}
	if p == nil {
		fmt.Fprintf(os.Stderr, "no property %q in this binary\n", *prop)
		os.Exit(2)
	}
	known := loadKnown(*verif, p.ID)
	if *child != "" {
		limitMemory()
		loadDict(Packages)
		for i := range p.Subs {
			if p.Subs[i].Name == *sub {
				runChild(p, &p.Subs[i], *tier, seed, *shard, *shards, *scale, known, *child, *verif)
				return
			}
		}
		fmt.Fprintf(os.Stderr, "no sub-check %q\n", *sub)
		os.Exit(2)
	}
	os.Exit(runParent(p, *sub, *tier, seed, *scale, known, *verif))
}

type finding struct{ key, what string }

// loadKnown reads the known-findings file. Lines:
//
//	finding: property=<id> key=<key> <what fails>
//	fixed: property=<id> <commit> <what failed>
func loadKnown(verif, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		m := re.FindStringSubmatch(strings.TrimSpace(l))
		if m != nil && m[1] == id {
			out[m[2]] = m[3]
		}
	}
	return out
}

func knownSet(m map[string]string) map[string]bool {
	out := map[string]bool{}
	for k := range m {
		out[k] = true
	}
	return out
}

func runChild(p *Property, s *Sub, tier string, seed, shard, shards int, scale float64, known map[string]string, outFile, verif string) {
	ks := knownSet(known)
	out := childOut{Sub: s.Name, Shard: shard, Labels: map[string]int{}}
	nt := map[uint64]bool{}
	kn := map[string]bool{}
	var best *Replay
	var first *Replay
	var caseStart atomic.Value // float64
	caseStart.Store(-1.0)
	var cur atomic.Value // json
	finish := func() {
		for h := range nt {
			out.Nontrivial = append(out.Nontrivial, h)
		}
		for k := range kn {
			out.Known = append(out.Known, k)
		}
		b, err := json.Marshal(out)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(outFile, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	// A case is micro- or milliseconds of work. One which burns
	// CPULimit of this process's CPU time (not wall-clock time, so a
	// busy machine does not matter) does not terminate for any practical
	// purpose.
	go func() {
		same, ticks := -1.0, 0
		for {
			time.Sleep(500 * time.Millisecond)
			st := caseStart.Load().(float64)
			if st != same {
				same, ticks = st, 0
			}
			ticks++
			if st >= 0 && (cpuSeconds()-st > CPULimit || (ticks > blockedTicks && cpuSeconds()-st < 10)) {
				var cj json.RawMessage
				if c := cur.Load(); c != nil {
					cj, _ = json.Marshal(c.(box).v)
				}
				o := childOut{Sub: s.Name, Shard: shard, Labels: map[string]int{}, Evaluations: 1}
				o.Fail = &Replay{Property: p.ID, Sub: s.Name, Case: cj, Tier: tier, Seed: seed, Shard: shard, Shards: shards,
					Error: fmt.Sprintf("one case used %.0f s of CPU time and %d s of waiting: the call does not return", cpuSeconds()-st, ticks/2)}
				b, _ := json.Marshal(o)
				os.WriteFile(outFile, b, 0o644)
				os.Exit(0)
			}
		}
	}()
	shrinking := false
	var tf *os.File
	if tracePath != "" {
		tf, _ = os.Create(tracePath)
	}
	eval := func(c any) error {
		cur.Store(box{c})
		if tf != nil {
			if b, err := json.Marshal(c); err == nil {
				tf.Truncate(0)
				tf.WriteAt(b, 0)
			}
		}
		caseStart.Store(cpuSeconds())
		o := Obs{knownSet: ks}
		err := runJudge(s, c, &o)
		caseStart.Store(-1.0)
		if !shrinking {
			out.Evaluations += 1 + o.extra
			for _, l := range o.labels {
				out.Labels[l]++
			}
			for _, k := range o.known {
				kn[k] = true
			}
			if o.nontrivial || len(out.Samples) == 0 {
				j, jerr := json.Marshal(c)
				if jerr != nil {
					panic(jerr)
				}
				if o.nontrivial && len(nt) < maxDistinct {
					nt[hash64(s.Name, string(j))] = true
				}
				if len(out.Samples) < 2 && len(j) < 3000 {
					out.Samples = append(out.Samples, j)
				}
			}
		}
		if err != nil {
			j, jerr := json.Marshal(c)
			if jerr != nil {
				panic(jerr)
			}
			r := &Replay{Property: p.ID, Sub: s.Name, Case: j, Tier: tier, Seed: seed, Shard: shard, Shards: shards, Error: err.Error()}
			if first == nil {
				first = r
			}
			best = r
			shrinking = true
		}
		return err
	}
	if s.list != nil {
		out.Exhaustive = true
		for i, c := range s.list() {
			if i%shards != shard {
				continue
			}
			if err := eval(c); err != nil {
				break
			}
		}
	} else {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		n = int(float64(n) * scale * effort(p.ID, tier))
		n = (n + shards - 1) / shards
		if n < 1 {
			n = 1
		}
		rs := hash64(p.ID, s.Name, strconv.Itoa(seed), strconv.Itoa(shard), tier)
		if rs == 0 {
			rs = 1
		}
		flag.Set("rapid.seed", strconv.FormatUint(rs, 10))
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.nofailfile", "true")
		flag.Set("rapid.shrinktime", "25s")
		tb := &recTB{name: "verif-" + p.ID + "-" + s.Name}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(tbStop); !ok {
						out.Broken = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
					}
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				c := s.draw(t)
				if err := eval(c); err != nil {
					// one error string per sub-check, so that shrinking may
					// move between messages
					t.Fatalf("violation")
				}
			})
		}()
		if tb.failed && best == nil && out.Broken == "" {
			if l := tb.log.String(); strings.Contains(l, "ndau/ndaumath/") {
				// the code under test panicked with arguments which the
				// generator needs it to take
				out.Fail = &Replay{Property: p.ID, Sub: s.Name, Tier: tier, Seed: seed, Shard: shard, Shards: shards, History: true, Error: "while generating: " + l}
			} else {
				out.Broken = "generator failure: " + l
			}
		}
	}
	if best != nil {
		// prefer the smallest case that fails on its own
		ok := false
		for _, r := range []*Replay{best, first} {
			c, err := s.parse(r.Case)
			if err != nil {
				out.Broken = "case does not parse back: " + err.Error()
				break
			}
			o := Obs{knownSet: ks}
			if e := runJudge(s, c, &o); e != nil {
				r.Error = e.Error()
				out.Fail = r
				ok = true
				break
			}
		}
		if !ok && out.Broken == "" {
			best = first
			best.History = true
			best.Error = "fails only after the cases before it in this shard: " + best.Error
			out.Fail = best
		}
	}
	finish()
}

// effort.json gives, per property, what the numbers of cases in the quick and
// the thorough tier are multiplied by.
//
//go:embed effort.json
var effortJSON []byte

func effort(id, tier string) float64 {
	var m map[string][2]float64
	if err := json.Unmarshal(effortJSON, &m); err != nil {
		panic(err)
	}
	e, ok := m[id]
	if !ok {
		return 1
	}
	if tier == "thorough" {
		return e[1]
	}
	return e[0]
}

type box struct{ v any }

// dataLimit is the memory a child may take; ordinary ones take less than a
// tenth of it.
const dataLimit = 3500 << 20

func limitMemory() {
	if !raceEnabled {
		// a case which takes more and more memory ends its process
		var lim syscall.Rlimit
		if syscall.Getrlimit(syscall.RLIMIT_DATA, &lim) == nil && lim.Cur > dataLimit {
			lim.Cur = dataLimit
			syscall.Setrlimit(syscall.RLIMIT_DATA, &lim)
		}
	}
}

// tracePath is where cases are written before they are judged, if anywhere.
var tracePath string

// outerReplay replays in a process of its own, which may die.
func outerReplay(file, prop, verif string) int {
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(self, "-prop", prop, "-verif", verif, "-replay", file, "-inner")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all")
	var eb limited
	cmd.Stderr = &eb
	cmd.Stdout = os.Stdout
	err = cmd.Run()
	if err == nil {
		return 0
	}
	if fatalInside(eb.String()) {
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process died: %s\n", prop, file, clip(eb.String(), 3000))
		return 1
	}
	os.Stderr.WriteString(eb.String())
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
		return x.ExitCode()
	}
	return 2
}

var (
	fatalRE = regexp.MustCompile(`fatal error: (stack overflow|runtime: (out of memory|cannot allocate memory)|concurrent map|all goroutines are asleep|sync: )|goroutine stack exceeds`)
	frameRE = regexp.MustCompile(`(?m)^github\.com/ndau/ndaumath/`)
)

// fatalInside says whether a process died of something in the code under test
// which cannot be recovered from: that is a violation, not a harness error.
func fatalInside(txt string) bool {
	return strings.Contains(txt, "DATA RACE") ||
		(fatalRE.MatchString(txt) && strings.Contains(txt, "ndaumath")) ||
		(strings.Contains(txt, "panic:") && frameRE.MatchString(txt))
}

func runParent(p *Property, only, tier string, seed int, scale float64, known map[string]string, verif string) int {
	start := time.Now()
	type job struct {
		s      *Sub
		shard  int
		shards int
	}
	var jobs []job
	ncpu := runtime.NumCPU()
	if ncpu > 8 {
		ncpu = 8
	}
	if ncpu < 1 {
		ncpu = 1
	}
	for i := range p.Subs {
		s := &p.Subs[i]
		if only != "" && s.Name != only {
			continue
		}
		n := 1
		if s.list != nil {
			if s.Heavy {
				n = 8
			}
		} else {
			if tier == "thorough" {
				n = 8
			} else if s.Quick >= 400 || s.Heavy {
				n = 8
			}
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{s, k, n})
		}
	}
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	outs := make([]*childOut, len(jobs))
	errs := make([]string, len(jobs))
	sem := make(chan struct{}, ncpu)
	var wg sync.WaitGroup
	var diedMu sync.Mutex
	died := map[string]bool{}
	for i, j := range jobs {
		wg.Add(1)
		go func(i int, j job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			of := filepath.Join(dir, fmt.Sprintf("out-%d.json", i))
			cmd := exec.Command(self, "-prop", p.ID, "-sub", j.s.Name, "-tier", tier, "-seed", strconv.Itoa(seed),
				"-verif", verif, "-child", of, "-shard", strconv.Itoa(j.shard), "-shards", strconv.Itoa(j.shards),
				"-scale", strconv.FormatFloat(scale, 'g', -1, 64))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all")
			var eb limited
			cmd.Stderr = &eb
			cmd.Stdout = &eb
			rerr := cmd.Run()
			b, ferr := os.ReadFile(of)
			if rerr == nil && ferr == nil {
				var co childOut
				if err := json.Unmarshal(b, &co); err != nil {
					errs[i] = err.Error()
					return
				}
				outs[i] = &co
				if s := strings.TrimSpace(eb.String()); s != "" && strings.Contains(s, "DATA RACE") {
					co.Fail = &Replay{Property: p.ID, Sub: j.s.Name, Tier: tier, Seed: seed, Shard: j.shard, Shards: j.shards, History: true, Error: s}
				}
				return
			}
			txt := eb.String()
			// runtime-fatal faults inside the code under test cannot be
			// recovered; they are violations, not harness errors
			if fatalInside(txt) {
				r := &Replay{Property: p.ID, Sub: j.s.Name, Tier: tier, Seed: seed, Shard: j.shard, Shards: j.shards, History: true, Error: "the process died: " + txt}
				outs[i] = &childOut{Sub: j.s.Name, Shard: j.shard, Evaluations: 1, Labels: map[string]int{}, Fail: r}
				diedMu.Lock()
				defer diedMu.Unlock()
				if !died[j.s.Name] { // find the case, for one shard
					died[j.s.Name] = true
					lastCase(cmd, r, dir, verif)
				}
				return
			}
			errs[i] = fmt.Sprintf("child %s/%d died: %v\n%s", j.s.Name, j.shard, rerr, txt)
		}(i, j)
	}
	wg.Wait()

	broken := false
	total := 0
	nts := map[uint64]bool{}
	perSub := map[string]map[string]any{}
	var samples []any
	knownHit := map[string]bool{}
	var fails []*Replay
	allExh := true
	for i, co := range outs {
		if co == nil {
			fmt.Fprintf(os.Stderr, "ERROR property=%s %s\n", p.ID, errs[i])
			broken = true
			continue
		}
		if co.Broken != "" {
			fmt.Fprintf(os.Stderr, "ERROR property=%s sub=%s %s\n", p.ID, co.Sub, co.Broken)
			broken = true
		}
		total += co.Evaluations
		for _, h := range co.Nontrivial {
			nts[h] = true
		}
		ps := perSub[co.Sub]
		if ps == nil {
			ps = map[string]any{"evaluations": 0, "labels": map[string]int{}}
			perSub[co.Sub] = ps
		}
		ps["evaluations"] = ps["evaluations"].(int) + co.Evaluations
		lm := ps["labels"].(map[string]int)
		for l, n := range co.Labels {
			lm[l] += n
		}
		if co.Shard == 0 {
			for _, sj := range co.Samples {
				samples = append(samples, map[string]any{"sub": co.Sub, "case": sj})
			}
		}
		for _, k := range co.Known {
			knownHit[k] = true
		}
		if !co.Exhaustive {
			allExh = false
		}
		if co.Fail != nil {
			fails = append(fails, co.Fail)
		}
	}
	for k, what := range known {
		if knownHit[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
		}
	}
	violations := 0
	seen := map[string]bool{}
	sort.SliceStable(fails, func(a, b int) bool {
		x, y := len(fails[a].Case), len(fails[b].Case)
		return (x > 0) != (y > 0) && x > 0 || x < y && x > 0
	})
	for _, f := range fails {
		if seen[f.Sub] {
			continue
		}
		seen[f.Sub] = true
		violations++
		rdir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", p.ID, sanitize(f.Sub)))
		f.Howto = fmt.Sprintf("bash /verif/run.sh %s --replay %s", p.ID, path)
		b, _ := json.MarshalIndent(f, "", "  ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		fmt.Printf("  sub-check %s\n  case %s\n  %s\n", f.Sub, clip(string(f.Case), 1200), strings.ReplaceAll(clip(f.Error, 3000), "\n", "\n  "))
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         total,
			"distinct_nontrivial": len(nts),
			"rule":                p.Rule,
			"samples":             samples,
			"sub_checks":          perSub,
			"exhaustive":          allExh,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		broken = true
	}
	fmt.Printf("%s: %s tier, seed %d: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s\n",
		p.ID, tier, seed, total, len(nts), violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if broken {
		return 2
	}
	return 0
}

// lastCase runs a child which died again, writing down each case, and makes the
// last one the replay if the process dies of it alone.
func lastCase(child *exec.Cmd, r *Replay, dir, verif string) {
	tf := filepath.Join(dir, "trace-"+sanitize(r.Sub))
	cmd := exec.Command(child.Path, append(append([]string{}, child.Args[1:]...), "-trace", tf)...)
	cmd.Env = child.Env
	if cmd.Run() == nil {
		return
	}
	c, err := os.ReadFile(tf)
	if err != nil || !json.Valid(c) {
		return
	}
	one := *r
	one.Case, one.History = c, false
	b, err := json.Marshal(one)
	rf := tf + ".json"
	if err != nil || os.WriteFile(rf, b, 0o644) != nil {
		return
	}
	if outerReplay0(child.Path, rf, r.Property, verif) {
		*r = one
	}
}

// outerReplay0 says whether a process dies of a replay.
func outerReplay0(self, file, prop, verif string) bool {
	cmd := exec.Command(self, "-prop", prop, "-verif", verif, "-replay", file, "-inner")
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=all")
	var eb limited
	cmd.Stderr = &eb
	err := cmd.Run()
	return err != nil && fatalInside(eb.String())
}

type limited struct{ b bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<18 {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limited) String() string { return l.b.String() }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func sanitize(s string) string {
	return regexp.MustCompile(`[^A-Za-z0-9_.-]`).ReplaceAllString(s, "_")
}

func doReplay(props []Property, file, verif string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for i := range props {
		p := &props[i]
		if p.ID != r.Property {
			continue
		}
		for k := range p.Subs {
			s := &p.Subs[k]
			if s.Name != r.Sub {
				continue
			}
			known := loadKnown(verif, p.ID)
			if r.History {
				tmp, _ := os.CreateTemp("", "replay")
				defer os.Remove(tmp.Name())
				loadDict(Packages)
				runChild(p, s, r.Tier, r.Seed, r.Shard, r.Shards, 1, known, tmp.Name(), verif)
				ob, _ := os.ReadFile(tmp.Name())
				var co childOut
				json.Unmarshal(ob, &co)
				if co.Fail != nil {
					fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", p.ID, file, co.Fail.Error)
					return 1
				}
				fmt.Println("does not fail")
				return 0
			}
			c, err := s.parse(r.Case)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			o := Obs{knownSet: knownSet(known)}
			if e := runJudge(s, c, &o); e != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", p.ID, file, e)
				return 1
			}
			fmt.Println("does not fail")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such property or sub-check")
	return 2
}
