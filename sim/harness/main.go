package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"vsim"
)

// propDef says which worlds decide a property and how many runs each gets.
type propDef struct {
	ID     string
	Worlds []string
	Quick  int // runs in the quick tier
	Deep   int // runs in the thorough tier
	Real   string
	Stub   string
	Rule   string
	Assume []string
	Order  bool // a seeded map order makes a run non-trivial
}

var props = map[string]*propDef{}

func main() {
	if len(os.Args) < 2 {
		die("usage: harness check|worker|replay|list ...")
	}
	if err := vsim.CheckClock(); err != nil {
		die("simulated clock: %v", err)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "minimise":
		minimise(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "survey":
		survey(os.Args[2:])
	case "list":
		var l []string
		for p := range props {
			l = append(l, p)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, " "))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(2)
}

// ---------------------------------------------------------------- one seed

// makeScenario is a pure function of property, seed and index.
func makeScenario(p *propDef, seed uint64, i int, thorough bool) *Scenario {
	s := vsim.Mix(seed, hash(p.ID), uint64(i))
	r := vsim.NewRNG(s)
	w := worlds[p.Worlds[i%len(p.Worlds)]]
	sc := w.Gen(r, p.ID, thorough)
	sc.World = w.Name
	cfg := simConfig(r, s)
	cfg.NowStep = sc.C["nowstep"]
	if v, ok := sc.C["maxsteps"]; ok {
		cfg.MaxSteps = int(v)
	}
	if v, ok := sc.C["wall0"]; ok {
		cfg.StartWall = v
	}
	sc.Sim = cfg
	return sc
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func hit(res *Result, prop string, known []finding) (*Violation, *finding) {
	var kn *finding
	for i := range res.Viols {
		v := &res.Viols[i]
		for _, p := range v.Props {
			if p == prop {
				if k := isKnown(known, prop, v); k != nil {
					kn = k
					continue
				}
				return v, nil
			}
		}
	}
	return nil, kn
}

// ---------------------------------------------------------------- known findings

type finding struct{ prop, sig, text string }

func readKnown(file string) []finding {
	var l []finding
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, s := range strings.Split(string(b), "\n") {
		// known: property=<id> sig=<class>|<signature> :: <what fails>
		if !strings.HasPrefix(s, "known: property=") {
			continue
		}
		s = strings.TrimPrefix(s, "known: property=")
		i := strings.Index(s, " sig=")
		j := strings.Index(s, " :: ")
		if i < 0 || j < i {
			continue
		}
		l = append(l, finding{s[:i], s[i+5 : j], s[j+4:]})
	}
	return l
}

func isKnown(known []finding, prop string, v *Violation) *finding {
	for i := range known {
		if known[i].prop == prop && known[i].sig == v.Class+"|"+v.Sig {
			return &known[i]
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

type workerReport struct {
	Runs     int
	Next     int // first index not run
	Fail     int // failing index, -1 if none
	Known    map[string]int
	Points   int64
	Preempts int64
	Switches int64
	SimSec   float64
	Faults   map[string]int
	Probes   map[string]int
	Incon    int
	Rechecks int
	Mismatch string
	Samples  []string
	Active   int // runs with at least one preemption or fault
	Worlds   map[string]int
	Steps    int64
	Ops      int64
	Choices  map[string]int
}

var beat atomic.Int64

const watchdogSays = "harness: watchdog: run"
const runLimit = 40 * time.Second

func watchdog(limit time.Duration) {
	last, t := int64(-1), time.Now()
	for {
		time.Sleep(time.Second)
		b := beat.Load()
		if b != last {
			last, t = b, time.Now()
		} else if time.Since(t) > limit {
			buf := make([]byte, 1<<20)
			fmt.Fprintf(os.Stderr, "%s %d does not end\n%s\n", watchdogSays, b, buf[:runtime.Stack(buf, true)])
			os.Exit(3)
		}
	}
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	to := fs.Int("to", 0, "")
	thorough := fs.Bool("thorough", false, "")
	known := fs.String("known", "", "")
	hashes := fs.String("hashes", "", "file for the interleaving hashes")
	wall := fs.Float64("wall", 0, "wall limit in seconds")
	recheck := fs.Int("recheck", 64, "every n-th run is done twice")
	each := fs.String("each", "", "file for the hash and the outcome of every run")
	procs := fs.Int("procs", 1, "GOMAXPROCS")
	fs.Parse(args)
	runtime.GOMAXPROCS(*procs)
	var eachRun bytes.Buffer
	if os.Getenv("GOGC") == "" {
		debug.SetGCPercent(400)
	}
	p := props[*prop]
	kn := readKnown(*known)
	rep := workerReport{Fail: -1, Known: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Worlds: map[string]int{}, Choices: map[string]int{}}
	var limit atomic.Int64
	limit.Store(int64(*to))
	go func() { // the master lowers the limit once another worker has found something
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			var n int64
			if _, err := fmt.Sscan(sc.Text(), &n); err == nil && n < limit.Load() {
				limit.Store(n)
			}
		}
	}()
	go watchdog(runLimit)
	start := time.Now()
	hs := map[uint64]bool{}
	os_ := map[uint64]bool{}
	i := *from
	for ; int64(i) < limit.Load(); i += *step {
		if *wall > 0 && time.Since(start).Seconds() > *wall {
			break
		}
		beat.Store(int64(i))
		fmt.Fprintf(os.Stdout, "i %d\n", i)
		sc := makeScenario(p, *seed, i, *thorough)
		res := patient(sc, nil, false, false, *prop)
		rep.Runs++
		if *each != "" {
			fmt.Fprintf(&eachRun, "%d %016x %016x %d\n", i, res.FullHash, res.Outcome, len(res.Viols))
		}
		rep.Worlds[sc.World+fmt.Sprintf("-v%d", sc.Ver)]++
		rep.Points += int64(res.Points)
		rep.Preempts += int64(res.Preempts)
		rep.Switches += int64(res.Switches)
		rep.SimSec += float64(res.SimNs) / 1e9
		rep.Ops += int64(sc.ops())
		act := res.Preempts > 0
		for k, n := range res.Faults {
			rep.Faults[k] += n
			act = true
		}
		for k, n := range res.Choices {
			rep.Choices[k] += n
			act = act || p.Order
		}
		for k, n := range res.Probes {
			rep.Probes[k] += n
		}
		if act {
			rep.Active++
			hs[vsim.Mix(res.Switch, sc.hash())] = true
		}
		os_[res.Outcome] = true
		if res.Incon {
			rep.Incon++
		}
		if len(rep.Samples) < 2 && act && (res.Preempts > 1 || res.Points == 0) && i > *to/3 {
			rep.Samples = append(rep.Samples, fmt.Sprintf("seed %d index %d: %.900s", *seed, i, sc.String()))
		}
		if rep.Runs%*recheck == 1 {
			rep.Rechecks++
			sc2 := makeScenario(p, *seed, i, *thorough)
			sc2.Sim.MaxSteps = sc.Sim.MaxSteps
			r2 := execute(sc2, nil, false, false, *prop)
			r3 := execute(sc2, res.Decisions, true, false, *prop)
			if r2.FullHash != res.FullHash || r2.Outcome != res.Outcome || len(r2.Viols) != len(res.Viols) {
				rep.Mismatch = fmt.Sprintf("index %d: two runs of one seed differ", i)
				break
			}
			if r3.FullHash != res.FullHash || r3.Outcome != res.Outcome || len(r3.Viols) != len(res.Viols) {
				rep.Mismatch = fmt.Sprintf("index %d: replay of the decisions differs from the run", i)
				break
			}
		}
		v, k := hit(res, *prop, kn)
		if k != nil {
			rep.Known[k.text]++
		}
		if v != nil {
			rep.Fail = i
			break
		}
	}
	rep.Next = i
	if *each != "" {
		if err := os.WriteFile(*each, eachRun.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
	if *hashes != "" {
		var b bytes.Buffer
		for h := range hs {
			fmt.Fprintf(&b, "h %016x\n", h)
		}
		for h := range os_ {
			fmt.Fprintf(&b, "o %016x\n", h)
		}
		if err := os.WriteFile(*hashes, b.Bytes(), 0644); err != nil {
			die("%v", err)
		}
	}
	b, _ := json.Marshal(rep)
	fmt.Printf("report %s\n", b)
}

// one runs a single index, for debugging.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("i", 0, "")
	thorough := fs.Bool("thorough", false, "")
	fs.Parse(args)
	p := props[*prop]
	go watchdog(runLimit)
	sc := makeScenario(p, *seed, *idx, *thorough)
	res := patient(sc, nil, false, true, *prop)
	fmt.Println(sc)
	for _, l := range res.Log {
		fmt.Println("  ", l)
	}
	for _, v := range res.Viols {
		fmt.Printf("%v %s | %s\n%s\n", v.Props, v.Class, v.Sig, v.Msg)
	}
	fmt.Printf("hash %x outcome %x points %d preempts %d\n", res.FullHash, res.Outcome, res.Points, res.Preempts)
}

// survey runs many indexes and lists the kinds of violations, for debugging.
func survey(args []string) {
	fs := flag.NewFlagSet("survey", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 2000, "")
	from := fs.Int("from", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	cnt, first := map[string]int{}, map[string]int{}
	if f := os.Getenv("CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	incon := 0
	for i := *from; i < *from+*n; i++ {
		sc := makeScenario(props[*prop], *seed, i, false)
		res := patient(sc, nil, false, false, *prop)
		if res.Incon {
			incon++
		}
		seen := map[string]bool{}
		for _, v := range res.Viols {
			k := fmt.Sprintf("v%d %s|%s %v", sc.Ver, v.Class, v.Sig, v.Props)
			if seen[k] {
				continue
			}
			seen[k] = true
			if cnt[k] == 0 {
				first[k] = i
			}
			cnt[k]++
		}
	}
	var l []string
	for k, c := range cnt {
		l = append(l, fmt.Sprintf("%6d first %6d %s", c, first[k], k))
	}
	sort.Sort(sort.Reverse(sort.StringSlice(l)))
	fmt.Println(strings.Join(l, "\n"))
	fmt.Println("inconclusive", incon)
}

// ---------------------------------------------------------------- replay files

// ReplayFile is a minimised failing run.
type ReplayFile struct {
	Property  string          `json:"property"`
	Seed      uint64          `json:"verif_seed"`
	Index     int             `json:"index"`
	Class     string          `json:"class"`
	Sig       string          `json:"signature"`
	Message   string          `json:"message"`
	Summary   string          `json:"summary"`
	Scenario  *Scenario       `json:"scenario"`
	Decisions []vsim.Decision `json:"decisions"`
	Switches  []string        `json:"switches"`
	History   string          `json:"history,omitempty"`
	Hash      string          `json:"hash"`
	Original  string          `json:"original"`
	Crash     bool            `json:"crash,omitempty"` // the process dies: replayed from seed and index
	Thorough  bool            `json:"thorough,omitempty"`
}

// dies runs one index in a process of its own and returns what it printed if it died.
func dies(exe, prop string, seed uint64, i int, thorough bool) string {
	c := exec.Command(exe, "one", "-prop", prop, "-seed", fmt.Sprint(seed), "-i", fmt.Sprint(i), fmt.Sprintf("-thorough=%v", thorough))
	o, err := c.CombinedOutput()
	if err == nil {
		return ""
	}
	return string(o)
}

// shrink has the failing run minimised; if that does not come to an end the run is recorded as it was found.
func shrink(exe string, args ...string) (string, error) {
	o, err := exec.Command(exe, append([]string{"minimise"}, args...)...).CombinedOutput()
	if err != nil {
		o, err = exec.Command(exe, append([]string{"minimise", "-whole"}, args...)...).CombinedOutput()
	}
	return string(o), err
}

func minimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	idx := fs.Int("i", 0, "")
	thorough := fs.Bool("thorough", false, "")
	known := fs.String("known", "", "")
	whole := fs.Bool("whole", false, "keep the run as it was found")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	go watchdog(runLimit)
	p := props[*prop]
	kn := readKnown(*known)
	sc := makeScenario(p, *seed, *idx, *thorough)
	res := patient(sc, nil, false, false, *prop)
	v, _ := hit(res, *prop, kn)
	if v == nil {
		die("no violation at index %d", *idx)
	}
	min, dec := sc, res.Decisions
	if !*whole {
		m := &minimiser{prop: *prop, class: v.Class, known: kn, until: time.Now().Add(25 * time.Second)}
		if *thorough {
			m.until = time.Now().Add(90 * time.Second)
		}
		min, dec = m.run(sc, res.Decisions)
	}
	fin := patient(min, dec, true, true, *prop)
	var fv *Violation
	for i := range fin.Viols {
		if fin.Viols[i].Class == v.Class && has(fin.Viols[i].Props, *prop) {
			fv = &fin.Viols[i]
			break
		}
	}
	if fv == nil {
		// keep the run as it was found
		min, dec, fv = sc, res.Decisions, v
		fin = patient(min, dec, true, true, *prop)
	}
	rf := &ReplayFile{Property: *prop, Seed: *seed, Index: *idx, Original: sc.String()}
	rf.Class, rf.Sig, rf.Message = fv.Class, fv.Sig, fv.Msg
	rf.Scenario, rf.Decisions, rf.Switches = min, dec, fin.Log
	rf.Summary = min.String()
	rf.Hash = fmt.Sprintf("%016x", fin.FullHash)
	writeReplay(fs.Arg(0), rf)
}

func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		die("%v", err)
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	runtime.GOMAXPROCS(1)
	if rf.Crash {
		exe, err := os.Executable()
		if err != nil {
			die("%v", err)
		}
		if msg := dies(exe, rf.Property, rf.Seed, rf.Index, rf.Thorough); fatalClass(msg) == rf.Sig {
			fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", tail(msg, 3000), rf.Property, fs.Arg(0))
			return 1
		}
		fmt.Println("not reproduced: the process does not die")
		return 0
	}
	go watchdog(runLimit)
	res := execute(rf.Scenario, rf.Decisions, true, true, rf.Property)
	if !*quiet {
		fmt.Println(rf.Scenario)
		for _, l := range res.Log {
			fmt.Println("  ", visible(l))
		}
	}
	for _, v := range res.Viols {
		for _, p := range v.Props {
			if p == rf.Property && v.Class == rf.Class {
				if !*quiet {
					fmt.Print(visible(fmt.Sprintf("%s: %s\n%s\n", v.Class, v.Sig, v.Msg)))
				}
				h := fmt.Sprintf("%016x", res.FullHash)
				if h != rf.Hash {
					fmt.Printf("same violation, other execution (hash %s, recorded %s)\n", h, rf.Hash)
				} else {
					fmt.Printf("reproduced exactly (hash %s)\n", h)
				}
				fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, fs.Arg(0))
				return 1
			}
		}
	}
	fmt.Println("not reproduced: the property holds in this execution")
	return 0
}

// ---------------------------------------------------------------- minimise

type minimiser struct {
	prop  string
	class string
	known []finding
	tries int
	until time.Time
}

func (m *minimiser) bad(res *Result) bool {
	for i := range res.Viols {
		v := &res.Viols[i]
		if v.Class != m.class || isKnown(m.known, m.prop, v) != nil {
			continue
		}
		for _, p := range v.Props {
			if p == m.prop {
				return true
			}
		}
	}
	return false
}

func (m *minimiser) late() bool { return time.Now().After(m.until) }

// try looks for a failing execution of a scenario: with the given decisions first, then with fresh schedules.
func (m *minimiser) try(sc *Scenario, dec []vsim.Decision, fresh int) ([]vsim.Decision, bool) {
	if m.late() {
		return nil, false
	}
	m.tries++
	beat.Add(1)
	if res := execute(sc, dec, true, false, m.prop); m.bad(res) {
		return res.Decisions, true
	}
	for k := 0; k < fresh && !m.late(); k++ {
		s2 := sc.clone()
		r := vsim.NewRNG(vsim.Mix(sc.Sim.Seed, 77, uint64(k)))
		cfg := simConfig(r, vsim.Mix(sc.Sim.Seed, 78, uint64(k)))
		cfg.NowStep, cfg.MaxSteps, cfg.StartWall, cfg.StartMono = sc.Sim.NowStep, sc.Sim.MaxSteps, sc.Sim.StartWall, sc.Sim.StartMono
		s2.Sim = cfg
		m.tries++
		if res := execute(s2, nil, false, false, m.prop); m.bad(res) {
			// check that the decisions alone reproduce it
			if r3 := execute(sc, res.Decisions, true, false, m.prop); m.bad(r3) {
				return r3.Decisions, true
			}
		}
	}
	return nil, false
}

func (m *minimiser) run(sc *Scenario, dec []vsim.Decision) (*Scenario, []vsim.Decision) {
	cur := sc.clone()
	lists := func(s *Scenario) []*[]Op {
		l := []*[]Op{&s.Pre}
		for i := range s.Tasks {
			l = append(l, &s.Tasks[i])
		}
		return append(l, &s.Post)
	}
	for round := 0; round < 4 && !m.late(); round++ {
		changed := false
		for li := range lists(cur) {
			// whole list, halves, then single operations, from the end
			for sz := len(*lists(cur)[li]); sz >= 1; sz /= 2 {
				for at := len(*lists(cur)[li]) - sz; at >= 0 && !m.late(); {
					c2 := cur.clone()
					l := lists(c2)[li]
					*l = append(append([]Op(nil), (*l)[:at]...), (*l)[at+sz:]...)
					fresh := 12
					if c2.ops() < 8 {
						fresh = 60
					}
					if d, ok := m.try(c2, dec, fresh); ok {
						cur, dec, changed = c2, d, true
						if at > len(*lists(cur)[li])-sz {
							at = len(*lists(cur)[li]) - sz
						}
					} else {
						at--
						if sz > 1 {
							at -= sz - 1
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// fewer decisions
	for sz := (len(dec) + 1) / 2; sz >= 1 && !m.late(); {
		removed := false
		for at := 0; at < len(dec) && !m.late(); {
			end := at + sz
			if end > len(dec) {
				end = len(dec)
			}
			d2 := append(append([]vsim.Decision(nil), dec[:at]...), dec[end:]...)
			if d, ok := m.try(cur, d2, 0); ok && len(d) < len(dec) {
				dec, removed = d, true
			} else {
				at += sz
			}
		}
		if sz == 1 && !removed {
			break
		}
		if sz > 1 {
			sz /= 2
		}
	}
	return cur, dec
}

// ---------------------------------------------------------------- check

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	known := fs.String("known", "", "")
	out := fs.String("out", "", "directory for replay files")
	evidence := fs.String("evidence", "", "evidence file")
	tmp := fs.String("tmp", "", "scratch directory")
	workers := fs.Int("workers", 0, "")
	wall := fs.Float64("wall", 0, "wall limit of the search in seconds")
	runs := fs.Int("runs", 0, "override the number of runs")
	build := fs.Float64("built", 0, "seconds spent building")
	fs.Parse(args)
	start := time.Now()
	p := props[*prop]
	if p == nil {
		die("no such property: %s", *prop)
	}
	thorough := *tier == "thorough"
	total := p.Quick
	if thorough {
		total = p.Deep
	}
	if *runs > 0 {
		total = *runs
	}
	n := *workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	limit := *wall
	if limit == 0 {
		limit = 75
		if thorough {
			limit = 540
		}
	}
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d\n", *prop, *tier, *seed, total, n)
	exe, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	type wk struct {
		cmd  *exec.Cmd
		rep  *workerReport
		in   *os.File
		last int
		err  error
		errb bytes.Buffer
		hf   string
	}
	ws := make([]*wk, n)
	done := make(chan int, n)
	launch := func(k, from, to int) {
		w := &wk{last: -1, hf: filepath.Join(*tmp, fmt.Sprintf("hashes.%d", k))}
		ws[k] = w
		w.cmd = exec.Command(exe, "worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-from", fmt.Sprint(from), "-step", fmt.Sprint(n), "-to", fmt.Sprint(to),
			"-known", *known, "-hashes", w.hf, "-wall", fmt.Sprint(max(limit-time.Since(start).Seconds(), 1)), fmt.Sprintf("-thorough=%v", thorough))
		pr, pw, err := os.Pipe()
		if err != nil {
			die("%v", err)
		}
		w.cmd.Stdin = pr
		w.in = pw
		w.cmd.Stderr = &w.errb
		so, err := w.cmd.StdoutPipe()
		if err != nil {
			die("%v", err)
		}
		if err := w.cmd.Start(); err != nil {
			die("%v", err)
		}
		pr.Close()
		go func(k int) {
			sc := bufio.NewScanner(so)
			sc.Buffer(make([]byte, 1<<20), 1<<26)
			for sc.Scan() {
				t := sc.Text()
				if strings.HasPrefix(t, "i ") {
					fmt.Sscan(t[2:], &w.last)
				} else if strings.HasPrefix(t, "report ") {
					var r workerReport
					if err := json.Unmarshal([]byte(t[7:]), &r); err == nil {
						w.rep = &r
					}
				}
			}
			w.err = w.cmd.Wait()
			done <- k
		}(k)
	}
	for k := range ws {
		launch(k, k, total)
	}
	fail := -1
	crashed := map[int]string{}
	undecided := 0
	var mismatch string
	for left := n; left > 0; left-- {
		k := <-done
		w := ws[k]
		f := -1
		if w.rep == nil {
			// the worker died: an error, unless the same run kills a fresh process in the same way
			crashMsg := fmt.Sprintf("worker %d died at index %d: %v\n%s", k, w.last, w.err, w.errb.String())
			if fatalClass(w.errb.String()) == "" && strings.Contains(w.errb.String(), watchdogSays) && undecided < 4 {
				// the harness could not judge this run in time: go on behind it
				fmt.Fprintln(os.Stderr, firstN(strings.SplitAfterN(crashMsg, "\n", 4), 3))
				undecided++
				to := total
				if fail >= 0 {
					to = fail
				}
				w.in.Close()
				launch(k, w.last+n, to)
				left++
				continue
			}
			if fatalClass(w.errb.String()) == "" || w.last < 0 {
				for _, o := range ws {
					o.cmd.Process.Kill()
				}
				fmt.Fprintln(os.Stderr, tail(crashMsg, 8000))
				return 2
			}
			f = w.last
			crashed[f] = crashMsg
		} else if w.rep.Mismatch != "" {
			mismatch = w.rep.Mismatch
		} else if w.rep.Fail >= 0 {
			f = w.rep.Fail
		}
		if f >= 0 && (fail < 0 || f < fail) {
			fail = f
			for _, o := range ws {
				fmt.Fprintf(o.in, "%d\n", fail)
			}
		}
	}
	for _, w := range ws {
		w.in.Close()
	}
	if mismatch != "" {
		// a violation that a fresh process reproduces still counts
		fmt.Fprintf(os.Stderr, "harness: not deterministic: %s\n", mismatch)
		if fail < 0 {
			return 2
		}
	}
	// aggregate
	tot := workerReport{Known: map[string]int{}, Faults: map[string]int{}, Probes: map[string]int{}, Worlds: map[string]int{}, Choices: map[string]int{}}
	inter, outc := map[string]bool{}, map[string]bool{}
	for _, w := range ws {
		if w.rep == nil {
			continue
		}
		r := w.rep
		tot.Runs += r.Runs
		tot.Points += r.Points
		tot.Preempts += r.Preempts
		tot.Switches += r.Switches
		tot.SimSec += r.SimSec
		tot.Incon += r.Incon
		tot.Rechecks += r.Rechecks
		tot.Active += r.Active
		tot.Ops += r.Ops
		tot.Samples = append(tot.Samples, r.Samples...)
		add := func(a, b map[string]int) {
			for k, v := range b {
				a[k] += v
			}
		}
		add(tot.Known, r.Known)
		add(tot.Faults, r.Faults)
		add(tot.Probes, r.Probes)
		add(tot.Choices, r.Choices)
		add(tot.Worlds, r.Worlds)
		if b, err := os.ReadFile(w.hf); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "h ") {
					inter[l] = true
				} else if strings.HasPrefix(l, "o ") {
					outc[l] = true
				}
			}
		}
	}
	if tot.Runs == 0 && len(crashed) == 0 {
		die("no run was made")
	}
	searchWall := time.Since(start).Seconds()
	viol := 0
	var rf *ReplayFile
	rpath := ""
	if fail >= 0 {
		viol = 1
		sc := makeScenario(p, *seed, fail, thorough)
		rf = &ReplayFile{Property: *prop, Seed: *seed, Index: fail, Original: sc.String()}
		rpath = filepath.Join(*out, fmt.Sprintf("%s-%s-seed%d-%d.json", *prop, *tier, *seed, fail))
		if err := os.MkdirAll(*out, 0755); err != nil {
			die("%v", err)
		}
		if crashMsg, ok := crashed[fail]; ok {
			rf.Crash, rf.Scenario, rf.Class, rf.Message = true, sc, "fatal", tail(crashMsg, 8000)
			rf.Sig = fatalClass(crashMsg)
			// must happen again in a fresh process
			rf.Thorough = thorough
			if fatalClass(dies(exe, *prop, *seed, fail, thorough)) != rf.Sig {
				fmt.Fprintf(os.Stderr, "harness: a worker died, but not again\n%s\n", tail(crashMsg, 8000))
				return 2
			}
			writeReplay(rpath, rf)
		} else {
			// in a process of its own: a smaller scenario may end otherwise than this one
			o, err := shrink(exe, "-prop", *prop, "-seed", fmt.Sprint(*seed), "-i", fmt.Sprint(fail), "-known", *known, fmt.Sprintf("-thorough=%v", thorough), rpath)
			if err != nil {
				fmt.Fprintf(os.Stderr, "harness: index %d failed in the worker but not again: %v\n%s\n", fail, err, tail(o, 3000))
				return 2
			}
			b, err := os.ReadFile(rpath)
			if err != nil {
				die("%v", err)
			}
			rf = &ReplayFile{}
			if err := json.Unmarshal(b, rf); err != nil {
				die("%v", err)
			}
			c := exec.Command(exe, "replay", "-q", rpath)
			ob, err := c.CombinedOutput()
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 1 || !strings.Contains(string(ob), "reproduced exactly") {
				fmt.Fprintf(os.Stderr, "harness: the replay in a fresh process does not fail in the same way: %v\n%s\n", err, ob)
				return 2
			}
		}
	}
	// evidence
	hours := searchWall / 3600
	cov := map[string]any{
		"evaluations":          tot.Runs,
		"distinct_nontrivial":  len(inter),
		"rule":                 "one evaluation = one simulated execution, a pure function of (VERIF_SEED, index). Non-trivial: at least one preemption or one fault (or, where the order of maps is what matters, one non-default map order) happened in it. Distinct: the scenario together with the sequence of context switches (from, to, source location) and non-default choices differs. " + p.Rule,
		"samples":              firstN(tot.Samples, 4),
		"distinct_outcomes":    len(outc),
		"scheduling_points":    tot.Points,
		"context_switches":     tot.Switches,
		"preemptions":          tot.Preempts,
		"operations":           tot.Ops,
		"simulated_seconds":    tot.SimSec,
		"seeds_per_hour":       int64(float64(tot.Runs) / hours), // one run per seed
		"seeded_map_orders":    tot.Choices["map"],
		"faults_injected":      tot.Faults,
		"probes":               tot.Probes,
		"runs_by_world":        tot.Worlds,
		"determinism_rechecks": tot.Rechecks,
		"inconclusive_runs":    tot.Incon + undecided,
		"real_code":            p.Real,
		"stubs":                p.Stub,
		"planned_runs":         total,
	}
	if rf != nil {
		cov["violation"] = map[string]any{"class": rf.Class, "signature": rf.Sig, "replay": rpath, "minimised": rf.Summary}
	}
	if len(tot.Known) > 0 {
		cov["known_findings_seen"] = tot.Known
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"wall_s":      time.Since(start).Seconds() + *build,
		"assumptions": append([]string{"sequentially consistent interleavings of the instrumented accesses; weaker behaviours are reported as data races instead", "library code (fmt, strings, regexp, encoding/xml) runs as is, without scheduling points inside"}, p.Assume...),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *evidence != "" {
		if err := os.MkdirAll(filepath.Dir(*evidence), 0755); err != nil {
			die("%v", err)
		}
		if err := os.WriteFile(*evidence, append(b, '\n'), 0644); err != nil {
			die("%v", err)
		}
	}
	fmt.Printf("runs=%d distinct=%d outcomes=%d points=%d preemptions=%d simulated=%.1fs inconclusive=%d rechecked=%d wall=%.1fs\n",
		tot.Runs, len(inter), len(outc), tot.Points, tot.Preempts, tot.SimSec, tot.Incon, tot.Rechecks, time.Since(start).Seconds())
	var kk []string
	for k := range tot.Known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
	}
	if rf != nil {
		fmt.Print(visible(fmt.Sprintf("%s: %s\n%s\nminimised: %s\n", rf.Class, rf.Sig, rf.Message, rf.Summary)))
		for _, s := range rf.Switches {
			fmt.Println("  ", visible(s))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rpath)
		return 1
	}
	if tot.Incon*4 > tot.Runs {
		fmt.Fprintf(os.Stderr, "harness: %d of %d runs were inconclusive\n", tot.Incon, tot.Runs)
		return 2
	}
	return 0
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func writeReplay(p string, rf *ReplayFile) {
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}

// fatalClass recognises a death of the process that the program under test caused.
func fatalClass(s string) string {
	switch {
	case strings.Contains(s, watchdogSays):
		// an endless loop of the program that the simulator cannot interrupt
		for _, g := range strings.Split(s[strings.Index(s, watchdogSays):], "\n\n") {
			i := strings.Index(g, "goroutine ")
			if h := firstLine(g[max(i, 0):]); i >= 0 && (strings.Contains(h, "[runnable") || strings.Contains(h, "[running")) && fromRepo(g) {
				return "endless loop"
			}
		}
	case strings.Contains(s, "stack overflow"), strings.Contains(s, "goroutine stack exceeds"):
		// a recursion of the harness itself is not the program's
		if i := strings.Index(s, "frames elided"); i >= 0 {
			s = s[:i]
		}
		if strings.Contains(s, "\ngithub.com/webability-go/xcore") {
			return "stack overflow"
		}
	case strings.Contains(s, "concurrent map"):
		return "concurrent map access"
	}
	return ""
}

// visible replaces what a terminal or a log reader may trip over.
func visible(s string) string {
	return strings.Map(func(r rune) rune {
		if r != '\n' && r != '\t' && (r < ' ' || r == 0x7f || r == 0xfffd) {
			return '?'
		}
		return r
	}, s)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstN(l []string, n int) []string {
	if len(l) > n {
		l = l[:n]
	}
	if l == nil {
		l = []string{}
	}
	return l
}
