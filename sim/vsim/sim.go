// Package vsim is the runtime of the deterministic simulator.
//
// Instrumented code calls it at every synchronisation, shared memory access, clock reading, file access and
// map iteration. Tasks are real goroutines of which exactly one runs at any time. Every decision (who runs next,
// iteration order, fault) comes from the seed, or from the decision list of a replay.
package vsim

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- random numbers

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

func (r *RNG) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *RNG) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// P is true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.Intn(den) < num }

func Mix(a uint64, b ...uint64) uint64 {
	r := RNG{s: a}
	x := r.Next()
	for _, v := range b {
		r.s = x ^ (v * 0xff51afd7ed558ccd)
		x = r.Next()
	}
	return x
}

// ---------------------------------------------------------------- sites

var sites = []string{"?"}

// Register adds the site names of one instrumented package and returns the index of the first one.
func Register(names []string) int {
	b := len(sites)
	sites = append(sites, names...)
	return b
}

// SiteName is the name of an instrumented source location: "<file>:<line> <func> <what>".
func SiteName(id int) string {
	if id < 0 || id >= len(sites) {
		return "?"
	}
	return sites[id]
}

// SiteSig is SiteName without file and line: it survives edits elsewhere in the file.
func SiteSig(id int) string {
	s := SiteName(id)
	if i := strings.IndexByte(s, ' '); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ---------------------------------------------------------------- decisions

// Decision is one non default decision of a run. K is "s" (schedule: at point N of task T continue with task V)
// or the name of a data choice (N-th choice of that kind by task T takes alternative V).
type Decision struct {
	T int    `json:"t"`
	K string `json:"k"`
	N int    `json:"n"`
	V int    `json:"v"`
}

type dkey struct {
	t int
	k string
	n int
}

// ---------------------------------------------------------------- configuration

type Mode int

const (
	ModeRandom Mode = iota // switch with a fixed probability at every eligible point
	ModePCT                // random priorities with a few change points
	ModeRR                 // no preemption, switch only when blocked
)

// Config decides how a run is explored. It is a function of the seed, and part of a replay file.
type Config struct {
	Seed      uint64 `json:"seed"`
	Mode      Mode   `json:"mode"`
	Gap       int    `json:"gap"`      // ModeRandom: mean number of eligible points between switches
	SyncOnly  bool   `json:"synconly"` // only synchronisation operations are eligible
	Conflict  bool   `json:"conflict"` // only synchronisation and memory already used by another task are eligible
	Depth     int    `json:"depth"`    // ModePCT: number of priority change points
	Horizon   int    `json:"horizon"`  // ModePCT: change points are spread over this many points
	MaxSteps  int    `json:"maxsteps"`
	NowStep   int64  `json:"nowstep"`   // clock advance per reading of the clock, ns
	StartMono int64  `json:"startmono"` // monotonic clock at start, ns
	StartWall int64  `json:"startwall"` // wall clock at start, unix ns
	MapOrder  bool   `json:"maporder"`  // seeded map iteration order (otherwise sorted)
}

// ---------------------------------------------------------------- tasks

type taskState int

const (
	tsReady taskState = iota
	tsBlocked
	tsSleeping
	tsDone
)

type task struct {
	id        int
	name      string
	wake      chan struct{}
	state     taskState
	vc        vclock
	npts      int
	nchoice   map[string]int
	prio      int
	waitOn    string
	wakeAt    int64
	unwinding int
	started   bool
	fn        func()
	steps     int
	selCase   int
	selOK     bool
	selVal    unsafe.Pointer
}

// Issue is something the simulator itself found wrong: a race, a deadlock, a hang, a lock misuse.
type Issue struct {
	Class string // race, deadlock, hang, lock, crash
	Sig   string // stable description without line numbers
	Msg   string // full description
}

// Sim is one simulated execution.
type Sim struct {
	cfg    Config
	rng    *RNG // schedule
	drng   *RNG // data choices
	tasks  []*task
	cur    *task
	mainCh chan struct{}
	steps  int
	next   int // eligible points until the next random switch
	elig   int
	change map[int]bool
	lowest int

	replay    bool
	decisions map[dkey]int
	Recorded  []Decision

	dead    bool
	inMain  bool
	lent    bool // see lend
	helping bool // tasks run because the setup phase waits for them
	Issues  []Issue
	issued  map[string]bool

	mem     map[unsafe.Pointer]*cell
	memKeep []unsafe.Pointer

	mono   int64
	wall   int64
	timers []*simTimer

	chans map[unsafe.Pointer]*chanState

	FullHash   uint64 // hash of every scheduling point (determinism check)
	SwitchHash uint64 // hash of the context switches and choices only (distinct interleavings)
	Switches   int
	Preempts   int
	Points     int
	Choices    map[string]int // data choices taken with a non default value, by kind
	NowCalls   int
	LiveTasks  int

	seq      int64 // logical time for history intervals
	fairFrom int

	FS *FS
	// Trace, if set, receives one line per context switch.
	Trace func(string)
}

// S is the running simulation, nil outside of one.
var S *Sim

// New prepares a simulation and makes it current: instrumented code may run right away (setup phase, single threaded,
// by the caller), tasks run in Run.
func New(cfg Config, replay []Decision, isReplay bool) *Sim {
	closeLent()
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 300000
	}
	s := &Sim{cfg: cfg, rng: NewRNG(Mix(cfg.Seed, 1)), drng: NewRNG(Mix(cfg.Seed, 2)),
		mainCh: make(chan struct{}, 1), mem: map[unsafe.Pointer]*cell{}, issued: map[string]bool{},
		decisions: map[dkey]int{}, Choices: map[string]int{}, chans: map[unsafe.Pointer]*chanState{},
		replay: isReplay, mono: cfg.StartMono, wall: cfg.StartWall, fairFrom: min(cfg.MaxSteps/3, 100000)}
	for _, d := range replay {
		s.decisions[dkey{d.T, d.K, d.N}] = d.V
	}
	if s.FS == nil {
		s.FS = NewFS()
	}
	m := &task{id: 0, name: "main", nchoice: map[string]int{}, started: true}
	m.vc.set(0, 1)
	s.tasks = append(s.tasks, m)
	s.cur = m
	s.inMain = true
	s.change = map[int]bool{}
	if cfg.Mode == ModePCT {
		h := cfg.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < cfg.Depth; i++ {
			s.change[s.rng.Intn(h)] = true
		}
	}
	s.nextGap()
	outside = 0
	S = s
	latest = s
	return s
}

// lend makes a simulation for code that starts goroutines while no simulation runs. They run, one after the other, when
// the caller waits for them.
func lend() *Sim {
	clock, n := latest, outside
	s := New(Config{Gap: 1 << 30, SyncOnly: true, MaxSteps: maxOutside}, nil, false)
	s.lent = true
	s.FS = outsideFS
	latest, outside = clock, n
	return s
}

func closeLent() {
	if S != nil && S.lent {
		S.Close()
	}
}

// Close ends the simulation: instrumented code outside of one passes through.
func (s *Sim) Close() {
	for _, t := range s.tasks[1:] {
		if t.started && t.state != tsDone {
			// left over by the probing phase
			s.dead, s.inMain = true, false
			if n := s.pickAfterBlock(); n != nil {
				s.cur = n
				s.resume(n)
				<-s.mainCh
			}
			s.inMain = true
			break
		}
	}
	if S == s {
		S = nil
	}
}

func (s *Sim) nextGap() {
	g := s.cfg.Gap
	if g < 1 {
		g = 1
	}
	// geometric-like: uniform in [1, 2g-1] has mean g and bounded tails; mixed with an occasional long gap
	s.next = 1 + s.rng.Intn(2*g-1)
	if s.rng.P(1, 8) {
		s.next += s.rng.Intn(4 * g)
	}
}

// Spawn adds a task before Run. Everything done so far by the setup phase happens before the task.
func (s *Sim) Spawn(name string, fn func()) int {
	return s.spawn(name, fn).id
}

func (s *Sim) spawn(name string, fn func()) *task {
	t := &task{id: len(s.tasks), name: name, wake: make(chan struct{}, 1), fn: fn, nchoice: map[string]int{}}
	t.vc.join(&s.cur.vc)
	t.vc.set(t.id, 1)
	s.cur.vc.inc(s.cur.id)
	t.prio = 1000 + s.rng.Intn(1000000)
	s.tasks = append(s.tasks, t)
	return t
}

func (s *Sim) start(t *task) {
	t.started = true
	go func() {
		<-t.wake
		ok := false
		defer func() {
			if !ok && !s.dead {
				// a panic nobody caught, or Goexit called by the code itself
				if r := recover(); r != nil {
					s.issue("crash", "uncaught panic in "+t.name, fmt.Sprintf("uncaught panic in task %s: %v\n%s", t.name, r, stack()))
					s.dead = true
				}
			}
			s.finish(t)
		}()
		if !s.dead {
			t.fn()
		}
		ok = true
	}()
}

// Run executes all spawned tasks to completion (or until the run is declared dead) and returns.
// Afterwards the setup phase continues: everything the tasks did happens before it.
func (s *Sim) Run() {
	if len(s.tasks) == 1 {
		return
	}
	main := s.cur
	main.state = tsDone
	s.inMain = false
	if t := s.pickAfterBlock(); t != nil {
		s.cur = t
		s.resume(t)
		<-s.mainCh
	}
	s.inMain = true
	main.state = tsReady
	s.cur = main
	for _, t := range s.tasks[1:] {
		main.vc.join(&t.vc)
	}
	main.vc.inc(0)
}

// help lets the tasks started by the setup or probing phase go on when this phase itself has to wait.
// It returns false when nothing could be done.
func (s *Sim) help() bool {
	if s.dead || (len(s.enabled()) == 0 && !s.fireTimer()) {
		return false
	}
	main := s.cur
	main.npts++
	s.inMain, s.helping = false, true
	if t := s.pickAfterBlock(); t != nil {
		s.cur = t
		s.resume(t)
		<-s.mainCh
	}
	s.inMain, s.helping = true, false
	s.cur = main
	main.npts++
	if s.dead {
		s.unwind(main)
	}
	return true
}

func (s *Sim) resume(t *task) {
	if !t.started {
		s.start(t)
	}
	t.wake <- struct{}{}
}

// finish is called by a task that is over. It hands control to another one or back to Run.
func (s *Sim) finish(t *task) {
	t.state = tsDone
	t.npts++
	for {
		n := s.pickAfterBlock()
		if n == nil {
			s.mainCh <- struct{}{}
			return
		}
		s.cur = n
		s.resume(n)
		return
	}
}

// pickAfterBlock chooses a task when the current one cannot continue. nil: all tasks are done.
func (s *Sim) pickAfterBlock() *task {
	if s.dead {
		// drain: let every started task unwind, one after the other; drop the ones that never started
		for _, t := range s.tasks[1:] {
			if t.state != tsDone {
				if !t.started {
					t.state = tsDone
					continue
				}
				t.state = tsReady
				return t
			}
		}
		return nil
	}
	for {
		en := s.enabled()
		if len(en) > 0 {
			return s.choose(en, nil)
		}
		if s.fireTimer() {
			continue
		}
		break
	}
	if s.helping {
		return nil // the setup phase can go on
	}
	var blocked []string
	for _, t := range s.tasks[1:] {
		if t.state == tsBlocked {
			blocked = append(blocked, t.name+" waits for "+t.waitOn)
		}
	}
	if len(blocked) == 0 {
		return nil
	}
	sig := map[string]bool{}
	for _, t := range s.tasks[1:] {
		if t.state == tsBlocked {
			sig[t.waitOn] = true
		}
	}
	var sl []string
	for k := range sig {
		sl = append(sl, k)
	}
	sort.Strings(sl)
	s.issue("deadlock", "all remaining tasks wait: "+strings.Join(sl, ", "), "deadlock: "+strings.Join(blocked, "; "))
	s.dead = true
	return s.pickAfterBlock()
}

func (s *Sim) enabled() []*task {
	var en []*task
	for _, t := range s.tasks[1:] {
		if t.state == tsReady {
			en = append(en, t)
		}
	}
	return en
}

// choose decides which of the enabled tasks runs. cur is the running task if it could continue, nil if it blocked.
func (s *Sim) choose(en []*task, cur *task) *task {
	key := dkey{k: "s"}
	from := s.cur
	key.t = from.id
	key.n = from.npts
	def := en[0]
	if cur != nil {
		def = cur
	}
	pick := def
	if s.replay {
		if v, ok := s.decisions[key]; ok {
			for _, t := range en {
				if t.id == v {
					pick = t
				}
			}
		}
	} else if len(en) > 1 {
		switch s.cfg.Mode {
		case ModePCT:
			for _, t := range en {
				if t.prio > pick.prio || pick == nil {
					pick = t
				}
			}
		default:
			if cur != nil {
				// a switch was decided: any other enabled task
				k := s.rng.Intn(len(en) - 1)
				for _, t := range en {
					if t == cur {
						continue
					}
					if k == 0 {
						pick = t
						break
					}
					k--
				}
			} else {
				pick = en[s.rng.Intn(len(en))]
			}
		}
	}
	if pick != def {
		s.Recorded = append(s.Recorded, Decision{T: key.t, K: "s", N: key.n, V: pick.id})
	}
	return pick
}

const (
	kindSync = iota
	kindMem
	kindMemShared
)

// point is a scheduling point of the current task.
func (s *Sim) point(kind int, site int) {
	t := s.cur
	if s.dead {
		s.unwind(t)
		return
	}
	if s.inMain {
		return
	}
	s.steps++
	s.Points++
	t.npts++
	s.FullHash = (s.FullHash ^ uint64(t.id)<<32 ^ uint64(site)) * 0x100000001b3
	if s.steps > s.cfg.MaxSteps {
		s.issue("hang", StepLimit, fmt.Sprintf("hang: %d steps without finishing, last at %s in %s", s.steps, SiteName(site), t.name))
		s.dead = true
		s.unwind(t)
		return
	}
	want := false
	if s.replay {
		_, want = s.decisions[dkey{t.id, "s", t.npts}]
	} else if s.steps > s.fairFrom && s.steps%97 == 0 {
		want = true // fairness: nobody starves for ever
		s.cfg.Mode = ModeRandom
	} else {
		if kind != kindSync {
			if s.cfg.SyncOnly || (s.cfg.Conflict && kind != kindMemShared) {
				return
			}
		}
		s.elig++
		switch s.cfg.Mode {
		case ModeRandom:
			s.next--
			if s.next <= 0 {
				s.nextGap()
				want = true
			}
		case ModePCT:
			if s.change[s.elig] {
				s.lowest--
				t.prio = s.lowest
				want = true
			}
		}
	}
	if !want {
		return
	}
	en := s.enabled()
	if len(en) < 2 {
		return
	}
	n := s.choose(en, t)
	if n != t {
		s.Preempts++
		s.switchTo(t, n, site)
	}
}

func (s *Sim) switchTo(t, n *task, site int) {
	s.Switches++
	s.SwitchHash = (s.SwitchHash ^ uint64(t.id)<<40 ^ uint64(n.id)<<32 ^ uint64(site)) * 0x100000001b3
	if s.Trace != nil {
		s.Trace(fmt.Sprintf("%s -> %s at %s", t.name, n.name, SiteName(site)))
	}
	s.cur = n
	s.resume(n)
	<-t.wake
	s.cur = t
	if s.dead {
		s.unwind(t)
	}
}

// block parks the current task until another one makes it ready. why names what it waits for.
func (s *Sim) block(why string, site int) {
	t := s.cur
	if s.dead {
		s.unwind(t)
		return
	}
	t.state = tsBlocked
	t.waitOn = why
	t.npts++
	n := s.pickAfterBlock()
	if n == nil {
		if s.helping {
			s.mainCh <- struct{}{}
			<-t.wake
			s.cur = t
			if s.dead {
				s.unwind(t)
			}
		}
		return
	}
	if n == t { // possible after a timer, or when the run was just declared dead
		if s.dead {
			s.unwind(t)
		}
		return
	}
	s.switchTo(t, n, site)
}

// unwind ends a task of a dead run. Deferred functions still run, with the simulator out of the way.
func (s *Sim) unwind(t *task) {
	t.unwinding++
	if t.unwinding == 1 || t.unwinding > 10000 {
		if s.inMain {
			panic(deadMain{})
		}
		runtime.Goexit()
	}
}

type deadMain struct{}

// IsDead tells if the run was aborted (deadlock, hang, uncaught panic).
func (s *Sim) IsDead() bool { return s.dead }

func (s *Sim) issue(class, sig, msg string) {
	k := class + "|" + sig
	if s.issued[k] {
		return
	}
	s.issued[k] = true
	s.Issues = append(s.Issues, Issue{class, sig, msg})
}

// Report lets the harness and the instrumented runtime add an issue.
func (s *Sim) Report(class, sig, msg string) { s.issue(class, sig, msg) }

// Choose takes a data decision in [0,n): 0 is the default. num/den is the probability of a non default value.
func (s *Sim) Choose(kind string, n, num, den int) int {
	if n <= 1 || s.dead || s.lent {
		return 0
	}
	t := s.cur
	i := t.nchoice[kind]
	t.nchoice[kind] = i + 1
	v := 0
	if s.replay {
		v = s.decisions[dkey{t.id, kind, i}]
		if v < 0 || v >= n {
			v = 0
		}
	} else if s.drng.P(num, den) {
		v = 1 + s.drng.Intn(n-1)
	}
	if v != 0 {
		s.Recorded = append(s.Recorded, Decision{T: t.id, K: kind, N: i, V: v})
		s.Choices[kind]++
		s.SwitchHash = (s.SwitchHash ^ uint64(v)<<8 ^ hashString(kind)) * 0x100000001b3
	}
	s.FullHash = (s.FullHash ^ uint64(v)<<16 ^ hashString(kind)) * 0x100000001b3
	return v
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

// Seq is a logical time stamp, strictly increasing over the run.
func (s *Sim) Seq() int64 {
	s.seq++
	return s.seq
}

// Quiet runs f with the simulator out of the way (no scheduling points, no race detection). For oracles.
func (s *Sim) Quiet(f func()) {
	old := S
	S = nil
	defer func() {
		closeLent()
		S = old
	}()
	f()
}

// Point is a scheduling point for harness code (client side steps, stubs).
func Point(site int) {
	if s := S; s != nil {
		s.point(kindSync, site)
	}
}

// outside counts steps of instrumented code while no simulation runs; New resets it.
var outside int

const maxOutside = 20_000_000

// StepLimit is the signature of a run that was stopped because it does not end.
const StepLimit = "no progress: step limit reached"

// Tick counts a step at loop heads and function entries, so that endless loops end as a hang.
func Tick(site int) {
	s := S
	if s == nil {
		if outside++; outside > maxOutside {
			outside = 0
			panic(fmt.Sprintf("no progress: %d steps outside of the simulation, last at %s", maxOutside, SiteName(site)))
		}
		return
	}
	if s.dead {
		s.unwind(s.cur)
		return
	}
	s.steps++
	lim := s.cfg.MaxSteps
	if s.inMain {
		lim *= 20 // the setup and probing phases share the counter
	}
	if s.steps > lim {
		s.issue("hang", StepLimit, fmt.Sprintf("hang: %d steps without finishing, last at %s in %s", s.steps, SiteName(site), s.cur.name))
		s.dead = true
		s.unwind(s.cur)
	} else if !s.inMain && s.steps > s.fairFrom && s.steps%97 == 0 {
		s.steps--
		s.point(kindSync, site)
	}
}

// Go starts a task from instrumented code (go statement).
func Go(site int, fn func()) {
	s := S
	if s == nil {
		s = lend()
	}
	t := s.spawn(fmt.Sprintf("go%d", len(s.tasks)), fn)
	_ = t
	s.point(kindSync, site)
}

// Yield is runtime.Gosched.
func Yield() {
	s := S
	if s == nil {
		return
	}
	s.point(kindSync, 0)
	if s.inMain || s.dead {
		return
	}
	en := s.enabled()
	if len(en) > 1 {
		// always let somebody else go: lowest id after the current one, round robin
		t := s.cur
		n := en[0]
		for _, x := range en {
			if x.id > t.id {
				n = x
				break
			}
		}
		if n != t {
			s.switchTo(t, n, 0)
		}
	}
}

// CurrentTask is the id of the running task (0 = setup phase).
func CurrentTask() int {
	if S == nil {
		return 0
	}
	return S.cur.id
}

func stack() string {
	b := make([]byte, 4096)
	return string(b[:runtime.Stack(b, false)])
}

// Stack is the stack of the caller, for reports.
func Stack() string { return stack() }

// ---------------------------------------------------------------- package state

var resets []func()

// OnReset registers the function that puts the package variables of one instrumented package back to their initial values.
func OnReset(f func()) { resets = append(resets, f) }

var pkgVars []func() []any

// OnVars registers the package variables of one instrumented package.
func OnVars(f func() []any) { pkgVars = append(pkgVars, f) }

// PackageVars gives pointers to all package variables of the instrumented packages.
func PackageVars() []any {
	var l []any
	for _, f := range pkgVars {
		l = append(l, f()...)
	}
	return l
}

// ResetGlobals makes a run independent of the runs before it in the same process.
func ResetGlobals() {
	closeLent()
	latest = nil
	outside = 0
	clear(keyNum)
	ResetPackages()
}

// ResetPackages puts the package variables of the instrumented packages back to their initial values.
func ResetPackages() {
	for _, f := range resets {
		f()
	}
}

// Zero clears a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// Again runs one initialisation of a package again. One that may only run once in a process keeps its first result.
func Again(f func()) {
	defer func() { _ = recover() }()
	f()
}
