package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"runtime/debug"
	"sort"
	"strings"

	"vsim"
)

// Op is one client operation (or one simulated fault event) of a scenario.
type Op struct {
	K string `json:"k"`
	A string `json:"a,omitempty"`
	B string `json:"b,omitempty"`
	N int64  `json:"n,omitempty"`
	M int64  `json:"m,omitempty"`
}

func (o Op) String() string {
	s := o.K
	if o.A != "" {
		s += " " + o.A
	}
	if o.B != "" {
		s += fmt.Sprintf(" %.60q", o.B)
	}
	if o.N != 0 {
		s += fmt.Sprintf(" %d", o.N)
	}
	if o.M != 0 {
		s += fmt.Sprintf(" %d", o.M)
	}
	return s
}

// Scenario is everything a run does except the decisions of the simulator: configuration, workload, planned faults.
type Scenario struct {
	World string            `json:"world"`
	Ver   int               `json:"ver"` // module version: 1 or 2
	C     map[string]int64  `json:"c,omitempty"`
	S     map[string]string `json:"s,omitempty"`
	Pre   []Op              `json:"pre,omitempty"`
	Tasks [][]Op            `json:"tasks,omitempty"`
	Post  []Op              `json:"post,omitempty"`
	Sim   vsim.Config       `json:"sim"`
}

func (s *Scenario) clone() *Scenario {
	b, _ := json.Marshal(s)
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return &c
}

func (s *Scenario) ops() int {
	n := len(s.Pre) + len(s.Post)
	for _, t := range s.Tasks {
		n += len(t)
	}
	return n
}

func (s *Scenario) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s v%d", s.World, s.Ver)
	var ks []string
	for k := range s.C {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, s.C[k])
	}
	ks = ks[:0]
	for k := range s.S {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%.300q", k, s.S[k])
	}
	list := func(n string, l []Op) {
		if len(l) == 0 {
			return
		}
		fmt.Fprintf(&b, " | %s:", n)
		for i, o := range l {
			if i > 0 {
				b.WriteString(";")
			}
			b.WriteString(" " + o.String())
		}
	}
	list("pre", s.Pre)
	for i, t := range s.Tasks {
		list(fmt.Sprintf("T%d", i+1), t)
	}
	list("post", s.Post)
	return b.String()
}

// hash identifies everything but the strategy of the simulator.
func (s *Scenario) hash() uint64 {
	c := *s
	c.Sim = vsim.Config{}
	b, _ := json.Marshal(&c)
	return hash(string(b))
}

// Violation is a broken property seen in one run.
type Violation struct {
	Props []string `json:"props"`
	Class string   `json:"class"`
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
}

// Result is what one run gave.
type Result struct {
	Viols     []Violation
	Decisions []vsim.Decision
	FullHash  uint64
	Switch    uint64
	Preempts  int
	Switches  int
	Points    int
	Choices   map[string]int
	Faults    map[string]int
	Probes    map[string]int
	SimNs     int64
	Outcome   uint64
	Incon     bool
	Log       []string
}

// Rec is one recorded operation of the history.
type Rec struct {
	Task     int
	Idx      int
	Op       Op
	Inv, Ret int64 // logical time
	T0, T1   int64 // monotonic clock
	Out      []any
	Panic    string
	Done     bool
	Extra    any
}

func (r *Rec) String() string {
	who := fmt.Sprintf("T%d", r.Task)
	if r.Task == 0 {
		who = "main"
	}
	res := ""
	if r.Panic != "" {
		res = " -> PANIC " + firstLine(r.Panic)
	} else if !r.Done {
		res = " -> (never returned)"
	} else if len(r.Out) > 0 {
		var l []string
		for _, o := range r.Out {
			l = append(l, fmt.Sprintf("%.200v", show(o)))
		}
		res = " -> " + strings.Join(l, ", ")
	}
	return fmt.Sprintf("[%d..%d] t=%d..%d %s: %s%s", r.Inv, r.Ret, r.T0, r.T1, who, r.Op, res)
}

func show(o any) string {
	switch x := o.(type) {
	case nil:
		return "nil"
	case *Val:
		return x.S
	case string:
		return fmt.Sprintf("%q", x)
	case fmt.Stringer:
		return "<" + fmt.Sprintf("%T", o) + ">"
	}
	return fmt.Sprintf("%v", o)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Val is a value stored by the harness: it has an identity.
type Val struct{ S string }

func (v *Val) String() string { return v.S }

// Ctx is one run as seen by a world.
type Ctx struct {
	Sc    *Scenario
	Sim   *vsim.Sim
	Props []string // the properties this world decides
	Res   *Result
	Recs  []*Rec
	cur   []*Rec // innermost recorded operation per task
	Prop  string // the property being checked
}

func (c *Ctx) probe(n string) { c.Res.Probes[n]++ }

// Fail adds a violation of all the given properties.
func (c *Ctx) Fail(props []string, class, sig, format string, a ...any) {
	c.Res.Viols = append(c.Res.Viols, Violation{props, class, sig, fmt.Sprintf(format, a...)})
}

// call runs f as a recorded operation of the current task.
func (c *Ctx) call(op Op, idx int, f func(r *Rec) []any) *Rec {
	t := vsim.CurrentTask()
	r := &Rec{Task: t, Idx: idx, Op: op}
	vsim.Point(vsim.SiteOp())
	r.Inv = c.Sim.Seq()
	r.T0 = c.Sim.Mono()
	c.Recs = append(c.Recs, r)
	for len(c.cur) <= t {
		c.cur = append(c.cur, nil)
	}
	old := c.cur[t]
	c.cur[t] = r
	defer func() { c.cur[t] = old }()
	func() {
		defer func() {
			if c.Sim.IsDead() {
				return // the run was aborted: not a result
			}
			if e := recover(); e != nil {
				r.Panic = fmt.Sprintf("%v\n%s", e, vsim.Stack())
				r.Done = true
			}
		}()
		r.Out = f(r)
		r.Done = true
	}()
	if c.Sim.IsDead() {
		r.Done = false
		r.Panic = ""
	}
	r.T1 = c.Sim.Mono()
	r.Ret = c.Sim.Seq()
	return r
}

// main runs f in the setup phase: a dead simulation ends it.
func (c *Ctx) main(f func()) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if c.Sim.IsDead() {
				ok = false
				return
			}
			panic(e)
		}
	}()
	f()
	return !c.Sim.IsDead()
}

// env executes the simulation events that are common to all worlds.
func (c *Ctx) env(op Op) bool {
	switch op.K {
	case "adv":
		vsim.Point(vsim.SiteOp())
		c.Sim.Advance(op.N)
		c.Res.Faults["clock-advance"]++
	case "wall":
		vsim.Point(vsim.SiteOp())
		c.Sim.StepWall(op.N)
		c.Res.Faults["wall-step"]++
	case "yield":
		vsim.Yield()
		c.Res.Faults["stall"]++
	default:
		return false
	}
	return true
}

// run executes pre, tasks and post with do for every operation that is not an event.
// It returns false if the run died.
func (c *Ctx) run(do func(op Op, idx int)) bool {
	exec := func(l []Op, idx0 int) {
		for i, op := range l {
			if c.env(op) {
				continue
			}
			do(op, idx0+i)
		}
	}
	if !c.main(func() { exec(c.Sc.Pre, 0) }) {
		return false
	}
	for i, l := range c.Sc.Tasks {
		l := l
		c.Sim.Spawn(fmt.Sprintf("T%d", i+1), func() { exec(l, 0) })
	}
	c.Sim.Run()
	if c.Sim.IsDead() {
		return false
	}
	return c.main(func() { exec(c.Sc.Post, 0) })
}

// history is the recorded operations as text.
func (c *Ctx) history() string {
	var b strings.Builder
	l := append([]*Rec(nil), c.Recs...)
	sort.SliceStable(l, func(i, j int) bool { return l[i].Inv < l[j].Inv })
	for _, r := range l {
		b.WriteString("  " + r.String() + "\n")
	}
	return b.String()
}

// issues turns what the simulator found into violations of the given properties.
func (c *Ctx) issues(props []string) {
	for _, i := range c.Sim.Issues {
		c.Fail(props, i.Class, i.Sig, "%s", i.Msg)
	}
}

type World struct {
	Name string
	// Gen makes a scenario for a property; Sim is filled in by the caller.
	Gen func(r *vsim.RNG, prop string, thorough bool) *Scenario
	Run func(c *Ctx)
}

var worlds = map[string]*World{}

func register(w *World) { worlds[w.Name] = w }

// simConfig draws the exploration strategy of a run.
func simConfig(r *vsim.RNG, seed uint64) vsim.Config {
	cfg := vsim.Config{Seed: seed, MapOrder: true, StartMono: 1000000000, StartWall: 1700000000 * 1e9, MaxSteps: 300000}
	gaps := []int{2, 4, 8, 16, 32}
	switch k := r.Intn(20); {
	case k < 6:
		cfg.Mode, cfg.Gap = vsim.ModeRandom, gaps[r.Intn(len(gaps))]
	case k < 11:
		cfg.Mode, cfg.Gap, cfg.SyncOnly = vsim.ModeRandom, 1+r.Intn(4), true
	case k < 14:
		cfg.Mode, cfg.Gap, cfg.Conflict = vsim.ModeRandom, 1+r.Intn(6), true
	case k < 19:
		cfg.Mode, cfg.Depth, cfg.Horizon = vsim.ModePCT, 1+r.Intn(4), []int{20, 60, 200, 600}[r.Intn(4)]
		if r.P(1, 2) {
			cfg.Conflict = true
		} else if r.P(1, 2) {
			cfg.SyncOnly = true
		}
	default:
		cfg.Mode = vsim.ModeRR
	}
	return cfg
}

// guarded runs the world. A panic of the code under test outside of a recorded operation (while the harness sets it up or
// looks at it) is a crash of that code; any other panic is a mistake of the harness.
func (c *Ctx) guarded(w *World) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		st := string(debug.Stack())
		if !fromRepo(st) {
			panic(e)
		}
		c.Fail([]string{c.Prop}, "crash", "panic while the object was set up or looked at", "panic outside of the recorded operations: %v\n%s", e, st)
	}()
	w.Run(c)
}

// fromRepo tells if the innermost frame of a panic that is neither of the runtime, a library nor the simulator is one of the repository.
func fromRepo(stack string) bool {
	if i := strings.LastIndex(stack, "\npanic("); i >= 0 {
		stack = stack[i+1:]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/webability-go/xcore") {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// patient performs one run; one that reaches the step limit has twenty times as many steps before it counts as a hang.
func patient(sc *Scenario, dec []vsim.Decision, replay bool, trace bool, prop string) *Result {
	res := execute(sc, dec, replay, trace, prop)
	for i := range res.Viols {
		if res.Viols[i].Class == "hang" && res.Viols[i].Sig == vsim.StepLimit && sc.Sim.MaxSteps < 3_000_000 {
			few := sc.Sim.MaxSteps
			sc.Sim.MaxSteps = 20 * few
			more := execute(sc, dec, replay, trace, prop)
			for j := range more.Viols {
				if more.Viols[j].Class == "hang" {
					sc.Sim.MaxSteps = few
					return res
				}
			}
			return more
		}
	}
	return res
}

// execute performs one run.
func execute(sc *Scenario, dec []vsim.Decision, replay bool, trace bool, prop string) *Result {
	w := worlds[sc.World]
	if w == nil {
		panic("unknown world " + sc.World)
	}
	vsim.ResetGlobals()
	res := &Result{Probes: map[string]int{}, Faults: map[string]int{}}
	sim := vsim.New(sc.Sim, dec, replay)
	if trace {
		sim.Trace = func(s string) { res.Log = append(res.Log, s) }
	}
	c := &Ctx{Sc: sc, Sim: sim, Res: res, Prop: prop}
	c.guarded(w)
	sim.Close()
	res.Decisions = sim.Recorded
	res.FullHash, res.Switch, res.Preempts, res.Switches, res.Points = sim.FullHash, sim.SwitchHash, sim.Preempts, sim.Switches, sim.Points
	res.Choices = sim.Choices
	res.SimNs = sim.Mono() - sc.Sim.StartMono
	for k, n := range sim.FS.Faults {
		res.Faults["fs-"+k] += n
	}
	h := uint64(14695981039346656037)
	mix := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 0x100000001b3
		}
	}
	for _, r := range c.Recs {
		mix(fmt.Sprintf("%d %d %v", r.Task, r.Idx, r.Panic != ""))
		for _, o := range r.Out {
			mix(show(o))
		}
	}
	res.Outcome = h
	return res
}

func init() { log.SetOutput(io.Discard) }
