// Package run executes the cases of a check in supervised child processes.
package run

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
)

// Case is one unit of work, fully determined by its fields.
type Case struct {
	Prop string           `json:"prop"`
	Kind string           `json:"kind"`
	Seed int64            `json:"seed"`
	N    map[string]int64 `json:"n,omitempty"`
	S    string           `json:"s,omitempty"`
}

func (c Case) Name() string {
	s := fmt.Sprintf("%s/%s/seed=%d", c.Prop, c.Kind, c.Seed)
	if c.S != "" {
		s += "/" + c.S
	}
	if len(c.N) > 0 {
		s += fmt.Sprintf("/%v", c.N)
	}
	return s
}

// Result is what a child reports for a case.
type Result struct {
	Evals      int64            `json:"evals"`
	Seen       []string         `json:"seen,omitempty"`
	Samples    []string         `json:"samples,omitempty"`
	Stats      map[string]int64 `json:"stats,omitempty"`
	Failure    string           `json:"failure,omitempty"`
	Key        string           `json:"key,omitempty"`
	Detail     string           `json:"detail,omitempty"`
	Known      []string         `json:"known,omitempty"`
	Incomplete string           `json:"incomplete,omitempty"`
}

// Check is a registered property check.
type Check struct {
	Prop        string
	Level       string
	Rule        string
	Assumptions []string
	// Cases lists the work of a tier.
	Cases func(tier string, seed int64) []Case
	Run   func(c *Ctx)
	// CPU seconds a case may use before it counts as a hang.
	CPULimit float64
	// MinEvals and MinSeen: a run observing less is an error.
	MinEvals, MinSeen int
	// Race: the check must run in a binary built with the race detector.
	Race bool
	// Procs is GOMAXPROCS of the children (default 1).
	Procs int
	// Workers limits the number of children (default 8).
	Workers int
}

var checks = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { checks[c.Prop] = c }

// Get returns a registered check.
func Get(p string) *Check { return checks[p] }

type failure struct{ key, msg, detail string }

// Ctx is the environment of a running case.
type Ctx struct {
	Case Case
	Rng  *rand.Rand
	res  Result
	seen map[string]bool
	log  []string
}

func newCtx(c Case) *Ctx {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%s|%v", c.Prop, c.Kind, c.Seed, c.S, c.N)
	return &Ctx{Case: c, Rng: rand.New(rand.NewSource(int64(h.Sum64() & (1<<63 - 1)))), seen: map[string]bool{}}
}

// P returns a parameter of the case.
func (c *Ctx) P(name string) int { return int(c.Case.N[name]) }

// Eval counts judged observations.
func (c *Ctx) Eval(n int) { c.res.Evals += int64(n) }

// Stat adds to a named counter.
func (c *Ctx) Stat(name string, n int) {
	if c.res.Stats == nil {
		c.res.Stats = map[string]int64{}
	}
	c.res.Stats[name] += int64(n)
}

// Seen records a distinct situation.
func (c *Ctx) Seen(format string, a ...any) { c.seen[fmt.Sprintf(format, a...)] = true }

// Sample records an example for the evidence.
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.res.Samples) < 3 {
		c.res.Samples = append(c.res.Samples, fmt.Sprintf(format, a...))
	}
}

// Log keeps a trace of the last actions for replay files.
func (c *Ctx) Log(format string, a ...any) {
	c.log = append(c.log, fmt.Sprintf(format, a...))
	if len(c.log) > 60 {
		c.log = c.log[len(c.log)-60:]
	}
}

// Fail ends the case with a violation. key names the kind of failure.
func (c *Ctx) Fail(key, format string, a ...any) {
	panic(failure{key, fmt.Sprintf(format, a...), string(debug.Stack())})
}

// Lib runs a library call; a panic in it is a failure of the property.
func (c *Ctx) Lib(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			panic(failure{"panic", fmt.Sprintf("%s panicked: %v", what, r), string(debug.Stack())})
		}
	}()
	f()
}

// LibPanics runs a library call and reports whether it panicked.
func (c *Ctx) LibPanics(f func()) (msg, stack string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			msg, stack, panicked = fmt.Sprint(r), string(debug.Stack()), true
		}
	}()
	f()
	return
}

// RunCase runs one case in this process.
func RunCase(ck *Check, cs Case) (res Result) {
	c := newCtx(cs)
	defer func() {
		r := recover()
		for k := range c.seen {
			c.res.Seen = append(c.res.Seen, k)
		}
		if r != nil {
			if fl, ok := r.(failure); ok {
				c.res.Failure, c.res.Key, c.res.Detail = fl.msg, fl.key, fl.detail
			} else {
				c.res.Failure = fmt.Sprintf("unexpected state, monitor panicked: %v", r)
				c.res.Key = "monitor-panic"
				c.res.Detail = string(debug.Stack())
			}
			c.res.Detail = "last actions:\n  " + strings.Join(c.log, "\n  ") + "\n\n" + c.res.Detail
		}
		res = c.res
	}()
	ck.Run(c)
	return
}

// CPUTime is the CPU time of this process in seconds.
func CPUTime() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// TotalAlloc is the number of bytes allocated so far.
func TotalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// Why notes, when asked to by the environment, for what reason the library
// refused something. It is an aid for reviewing the workloads.
func (x *Ctx) Why(what string, err error) {
	name := os.Getenv("VMON_WHY")
	if name == "" || err == nil {
		return
	}
	f, e := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if e != nil {
		return
	}
	fmt.Fprintf(f, "%s|%s|%v\n", x.Case.Kind, what, err)
	f.Close()
}
