package run

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const maxRSS = 3 << 30

// Child serves cases read from stdin; results go to file descriptor 3.
func Child(ck *Check) {
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c Case
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, "bad case:", err)
			os.Exit(3)
		}
		r := RunCase(ck, c)
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "bad result:", err)
			os.Exit(3)
		}
		out.Write(append(b, '\n'))
	}
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

type worker struct {
	cmd    *exec.Cmd
	in     *bufio.Writer
	inPipe interface{ Close() error }
	lines  chan []byte
	stderr *tailBuf
}

func startWorker(ck *Check) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	w := &worker{stderr: &tailBuf{}, lines: make(chan []byte, 1)}
	w.cmd = exec.Command(self, "-child", "-prop", ck.Prop)
	procs := ck.Procs
	if procs == 0 {
		procs = 1
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GOTRACEBACK=") && !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GODEBUG=") && !strings.HasPrefix(e, "GOGC=") && !strings.HasPrefix(e, "GOMEMLIMIT=") {
			env = append(env, e)
		}
	}
	w.cmd.Env = append(env, "GOMAXPROCS="+strconv.Itoa(procs), "GOTRACEBACK=all", raceEnv)
	stdin, err := w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, wr, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	w.cmd.ExtraFiles = []*os.File{wr}
	w.cmd.Stderr = w.stderr
	if err := w.cmd.Start(); err != nil {
		return nil, err
	}
	wr.Close()
	w.in = bufio.NewWriter(stdin)
	w.inPipe = stdin
	go func() {
		br := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := br.ReadBytes('\n')
			if err != nil {
				close(w.lines)
				r.Close()
				return
			}
			w.lines <- l
		}
	}()
	return w, nil
}

func (w *worker) kill() {
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

func (w *worker) cpu() float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", w.cmd.Process.Pid))
	if err != nil {
		return -1
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return -1
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func (w *worker) rss() int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", w.cmd.Process.Pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// do runs a case on the worker; ok is false when the worker is gone.
func (w *worker) do(ck *Check, c Case) (res Result, ok bool) {
	b, _ := json.Marshal(c)
	w.in.Write(append(b, '\n'))
	w.in.Flush()
	start := w.cpu()
	limit := ck.CPULimit
	if limit == 0 {
		limit = 150
	}
	lastCPU, idle := start, 0
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case l, alive := <-w.lines:
			if !alive {
				w.cmd.Wait()
				msg := w.stderr.String()
				if !strings.Contains(msg, "goroutine ") && !strings.Contains(msg, "fatal error") && !strings.Contains(msg, "DATA RACE") {
					// killed from outside
					return Result{Incomplete: "worker vanished: " + w.cmd.ProcessState.String() + " " + firstLines(msg, 3)}, false
				}
				key := "crash"
				what := "process died"
				if strings.Contains(msg, "DATA RACE") {
					key, what = "race", "data race reported"
				}
				return Result{Failure: what + ": " + firstLines(msg, 3), Key: key, Detail: msg}, false
			}
			if err := json.Unmarshal(l, &res); err != nil {
				return Result{Incomplete: "unreadable result: " + err.Error()}, false
			}
			return res, true
		case <-tick.C:
			cpu := w.cpu()
			if cpu-lastCPU < 0.02 {
				idle++
			} else {
				idle, lastCPU = 0, cpu
			}
			switch {
			case cpu >= 0 && cpu-start > limit:
				w.cmd.Process.Signal(os.Signal(quit))
				time.Sleep(time.Second)
				w.kill()
				return Result{Failure: fmt.Sprintf("case used more than %.0f s of CPU time", limit), Key: "hang", Detail: w.stderr.String()}, false
			case w.rss() > maxRSS:
				w.kill()
				return Result{Failure: "process memory grew beyond 3 GiB", Key: "memory", Detail: w.stderr.String()}, false
			case idle > 4*240: // nothing runs for minutes: deadlock
				w.cmd.Process.Signal(os.Signal(quit))
				time.Sleep(time.Second)
				w.kill()
				return Result{Failure: "no progress for 240 s (deadlock)", Key: "deadlock", Detail: w.stderr.String()}, false
			}
		}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// Replay is the content of a replay file.
type Replay struct {
	Prop    string `json:"property"`
	Tier    string `json:"tier"`
	Seed    int64  `json:"seed"`
	Case    Case   `json:"case"`
	Failure string `json:"failure"`
	Key     string `json:"key"`
	Detail  string `json:"detail"`
	How     string `json:"how_to_replay"`
}

// Main runs a whole check and returns the exit code.
func Main(ck *Check, tier string, seed int64, root string, only string) int {
	t0 := time.Now()
	known := loadKnown(filepath.Join(root, "KNOWN_FINDINGS.txt"), ck.Prop)
	if ck.Race {
		if err := detectorWorks(); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	cases := ck.Cases(tier, seed)
	for i := range cases {
		cases[i].Prop = ck.Prop
	}
	if every, _ := strconv.Atoi(os.Getenv("VMON_EVERY")); every > 1 {
		// For trying out changes: a part of the cases only.
		only = "/"
		var some []Case
		for i, c := range cases {
			if i%every == 0 {
				some = append(some, c)
			}
		}
		cases = some
	}
	if only != "" {
		var f []Case
		for _, c := range cases {
			if strings.Contains(c.Name(), only) {
				f = append(f, c)
			}
		}
		cases = f
	}
	nw := ck.Workers
	if nw == 0 {
		nw = 8
	}
	if n := runtime.NumCPU(); nw > n {
		nw = n
	}
	if nw > len(cases) {
		nw = len(cases)
	}
	type done struct {
		c   Case
		res Result
		cpu float64
	}
	work := make(chan Case, len(cases))
	for _, c := range cases {
		work <- c
	}
	close(work)
	results := make(chan done, len(cases)+nw)
	stop := make(chan struct{})
	var ws sync.WaitGroup
	var mu sync.Mutex
	live := map[*worker]bool{}
	for i := 0; i < nw; i++ {
		ws.Add(1)
		go func() {
			defer ws.Done()
			var w *worker
			for c := range work {
				select {
				case <-stop:
					return
				default:
				}
				if w == nil {
					var err error
					w, err = startWorker(ck)
					if err != nil {
						results <- done{c, Result{Incomplete: "cannot start worker: " + err.Error()}, 0}
						return
					}
					mu.Lock()
					live[w] = true
					mu.Unlock()
				}
				c0 := w.cpu()
				r, ok := w.do(ck, c)
				for try := 0; try < 2 && !ok && r.Incomplete != ""; try++ {
					mu.Lock()
					delete(live, w)
					mu.Unlock()
					select {
					case <-stop:
						return
					default:
					}
					var err error
					if w, err = startWorker(ck); err != nil {
						results <- done{c, Result{Incomplete: "cannot start worker: " + err.Error()}, 0}
						return
					}
					mu.Lock()
					live[w] = true
					mu.Unlock()
					c0 = 0
					r, ok = w.do(ck, c)
				}
				cpu := w.cpu() - c0
				results <- done{c, r, cpu}
				if !ok {
					mu.Lock()
					delete(live, w)
					mu.Unlock()
					w = nil
				}
			}
			if w != nil {
				w.inPipe.Close()
				w.cmd.Wait()
				mu.Lock()
				delete(live, w)
				mu.Unlock()
			}
		}()
	}
	go func() { ws.Wait(); close(results) }()

	ev := newEvidence(ck, tier, seed)
	var bad *done
	incomplete := ""
	survey := map[string]int{}
	knownHit := map[string]bool{}
	type slow struct {
		n   string
		cpu float64
	}
	var slowest []slow
	for d := range results {
		slowest = append(slowest, slow{d.c.Name(), d.cpu})
		if d.res.Incomplete != "" {
			incomplete = d.c.Name() + ": " + d.res.Incomplete
			continue
		}
		ev.add(d.c, d.res)
		for _, k := range d.res.Known {
			knownHit[k] = true
		}
		if d.res.Failure != "" {
			if text, ok := known[d.res.Key]; ok {
				knownHit[text] = true
				continue
			}
			d := d
			if os.Getenv("VMON_SURVEY") != "" {
				// development aid: list every kind of failure
				if survey[d.res.Key]++; survey[d.res.Key] == 1 {
					fmt.Printf("survey: %s [%s] %s\n", d.c.Name(), d.res.Key, d.res.Failure)
					bad = &d
				}
				continue
			}
			bad = &d
			break
		}
	}
	if bad != nil {
		close(stop)
		mu.Lock()
		for w := range live {
			w.cmd.Process.Kill()
		}
		mu.Unlock()
	}
	for t := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.Prop, t)
	}
	ev.wall = time.Since(t0).Seconds()
	sort.Slice(slowest, func(i, j int) bool { return slowest[i].cpu > slowest[j].cpu })
	for i := 0; i < len(slowest) && i < 3; i++ {
		fmt.Printf("slowest: %.1f s cpu %s\n", slowest[i].cpu, slowest[i].n)
	}
	if bad != nil {
		dir := filepath.Join(root, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, ck.Prop+".json")
		b, _ := json.MarshalIndent(Replay{ck.Prop, tier, seed, bad.c, bad.res.Failure, bad.res.Key, bad.res.Detail,
			"bash /verif/bin/check.sh " + ck.Prop + " -replay " + path}, "", " ")
		os.WriteFile(path, b, 0o644)
		ev.violations = 1
		ev.write(root)
		fmt.Printf("case: %s\nwhat: [%s] %s\n", bad.c.Name(), bad.res.Key, bad.res.Failure)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.Prop, path)
		return 1
	}
	if incomplete != "" {
		fmt.Println("ERROR:", incomplete)
		return 2
	}
	if only == "" && (ev.evals < int64(ck.MinEvals) || len(ev.seen) < ck.MinSeen) {
		fmt.Printf("ERROR: observed too little: %d evaluations, %d distinct situations\n", ev.evals, len(ev.seen))
		return 2
	}
	ev.write(root)
	fmt.Printf("%s %s seed=%d: held; %d cases, %d evaluations, %d distinct situations, %.1f s\n", ck.Prop, tier, seed, len(cases), ev.evals, len(ev.seen), ev.wall)
	return 0
}

// RunReplay re-runs the case of a replay file in this process.
func RunReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	ck := Get(r.Prop)
	res := RunCase(ck, r.Case)
	fmt.Println("case:", r.Case.Name())
	if res.Failure != "" {
		fmt.Printf("what: [%s] %s\n%s\n", res.Key, res.Failure, res.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
		return 1
	}
	fmt.Println("held")
	return 0
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C07 key=<key> <text>
		f := strings.SplitN(strings.TrimSpace(l), " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+prop && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return out
}

type evidence struct {
	ck         *Check
	tier       string
	seed       int64
	evals      int64
	cases      int
	seen       map[string]int
	kinds      map[string]int
	stats      map[string]int64
	samples    []string
	wall       float64
	violations int
}

func newEvidence(ck *Check, tier string, seed int64) *evidence {
	return &evidence{ck: ck, tier: tier, seed: seed, seen: map[string]int{}, kinds: map[string]int{}, stats: map[string]int64{}}
}

func (e *evidence) add(c Case, r Result) {
	e.cases++
	e.kinds[c.Kind]++
	e.evals += r.Evals
	for _, s := range r.Seen {
		e.seen[s]++
	}
	for k, v := range r.Stats {
		e.stats[k] += v
	}
	if e.kinds[c.Kind] == 1 {
		if len(r.Samples) == 0 {
			e.samples = append(e.samples, c.Name())
		}
		e.samples = append(e.samples, r.Samples...)
	}
}

func (e *evidence) write(root string) {
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	if len(e.samples) > 12 {
		e.samples = e.samples[:12]
	}
	classes := map[string]int{}
	for k := range e.seen {
		classes[strings.SplitN(k, "|", 2)[0]]++
	}
	obj := map[string]any{
		"property": e.ck.Prop, "tier": e.tier, "seed": e.seed, "level": e.ck.Level,
		"coverage": map[string]any{
			"evaluations": e.evals, "distinct_nontrivial": len(e.seen), "rule": e.ck.Rule,
			"samples": e.samples, "cases": e.cases, "cases_by_kind": e.kinds, "counters": e.stats,
			"distinct_by_class": classes,
		},
		"wall_s": e.wall, "assumptions": e.ck.Assumptions, "violations": e.violations,
	}
	b, _ := json.MarshalIndent(obj, "", " ")
	os.WriteFile(filepath.Join(dir, e.ck.Prop+".json"), append(b, '\n'), 0o644)
}
