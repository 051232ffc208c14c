//go:build go1.22

package core

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// Driver configuration.
type driver struct {
	prop    *Prop
	tier    string
	seed    uint64
	verif   string
	tmp     string
	workers int
	t0      time.Time
	mu      sync.Mutex
	nextDir int
	known   []knownFinding
}

type knownFinding struct {
	Prop, Key, Replay, What string
	Seen                    bool
}

// child runs a plan in a fresh process.
func (d *driver) child(p *Plan, trace bool, limit time.Duration) *Result {
	d.mu.Lock()
	d.nextDir++
	dir := filepath.Join(d.tmp, fmt.Sprintf("%08d", d.nextDir))
	d.mu.Unlock()
	must(os.MkdirAll(filepath.Join(dir, "d"), 0o755))
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "plan.json"), p.JSON(), 0o644))
	args := []string{"child", "plan.json", "d", "out.json"}
	if trace {
		args = append(args, "trace")
	}
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "GORACE=log_path=race history_size=4 exitcode=0 atexit_sleep_ms=0"}
	if v := os.Getenv("SIM_LIVE"); v != "" {
		cmd.Env = append(cmd.Env, "SIM_LIVE="+v)
	}
	var errb bytes.Buffer
	cmd.Stderr = &limitWriter{&errb, 4 << 20}
	cmd.Stdout = cmd.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	t0 := time.Now()
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timeout := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timeout = true
		// SIGQUIT prints every goroutine
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case err = <-done:
		case <-time.After(5 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			err = <-done
		}
	}
	wall := time.Since(t0).Seconds()
	if b, e := os.ReadFile(filepath.Join(dir, "out.json")); e == nil && !timeout && err == nil {
		var r Result
		if json.Unmarshal(b, &r) == nil {
			r.Plan, r.Wall = p, wall
			return &r
		}
	}
	r := &Result{Plan: p, Wall: wall, Stat: map[string]int{}}
	txt := errb.String()
	if timeout {
		r.Fatal = "stuck in real time (no simulated progress)"
		r.Trace = tail(txt, 6000)
		return r
	}
	key, what := crashKey(txt)
	r.Trace = tail(txt, 6000)
	if key == "" {
		r.Fatal = fmt.Sprintf("child ended with %v: %s", err, tail(txt, 600))
		return r
	}
	r.Viol = []Violation{{Prop: p.Prop, Key: key, What: what}}
	return r
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^(gitlab\.com/thorchain/tss/go-tss/[^\s]+)\(`)

// crashKey finds out whether code under test brought the process down.
func crashKey(txt string) (string, string) {
	i := strings.Index(txt, "panic: ")
	if j := strings.Index(txt, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return "", ""
	}
	head := txt[i:]
	line := head
	if k := strings.IndexByte(line, '\n'); k >= 0 {
		line = line[:k]
	}
	for _, k := range []string{"message storm", "livelock"} {
		if strings.Contains(line, k) {
			return k, line
		}
	}
	if strings.Contains(line, "simnet:") || strings.Contains(line, "all goroutines in bubble are blocked") {
		return "", ""
	}
	g := strings.Index(head, "\ngoroutine ")
	if g < 0 {
		return "", ""
	}
	st := head[g+1:]
	if e := strings.Index(st, "\n\n"); e >= 0 {
		st = st[:e]
	}
	m := frameRe.FindAllStringSubmatch(st, -1)
	for _, x := range m {
		f := strings.TrimPrefix(x[1], "gitlab.com/thorchain/tss/go-tss/")
		if strings.HasPrefix(f, "verifsim/") {
			if strings.HasPrefix(f, "verifsim/simnet") || strings.HasPrefix(f, "verifsim/simrt") || strings.HasPrefix(f, "verifsim/simfs") {
				continue
			}
			return "", ""
		}
		f = regexp.MustCompile(`\.func\d+(\.\d+)*$`).ReplaceAllString(f, "")
		return "panic in " + f, fmt.Sprintf("the node process dies: %s (in %s)", line, f)
	}
	if len(m) == 0 && strings.Contains(st, "tss-lib") {
		return "panic in tss-lib", "the node process dies: " + line + " (in tss-lib)"
	}
	return "", ""
}

func (d *driver) loadKnown() {
	b, err := os.ReadFile(filepath.Join(d.verif, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var k knownFinding
		m := regexp.MustCompile(`^finding: property=(\S+) key="([^"]*)" replay=(\S+) (.*)$`).FindStringSubmatch(l)
		if m == nil {
			fmt.Fprintln(os.Stderr, "bad line in known_findings.txt:", l)
			os.Exit(3)
		}
		k.Prop, k.Key, k.Replay, k.What = m[1], m[2], m[3], m[4]
		if k.Prop == d.prop.ID {
			d.known = append(d.known, k)
		}
	}
}

// split separates listed findings from new violations.
func (d *driver) split(r *Result) (listed []int, fresh []Violation) {
	for _, v := range r.Viol {
		hit := -1
		for i, k := range d.known {
			if k.Key == v.Key {
				hit = i
			}
		}
		if hit >= 0 {
			listed = append(listed, hit)
		} else {
			fresh = append(fresh, v)
		}
	}
	return
}

func has(r *Result, key string) bool {
	for _, v := range r.Viol {
		if v.Key == key {
			return true
		}
	}
	return false
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string   `json:"property"`
	Key      string   `json:"key"`
	What     string   `json:"what"`
	Plan     *Plan    `json:"plan"`
	LogHash  uint64   `json:"log_hash"`
	Schedule uint64   `json:"schedule_hash"`
	Steps    int      `json:"minimise_steps"`
	Trace    []string `json:"trace"`
}

func (d *driver) par(ps []*Plan, f func(i int, r *Result)) {
	var wg sync.WaitGroup
	sem := make(chan bool, d.workers)
	for i := range ps {
		sem <- true
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := d.child(ps[i], false, 60*time.Second)
			<-sem
			f(i, r)
		}(i)
	}
	wg.Wait()
}

// minimise shrinks the plan while the violation persists.
func (d *driver) minimise(p *Plan, key string, budget time.Duration) (*Plan, int) {
	end := time.Now().Add(budget)
	cur, steps := p, 0
	for time.Now().Before(end) {
		cands := shrinks(cur)
		if len(cands) == 0 {
			break
		}
		best := -1
		for at := 0; at < len(cands) && best < 0 && time.Now().Before(end); at += d.workers {
			e := at + d.workers
			if e > len(cands) {
				e = len(cands)
			}
			ok := make([]bool, e-at)
			d.par(cands[at:e], func(i int, r *Result) { ok[i] = has(r, key) })
			steps += e - at
			for i, v := range ok {
				if v {
					best = at + i
					break
				}
			}
		}
		if best < 0 {
			break
		}
		cur = cands[best]
	}
	return cur, steps
}

func shrinks(p *Plan) []*Plan {
	var out []*Plan
	add := func(f func(q *Plan) bool) {
		q := p.Clone()
		if f(q) {
			out = append(out, q)
		}
	}
	// all faults at once, then halves, then single ones
	if len(p.Faults) > 1 {
		add(func(q *Plan) bool { q.Faults = nil; return true })
		add(func(q *Plan) bool { q.Faults = q.Faults[:len(q.Faults)/2]; return true })
		add(func(q *Plan) bool { q.Faults = q.Faults[len(q.Faults)/2:]; return true })
	}
	if n := len(p.Steps); n > 3 {
		add(func(q *Plan) bool { q.Steps = q.Steps[:n/2]; return true })
		add(func(q *Plan) bool { q.Steps = q.Steps[n/2:]; return true })
	}
	for i := range p.Ops {
		i := i
		if len(p.Ops) > 1 {
			add(func(q *Plan) bool {
				id := q.Ops[i].ID
				for k := range q.Ops {
					if k != i && q.Ops[k].Kind == "keysign" && q.Ops[k].Wallet == -1-id {
						return false
					}
					var a []int
					for _, x := range q.Ops[k].After {
						if x != id {
							a = append(a, x)
						} else {
							a = append(a, q.Ops[i].After...)
							q.Ops[k].Heal = q.Ops[k].Heal || q.Ops[i].Heal
						}
					}
					q.Ops[k].After = a
				}
				q.Ops = append(q.Ops[:i], q.Ops[i+1:]...)
				var fs []Fault
				for _, f := range q.Faults {
					if (f.M == nil && f.Op == id) || (f.M != nil && f.M.Op == id) {
						continue
					}
					fs = append(fs, f)
				}
				q.Faults = fs
				return true
			})
		}
	}
	for i := range p.Faults {
		i := i
		add(func(q *Plan) bool { q.Faults = append(q.Faults[:i], q.Faults[i+1:]...); return true })
	}
	for i := range p.Steps {
		i := i
		add(func(q *Plan) bool { q.Steps = append(q.Steps[:i], q.Steps[i+1:]...); return true })
	}
	for i := range p.Ops {
		i := i
		if len(p.Ops[i].Msgs) > 1 {
			add(func(q *Plan) bool { q.Ops[i].Msgs = q.Ops[i].Msgs[:1]; return true })
		}
		if len(p.Ops[i].Skew) > 0 {
			add(func(q *Plan) bool { q.Ops[i].Skew = nil; return true })
		}
		if p.Ops[i].Shuffle {
			add(func(q *Plan) bool { q.Ops[i].Shuffle = false; return true })
		}
	}
	for i := range p.Faults {
		i := i
		if len(p.Faults[i].Peer) > 1 {
			for k := range p.Faults[i].Peer {
				k := k
				add(func(q *Plan) bool {
					q.Faults[i].Peer = append(append([]int{}, q.Faults[i].Peer[:k]...), q.Faults[i].Peer[k+1:]...)
					return true
				})
			}
		}
	}
	if p.Sched.SlowP > 0 {
		add(func(q *Plan) bool { q.Sched.SlowP = 0; return true })
	}
	if p.Sched.Yield > 0 {
		add(func(q *Plan) bool { q.Sched.Yield = 0; return true })
	}
	if p.Sched.Mode != 0 {
		add(func(q *Plan) bool { q.Sched.Mode = 0; return true })
	}
	if p.Net != (NetK{}) {
		add(func(q *Plan) bool { q.Net = NetK{}; return true })
		if p.Net.SlowP > 0 {
			add(func(q *Plan) bool { q.Net.SlowP = 0; return true })
		}
		if p.Net.FragP > 0 {
			add(func(q *Plan) bool { q.Net.FragP = 0; return true })
		}
	}
	return out
}

func fnv64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Driver explores a property.
func Driver(id, tier, verif string) {
	pr := Props[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(3)
	}
	d := &driver{prop: pr, tier: tier, verif: verif, t0: time.Now(), workers: 8}
	d.seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		d.seed = s
	}
	base := filepath.Join(verif, ".build", "tmp")
	must(os.MkdirAll(base, 0o755))
	var err error
	d.tmp, err = os.MkdirTemp(base, id+"-")
	must(err)
	code := d.explore()
	os.RemoveAll(d.tmp)
	os.Exit(code)
}

func (d *driver) explore() int {
	d.loadKnown()
	id := d.prop.ID
	runs := d.prop.Count(d.tier)
	budget := 40 * time.Second
	if simrt.Race { // several times slower
		budget = 110 * time.Second
	}
	if d.tier == "thorough" {
		budget = 40 * time.Minute
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_RUNS")); err == nil {
		runs = v
		budget = time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	fmt.Printf("%s: seed %d, up to %d runs\n", id, d.seed, runs)
	// listed findings: does each still occur?
	for i := range d.known {
		k := &d.known[i]
		b, err := os.ReadFile(filepath.Join(d.verif, k.Replay))
		must(err)
		var rp Replay
		must(json.Unmarshal(b, &rp))
		r := d.child(rp.Plan, false, 60*time.Second)
		if has(r, k.Key) {
			k.Seen = true
		}
	}
	survey := os.Getenv("VERIF_SURVEY") != ""
	kinds, whats := map[string][]uint64{}, map[string]string{}
	results := make([]*Result, runs)
	var mu sync.Mutex
	next, stop := 0, false
	var first *Result
	firstIdx := runs
	var fatal *Result
	var det []int // determinism self-check
	var wg sync.WaitGroup
	deadline := d.t0.Add(budget)
	detBad := ""
	for w := 0; w < d.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if stop || next >= runs || time.Now().After(deadline) {
					mu.Unlock()
					return
				}
				i := next
				next++
				mu.Unlock()
				p := GenPlan(id, d.seed*1000003+uint64(i), d.tier)
				r := d.child(p, false, 90*time.Second)
				var again *Result
				if i%40 == 7 {
					again = d.child(p, false, 90*time.Second)
				}
				listed, fresh := d.split(r)
				mu.Lock()
				results[i] = r
				for _, k := range listed {
					d.known[k].Seen = true
				}
				if again != nil {
					det = append(det, i)
					if again.LogHash != r.LogHash || again.SchedHash != r.SchedHash {
						detBad = fmt.Sprintf("plan of seed %d", p.Seed)
					}
				}
				if r.Fatal != "" && fatal == nil {
					fatal = r
				}
				if survey {
					for _, v := range r.Viol {
						kinds[v.Key] = append(kinds[v.Key], p.Seed)
						whats[v.Key] = v.What
					}
				} else if len(fresh) > 0 && i < firstIdx {
					first, firstIdx = r, i
					stop = true
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for k, l := range kinds { // order does not matter: for people
		fmt.Printf("%4d x %s: %s  seeds %v\n", len(l), k, whats[k], l[:min(4, len(l))])
	}
	viol := 0
	code := 0
	if first != nil {
		_, fresh := d.split(first)
		v := fresh[0]
		viol = len(fresh)
		code = d.report(first, v)
	}
	for _, k := range d.known {
		if k.Seen {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Prop, k.What)
		}
	}
	d.evidence(results, viol, det, detBad)
	if code == 0 && detBad != "" {
		fmt.Fprintln(os.Stderr, "NOT DETERMINISTIC:", detBad)
		return 3
	}
	if code == 0 && fatal != nil {
		fmt.Fprintf(os.Stderr, "a run failed: %s\nseed %d\n%s\n", fatal.Fatal, fatal.Plan.Seed, tail(fatal.Trace, 3000))
		return 3
	}
	return code
}

func (d *driver) report(r *Result, v Violation) int {
	id := d.prop.ID
	fmt.Printf("seed %d: %s: %s\n", r.Plan.Seed, v.Key, v.What)
	again := d.child(r.Plan, false, 90*time.Second)
	if !has(again, v.Key) {
		fmt.Fprintf(os.Stderr, "the violation did not reproduce from its seed (%v %v)\n", again.Fatal, again.Viol)
		return 3
	}
	mb := 60 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VERIF_MIN")); err == nil {
		mb = time.Duration(s) * time.Second
	}
	p, steps := d.minimise(r.Plan, v.Key, mb)
	fin := d.child(p, true, 90*time.Second)
	if !has(fin, v.Key) {
		p, fin = r.Plan, d.child(r.Plan, true, 90*time.Second)
	}
	what := v.What
	for _, x := range fin.Viol {
		if x.Key == v.Key {
			what = x.What
		}
	}
	dir := filepath.Join(d.verif, "evidence", "replay")
	must(os.MkdirAll(dir, 0o755))
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, r.Plan.Seed))
	rp := Replay{Property: id, Key: v.Key, What: what, Plan: p, LogHash: fin.LogHash, Schedule: fin.SchedHash, Steps: steps, Trace: strings.Split(fin.Trace, "\n")}
	b, err := json.MarshalIndent(rp, "", " ")
	must(err)
	must(os.WriteFile(f, b, 0o644))
	fmt.Println(what)
	fmt.Println(tail(fin.Trace, 2500))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, f)
	return 1
}

// Mini writes a minimised replay file of one violation.
func Mini(id string, seed uint64, tier, key, out, verif string) {
	d := &driver{prop: Props[id], verif: verif, workers: 8}
	base := filepath.Join(verif, ".build", "tmp")
	must(os.MkdirAll(base, 0o755))
	var err error
	d.tmp, err = os.MkdirTemp(base, "mini-")
	must(err)
	defer os.RemoveAll(d.tmp)
	p := GenPlan(id, seed, tier)
	if !has(d.child(p, false, 90*time.Second), key) {
		fmt.Println("does not occur")
		return
	}
	p, steps := d.minimise(p, key, 60*time.Second)
	fin := d.child(p, true, 90*time.Second)
	what := ""
	for _, x := range fin.Viol {
		if x.Key == key {
			what = x.What
		}
	}
	rp := Replay{Property: id, Key: key, What: what, Plan: p, LogHash: fin.LogHash, Schedule: fin.SchedHash, Steps: steps, Trace: strings.Split(fin.Trace, "\n")}
	b, err := json.MarshalIndent(rp, "", " ")
	must(err)
	must(os.WriteFile(out, b, 0o644))
	fmt.Println(what)
}

// ReplayFile runs a replay file twice.
func ReplayFile(f, verif string) {
	b, err := os.ReadFile(f)
	must(err)
	var rp Replay
	must(json.Unmarshal(b, &rp))
	d := &driver{prop: Props[rp.Property], verif: verif, workers: 1}
	base := filepath.Join(verif, ".build", "tmp")
	must(os.MkdirAll(base, 0o755))
	d.tmp, err = os.MkdirTemp(base, "replay-")
	must(err)
	x := d.child(rp.Plan, true, 90*time.Second)
	y := d.child(rp.Plan, true, 90*time.Second)
	os.RemoveAll(d.tmp)
	fmt.Println(x.Trace)
	same := x.LogHash == y.LogHash && x.SchedHash == y.SchedHash
	fmt.Printf("two replays identical: %v; identical to the recorded run: %v\n", same, rp.LogHash == x.LogHash && rp.Schedule == x.SchedHash)
	for _, v := range x.Viol {
		fmt.Printf("%s: %s\n", v.Key, v.What)
	}
	if x.Fatal != "" {
		fmt.Println(x.Fatal)
		os.Exit(3)
	}
	if has(x, rp.Key) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, f)
		os.Exit(1)
	}
	fmt.Println("the violation does not occur on this tree")
	os.Exit(0)
}

func (d *driver) evidence(rs []*Result, viol int, det []int, detBad string) {
	stat := map[string]int{}
	shapes := map[string]bool{}
	scheds := map[uint64]bool{}
	scn := map[string]int{}
	var sim float64
	n, nt, sites := 0, 0, 0
	var picks, multi uint64
	var samples []interface{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		n++
		for k, v := range r.Stat {
			stat[k] += v
		}
		sim += r.SimTime
		picks += r.Picks
		multi += r.Multi
		scn[r.Plan.Scn]++
		if r.Sites > sites {
			sites = r.Sites
		}
		if !scheds[r.SchedHash] && r.Nontriv {
			nt++
		}
		scheds[r.SchedHash] = true
		shapes[r.Plan.Scn+r.Shape] = true
		if len(samples) < 3 && r.Nontriv {
			samples = append(samples, map[string]interface{}{"seed": r.Plan.Seed, "plan": r.Plan, "outcome": r.Shape, "sim_seconds": r.SimTime, "schedule_hash": fmt.Sprintf("%016x", r.SchedHash)})
		}
	}
	if len(samples) == 0 && n > 0 {
		for _, r := range rs {
			if r != nil {
				samples = append(samples, map[string]interface{}{"seed": r.Plan.Seed, "plan": r.Plan, "outcome": r.Shape})
				break
			}
		}
	}
	wall := time.Since(d.t0).Seconds()
	faults := map[string]int{}
	other := map[string]int{}
	for k, v := range stat {
		if v == 0 {
			continue
		}
		if strings.HasPrefix(k, "fault.") || strings.HasPrefix(k, "disk.fault") || strings.HasPrefix(k, "disk.lost") || strings.HasPrefix(k, "disk.crash") ||
			k == "net.lost_frame" || k == "net.cut" || k == "net.conn_break" || k == "net.conn_killed" || k == "net.slow_chunk" || k == "net.fragment" || k == "net.injected" || k == "stalls" || k == "net.window_full" {
			faults[k] = v
		} else {
			other[k] = v
		}
	}
	var fk []string
	for k := range d.known {
		fk = append(fk, d.known[k].Key)
	}
	sort.Strings(fk)
	ev := map[string]interface{}{
		"property": d.prop.ID, "tier": d.tier, "seed": d.seed, "level": "exploration", "wall_s": wall, "violations": viol,
		"coverage": map[string]interface{}{
			"evaluations": n, "distinct_nontrivial": nt,
			"rule":                     "one evaluation is one whole simulated run generated from one seed; it counts as distinct and non-trivial when its sequence of scheduling decisions (hash over every choice of the next goroutine) has not occurred before in this batch and the situation the property is about really arose in the run (recorded by the oracle)",
			"samples":                  samples,
			"runs_per_hour":            float64(n) / wall * 3600,
			"seeds_per_hour":           float64(n) / wall * 3600,
			"simulated_seconds":        sim,
			"scenarios":                scn,
			"faults_injected":          faults,
			"events":                   other,
			"distinct_schedules":       len(scheds),
			"distinct_outcomes":        len(shapes),
			"scheduling_decisions":     picks,
			"decisions_with_choice":    multi,
			"max_yield_sites_in_a_run": sites,
			"determinism_double_runs":  len(det),
			"determinism_mismatch":     detBad,
			"components": map[string]string{
				"go-tss (all packages)":       "real code, statement-level yield points inserted in a copy",
				"tss-lib (protocol and math)": "real code, with pre-parameters of small moduli (768/256 bit) for speed",
				"libp2p host, DHT, discovery": "stub: simulated network with the host/stream interfaces",
				"libp2p ping, peerstore":      "real code",
				"goroutine scheduler, timers": "Go runtime with seeded choice of the next goroutine and virtual time",
				"disk":                        "real files below a scratch folder under a crash/fault model at the system-call boundary",
				"crypto/rand":                 "stub: seeded generator",
			},
			"known_findings_listed": fk,
		},
		"assumptions": []string{"sampled executions, not all executions", "small-moduli pre-parameters exercise the same protocol code"},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755))
	must(os.WriteFile(filepath.Join(d.verif, "evidence", d.prop.ID+".json"), b, 0o644))
	fmt.Printf("%s: %d runs (%d non-trivial), %.0f simulated seconds, %d distinct schedules, %d outcomes, %.0f s\n", d.prop.ID, n, nt, sim, len(scheds), len(shapes), wall)
}

var _ = simrt.Label
