//go:build go1.22

package core

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"

	"github.com/rs/zerolog"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

// Prop is a checked property.
type Prop struct {
	ID    string
	Gen   func(r *simrt.RNG, p *Plan, tier string) // fills in a plan
	Setup func(c *Cluster)                         // before anything starts
	Run   func(c *Cluster)                         // nil: start the cluster, run the operations
	Judge func(c *Cluster)                         // looks at the history
	Count func(tier string) int                    // runs
}

// Props is the registry.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// GenPlan derives the plan of a seed.
func GenPlan(prop string, seed uint64, tier string) *Plan {
	p := &Plan{Prop: prop, Seed: seed, Monitor: -1}
	Props[prop].Gen(simrt.NewRNG(seed, "plan"+prop), p, tier)
	return p
}

type lockedReader struct{ r *simrt.RNG }

func (l lockedReader) Read(b []byte) (int, error) { return l.r.Read(b) }

// RunPlan executes one plan in this process and never returns.
func RunPlan(p *Plan, dir, out string, trace bool) {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	if os.Getenv("SIM_LOG") != "" {
		zerolog.SetGlobalLevel(zerolog.DebugLevel)
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetTraceback("all")
	runtime.MemProfileRate = 0
	rand.Reader = lockedReader{simrt.NewRNG(p.Seed, "crypto")}
	debug.SetMemoryLimit(2500 << 20)
	stopProf := func() {}
	if f := os.Getenv("SIM_PROF"); f != "" {
		w, err := os.Create(f)
		must(err)
		must(pprof.StartCPUProfile(w))
		stopProf = pprof.StopCPUProfile
	}
	dir, err := filepath.Abs(dir)
	must(err)
	simrt.Trace = trace
	simrt.Live = os.Getenv("SIM_LIVE") != ""
	simrt.Run(p.Seed^0x5157, p.Sched.Mode, func() {
		simrt.StartLog()
		if p.Sched.NCPU > 0 {
			simrt.SetNCPU(p.Sched.NCPU)
		} else {
			simrt.SetNCPU(2)
		}
		simrt.Yielding(p.Sched.Yield, 0, 0, 0, 0)
		c := NewCluster(p, dir)
		c.Calm()
		pr := Props[p.Prop]
		if pr.Setup != nil {
			pr.Setup(c)
		}
		run := pr.Run
		if run == nil {
			run = RunStandard
		}
		run(c)
		simrt.Quiet()
		if pr.Judge != nil {
			pr.Judge(c)
		}
		res := c.result()
		if trace || len(res.Viol) > 0 {
			res.Trace = simrt.Events(0)
		}
		b, err := json.Marshal(res)
		must(err)
		c.FS.Off()
		must(os.WriteFile(out, b, 0o644))
		stopProf()
		os.Exit(0)
	})
}

// RunStandard starts the cluster and runs the plan's operations.
func RunStandard(c *Cluster) {
	c.StartAll()
	c.Rough()
	c.RunOps()
}

// Calm keeps the network and the scheduler free of long stalls (start-up has
// time-outs of its own that are not configurable); Rough applies the plan's.
func (c *Cluster) Calm() {
	c.Net.K.SlowP = 0
	simrt.Yielding(c.P.Sched.Yield, 0, 0, 0, 0)
}

// Rough applies the plan's disturbances.
func (c *Cluster) Rough() {
	s := &c.P.Sched
	c.Net.K.SlowP = c.P.Net.SlowP
	simrt.Yielding(s.Yield, s.SlowP, s.SlowMask, s.SlowVal, s.SlowMax.D())
}

func (c *Cluster) result() *Result {
	for k, v := range c.Net.Stat {
		c.Stat["net."+k] += v
	}
	for k, v := range c.FS.Stat {
		c.Stat[k] += v
	}
	c.Stat["yields"] = int(simrt.Yields)
	c.Stat["stalls"] = int(simrt.Sleeps)
	r := &Result{Viol: c.Viol, Stat: c.Stat, SimTime: simrt.Now().Seconds(), Sites: simrt.SiteCount, LogHash: simrt.LogHash(), Shape: c.Shape()}
	r.Picks, r.Multi, r.SchedHash = simrt.Stats()
	r.Nontriv = c.nontrivial
	return r
}

// Main is the command line.
func Main(cmd string, args []string) {
	SetupIdents()
	switch cmd {
	case "gen":
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		fmt.Println(string(GenPlan(args[0], seed, args[2]).JSON()))
		os.Exit(0)
	case "child": // PLANFILE DIR OUT [trace]
		b, err := os.ReadFile(args[0])
		must(err)
		var p Plan
		must(json.Unmarshal(b, &p))
		RunPlan(&p, args[1], args[2], len(args) > 3)
	case "seed": // PROP SEED TIER DIR OUT [trace]
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		RunPlan(GenPlan(args[0], seed, args[2]), args[3], args[4], len(args) > 5)
	case "try": // PROP SEED TIER: run in a scratch folder and print everything
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		d := filepath.Join(os.TempDir(), "simtry", "x")
		os.RemoveAll(filepath.Join(os.TempDir(), "simtry"))
		must(os.MkdirAll(d, 0o755))
		RunPlan(GenPlan(args[0], seed, args[2]), d, filepath.Join(os.TempDir(), "simtry.json"), true)
	case "driver": // PROP TIER VERIFDIR
		Driver(args[0], args[1], args[2])
	case "replay": // FILE VERIFDIR
		ReplayFile(args[0], args[1])
	case "mini": // PROP SEED TIER KEY OUT VERIFDIR: minimise one violation into a replay file
		seed, _ := strconv.ParseUint(args[1], 10, 64)
		Mini(args[0], seed, args[2], args[3], args[4], args[5])
	case "props":
		for _, id := range sortedKeys(Props) {
			fmt.Println(id)
		}
		os.Exit(0)
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(3)
	}
}

func sortedKeys(m map[string]*Prop) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
