//go:build go1.22

package core

import (
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

var reFrame = regexp.MustCompile(`(?m)^\s+(\S+)\(.*\)\n\s+(\S+):(\d+)`)

// raceSide finds where an access happened: the innermost frame of the system (its libraries' frames are
// skipped), or "" when the harness made it.
func raceSide(sec string) (fn, pos string) {
	for _, f := range reFrame.FindAllStringSubmatch(sec, -1) {
		if strings.Contains(f[1], "/verifsim/") {
			return "", ""
		}
		if strings.Contains(f[1], "go-tss/") || strings.Contains(f[1], "tss-lib") {
			return f[1][strings.LastIndex(f[1], "/")+1:], filepath.Base(f[2]) + ":" + f[3]
		}
	}
	return "", ""
}

// judgeRaces reports what the race detector saw in this process.
func judgeRaces(c *Cluster, prop string) {
	simrt.Silent()
	defer simrt.Loud()
	files, _ := filepath.Glob("race.*")
	for _, name := range files {
		b, err := os.ReadFile(name)
		must(err)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "DATA RACE") {
				continue
			}
			secs := strings.Split(strings.TrimSpace(blk), "\n\n")
			if len(secs) < 2 {
				continue
			}
			a, pa := raceSide(secs[0])
			d, pd := raceSide(secs[1])
			if a == "" || d == "" {
				c.Stat["race.harness"]++
				continue
			}
			fns := []string{a, d}
			sort.Strings(fns)
			c.Fail(prop, "race "+fns[0]+" / "+fns[1], "%s (%s) and %s (%s) access the same memory without synchronisation, one of them writing\n%s", a, pa, d, pd, strings.TrimSpace(blk))
		}
	}
}

func init() {
	// C22: no data races
	from := []string{"C12", "C03", "C14", "C08", "C17", "C10", "C18", "C13", "C21", "C09", "C16", "C20", "C04", "C06", "C07", "C02", "C05"}
	like := func(p *Plan) *Prop { return Props[from[p.Params["like"]]] }
	register(&Prop{ID: "C22", Count: counts(700, 20000),
		Setup: func(c *Cluster) {
			if f := like(c.P).Setup; f != nil {
				f(c)
			}
		},
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			k := int64(r.Intn(len(from)))
			Props[from[k]].Gen(r, p, tier)
			if p.Params == nil {
				p.Params = map[string]int64{}
			}
			p.Params["like"] = k
		},
		Run: func(c *Cluster) {
			run := like(c.P).Run
			if run == nil {
				run = RunStandard
			}
			run(c)
		},
		Judge: func(c *Cluster) {
			if f := like(c.P).Judge; f != nil {
				f(c)
			}
			c.nontrivial = simrt.Race && len(c.Calls) > 1
			judgeRaces(c, "C22")
		},
	})
}
