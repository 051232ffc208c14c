//go:build go1.22

package core

import (
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"
	"unsafe"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

var reAddr = regexp.MustCompile(`0x[0-9a-f]+|\+0x[0-9a-f]+|goroutine \d+`)

// goroutines counts the goroutines of the system by where they were started and where they wait.
func goroutines() map[string]int {
	buf := make([]byte, 32<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		lines := strings.Split(g, "\n")
		by, at := "", ""
		for _, l := range lines[1:] {
			if strings.HasPrefix(l, "\t") {
				continue
			}
			if strings.HasPrefix(l, "created by ") {
				by = strings.TrimPrefix(l, "created by ")
				if i := strings.Index(by, " in goroutine"); i > 0 {
					by = by[:i]
				}
			} else if at == "" && (strings.Contains(l, "go-tss/") || strings.Contains(l, "tss-lib/")) && !strings.Contains(l, "verifsim") {
				at = l
				if i := strings.LastIndex(at, "("); i > 0 {
					at = at[:i]
				}
			}
		}
		if at == "" || strings.Contains(at, "verifsim") {
			continue
		}
		out[short(at)+" < "+short(by)]++
	}
	return out
}

func short(s string) string {
	return strings.TrimPrefix(strings.TrimPrefix(s, "gitlab.com/thorchain/tss/go-tss/"), "github.com/binance-chain/")
}

// holdings counts what the maps and lists of a server hold, by where they are.
func holdings(srv interface{}) map[string]int {
	out := map[string]int{}
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, path string, depth int)
	walk = func(v reflect.Value, path string, depth int) {
		if depth > 12 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(v.Elem(), path, depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), path, depth+1)
			}
		case reflect.Struct:
			t := v.Type()
			if !strings.Contains(t.PkgPath(), "go-tss") || strings.Contains(t.PkgPath(), "verifsim") || strings.HasSuffix(t.PkgPath(), "/monitor") || strings.HasSuffix(t.PkgPath(), "/storage") {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), path+"."+t.Field(i).Name, depth+1)
			}
		case reflect.Map:
			out[path] += v.Len()
			it := v.MapRange()
			for it.Next() {
				walk(it.Value(), path+"[]", depth+1)
			}
		case reflect.Slice:
			if k := v.Type().Elem().Kind(); k == reflect.Uint8 {
				return
			}
			out[path] += v.Len()
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), path+"[]", depth+1)
			}
		case reflect.Chan:
			out[path] += v.Len()
		}
	}
	walk(reflect.ValueOf(srv), "", 0)
	return out
}

func (c *Cluster) census() map[string]int {
	out := map[string]int{}
	for k, v := range goroutines() {
		out["goroutine "+k] = v
	}
	for i, nd := range c.Nodes {
		if nd.Srv == nil || nd.Started > 1 { // a node that came back starts with the addresses it saved
			continue
		}
		for k, v := range holdings(nd.Srv) {
			out[NodeName(i)+k] += v
		}
		for _, s := range c.Net.LiveStreams(Ids[i].Peer) {
			f := strings.Fields(s)
			out[NodeName(i)+" stream "+f[1]]++
		}
	}
	return out
}

func init() {
	// C19: finished ceremonies release everything
	from := []string{"C01", "C03", "C03", "C04", "C05", "C05", "C06", "C07", "C12", "C12", "C10", "C18", "C20"}
	register(&Prop{ID: "C19", Count: counts(900, 30000), Setup: func(c *Cluster) { c.Injecting() },
		Gen: func(r *simrt.RNG, p *Plan, tier string) {
			Props[from[r.Intn(len(from))]].Gen(r, p, tier)
			var fs []Fault
			for _, f := range p.Faults {
				// a dead process holds nothing; one that was stopped in good order must not either
				if !strings.HasPrefix(f.Kind, "crash") {
					fs = append(fs, f)
				}
			}
			p.Faults = fs
			p.Monitor = -1
		},
		Run: func(c *Cluster) {
			c.StartAll()
			time.Sleep(60 * time.Second)
			before := c.census()
			c.Rough()
			c.RunOps()
			c.Calm()
			c.Recover()
			// longer than any deadline on a stream, and than the time a node keeps one that nobody releases
			time.Sleep(120 * time.Second)
			for _, cl := range c.Calls {
				if !cl.Done {
					return // C04 is about calls that do not return
				}
			}
			after := c.census()
			c.nontrivial = len(c.Calls) > 0
			var ks []string
			for k := range after {
				if after[k] > before[k] {
					ks = append(ks, k)
				}
			}
			sort.Strings(ks)
			for _, k := range ks {
				what := k
				if !strings.HasPrefix(k, "goroutine ") {
					what = k[strings.IndexAny(k, " .")+1:]
				}
				c.Fail("C19", what, "%s: %d, before the ceremonies %d", k, after[k], before[k])
			}
		},
	})
}
