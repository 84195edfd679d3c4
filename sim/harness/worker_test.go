//go:build go1.23

package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/danomagnum/gologix/internal/vsim/simrt"
)

// Spec describes one run.
type Spec struct {
	Prop   string        `json:"prop"`
	Seed   uint64        `json:"seed"`
	Replay simrt.Streams `json:"streams,omitempty"`
	Avoid  []string      `json:"avoid,omitempty"`
	Only   string        `json:"only,omitempty"`
	Trace  bool          `json:"-"`
}

// Outcome is the result of one run.
type Outcome struct {
	Viol     *simrt.Violation
	Steps    int
	Switches int
	Sim      time.Duration
	Hash     uint64
	SHash    uint64
	Stats    map[string]int64
	Rec      simrt.Streams
	Log      []string
	Dirty    bool
	Scen     string
	Nontriv  bool
}

func runOne(t *testing.T, sp Spec) (o Outcome) {
	ck := checks[sp.Prop]
	if ck == nil {
		t.Fatalf("no check for %s", sp.Prop)
	}
	synctest.Test(t, func(t *testing.T) {
		var h *H
		s := simrt.Run(simrt.Config{Seed: sp.Seed, Replay: sp.Replay, Trace: sp.Trace, MaxSimTime: ck.MaxSim}, func(s *simrt.Sim) {
			resetPackages()
			h = &H{S: s, Prop: sp.Prop, avoid: map[string]bool{}, only: sp.Only}
			if ck.Keys != nil {
				h.keys = map[string]bool{}
				for _, k := range ck.Keys {
					h.keys[k] = true
				}
			}
			for _, a := range sp.Avoid {
				h.avoid[a] = true
			}
			var use []Scen
			var ws []int
			for _, sc := range ck.Scen {
				if sc.Only == sp.Only {
					use = append(use, sc)
					ws = append(ws, max(sc.Weight, 1))
				}
			}
			if len(use) == 0 {
				panic("no scenario for " + sp.Prop + " " + sp.Only)
			}
			i := s.Pick("cfg.scen", ws...)
			o.Scen = use[i].Name
			use[i].Run(h)
			o.Sim = s.Now()
		})
		if v := s.Violated(); v != nil {
			o.Viol = v
		}
		if o.Sim == 0 {
			o.Sim = s.Now()
		}
		o.Steps, o.Switches, o.Hash, o.SHash = s.Steps, s.Switches, s.Hash(), s.SchedHash()
		o.Stats, o.Log, o.Dirty = s.Stats, s.Log, s.Dirty
		o.Rec = s.Recorded()
		if h != nil {
			o.Nontriv = h.Nontrivial
		}
	})
	return
}

// ---------------------------------------------------------------- worker

type job struct {
	Mode     string        `json:"mode"` // search, replay, determinism
	Prop     string        `json:"prop"`
	From     uint64        `json:"from"`
	Step     uint64        `json:"step"`
	Count    int           `json:"count"`
	Seconds  float64       `json:"seconds"`
	Shrink   float64       `json:"shrink"`
	Avoid    []string      `json:"avoid"`
	Only     string        `json:"only"`
	Out      string        `json:"out"`
	Stop     string        `json:"stop"` // stop when this file exists
	Streams  simrt.Streams `json:"streams"`
	Seed     uint64        `json:"seed"`
	Trace    bool          `json:"trace"`
	NoShrink bool          `json:"noshrink"`
	Current  string        `json:"current"`
}

type report struct {
	Runs       int               `json:"runs"`
	SimSeconds float64           `json:"sim_seconds"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	Stats      map[string]int64  `json:"stats"`
	Scens      map[string]int    `json:"scens"`
	Nontrivial int               `json:"nontrivial"`
	SHashes    []string          `json:"shashes"`
	Samples    []string          `json:"samples,omitempty"`
	Hashes     map[string]string `json:"hashes,omitempty"`
	Dirty      int               `json:"dirty"`
	Next       uint64            `json:"next"`
	Finished   bool              `json:"finished"`
	Viol       *found            `json:"viol,omitempty"`
	Shrink     int               `json:"shrink_runs"`
	Log        []string          `json:"log,omitempty"`
	Hash       string            `json:"hash,omitempty"`
	Failing    int               `json:"failing"`
	NonDet     string            `json:"nondeterminism,omitempty"`
	Rechecked  int               `json:"rechecked"`
	Survey     map[string]*found `json:"survey,omitempty"`
}

type found struct {
	Seed    uint64        `json:"seed"`
	Key     string        `json:"key"`
	Msg     string        `json:"msg"`
	Hash    string        `json:"hash"`
	Scen    string        `json:"scen"`
	Streams simrt.Streams `json:"streams"`
	Choices int           `json:"choices"`
	Before  int           `json:"choices_before"`
}

func nonzero(st simrt.Streams) (n int) {
	for _, v := range st {
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
	}
	return
}

func TestWorker(t *testing.T) {
	f := os.Getenv("VW_JOB")
	if f == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(f)
	if err != nil {
		t.Fatal(err)
	}
	var j job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	rep := &report{Stats: map[string]int64{}, Scens: map[string]int{}}
	flush := func() {
		b, _ := json.Marshal(rep)
		if err := os.WriteFile(j.Out+".tmp", b, 0644); err != nil {
			t.Fatal(err)
		}
		os.Rename(j.Out+".tmp", j.Out)
	}
	base := Spec{Prop: j.Prop, Avoid: j.Avoid, Only: j.Only}
	if j.Mode == "replay" {
		sp := base
		sp.Seed = j.Seed
		sp.Replay = j.Streams
		sp.Trace = j.Trace
		o := runOne(t, sp)
		rep.Runs = 1
		rep.Log = o.Log
		rep.Hash = fmt.Sprintf("%016x", o.Hash)
		if o.Viol != nil {
			rep.Viol = &found{Seed: j.Seed, Key: o.Viol.Key, Msg: o.Viol.Msg, Hash: rep.Hash, Scen: o.Scen}
		}
		rep.Finished = true
		flush()
		return
	}
	start := time.Now()
	var cf *os.File // tells the driver which seed is running should this process die
	if j.Current != "" {
		if cf, err = os.Create(j.Current); err != nil {
			t.Fatal(err)
		}
		defer cf.Close()
	}
	if j.Mode == "hashes" {
		rep.Hashes = map[string]string{}
	}
	shs := map[uint64]bool{}
	for i := 0; j.Count == 0 || i < j.Count; i++ {
		if j.Seconds > 0 && time.Since(start).Seconds() > j.Seconds {
			break
		}
		if j.Stop != "" && i%8 == 0 {
			if _, err := os.Stat(j.Stop); err == nil {
				break
			}
		}
		sp := base
		sp.Seed = j.From + uint64(i)*j.Step
		rep.Next = sp.Seed + j.Step
		if cf != nil {
			cf.WriteAt([]byte(fmt.Sprintf("%20d\n", sp.Seed)), 0)
		}
		o := runOne(t, sp)
		rep.Runs++
		rep.SimSeconds += o.Sim.Seconds()
		rep.Steps += int64(o.Steps)
		rep.Switches += int64(o.Switches)
		rep.Scens[o.Scen]++
		for k, v := range o.Stats {
			rep.Stats[k] += v
		}
		nontriv := o.Nontriv
		for k := range o.Stats {
			if strings.HasPrefix(k, "fault.") || k == "sync.contended" {
				nontriv = true
			}
		}
		if nontriv {
			rep.Nontrivial++
			if len(shs) < 400000 {
				shs[o.Hash] = true
			}
			if len(rep.Samples) < 1 && rep.Runs > 5 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("seed %d, scenario %s: %d steps, %d switches, %.3f s simulated, faults %v", sp.Seed, o.Scen, o.Steps, o.Switches, o.Sim.Seconds(), faultsOf(o.Stats)))
			}
		}
		if rep.Hashes != nil {
			rep.Hashes[fmt.Sprint(sp.Seed)] = fmt.Sprintf("%016x/%s", o.Hash, key(o))
		}
		if i%50 == 0 && rep.Hashes == nil {
			// self check: the same seed and its recorded choices give the same run
			o2 := runOne(t, sp)
			sp3 := sp
			sp3.Replay = o.Rec
			o3 := runOne(t, sp3)
			rep.Rechecked++
			if o2.Hash != o.Hash || o3.Hash != o.Hash {
				rep.NonDet = fmt.Sprintf("seed %d: %016x %016x %016x", sp.Seed, o.Hash, o2.Hash, o3.Hash)
				flush()
				return
			}
		}
		if o.Dirty {
			rep.Dirty++
		}
		if o.Viol != nil && rep.Hashes == nil {
			rep.Failing++
			if j.NoShrink {
				// survey: go on and collect the classes of violations
				if rep.Survey == nil {
					rep.Survey = map[string]*found{}
				}
				k := o.Viol.Key
				if k == "crash" || k == "livelock" || k == "hang" {
					k += crashSite(o.Viol.Msg)
				}
				if rep.Survey[k] == nil {
					rep.Survey[k] = &found{Seed: sp.Seed, Key: o.Viol.Key, Msg: o.Viol.Msg, Streams: o.Rec}
				}
				rep.Survey[k].Choices++
				continue
			}
			if rep.Viol == nil {
				rep.Viol = &found{Seed: sp.Seed, Key: o.Viol.Key, Msg: o.Viol.Msg, Hash: fmt.Sprintf("%016x", o.Hash), Scen: o.Scen, Streams: o.Rec, Choices: nonzero(o.Rec), Before: nonzero(o.Rec)}
				flush()
			}
			shrink(t, base, rep, time.Duration(j.Shrink*float64(time.Second)))
			break
		}
	}
	for k := range shs {
		rep.SHashes = append(rep.SHashes, fmt.Sprintf("%x", k))
	}
	sort.Strings(rep.SHashes)
	rep.Finished = true
	flush()
}

func crashSite(msg string) string {
	out := ""
	for _, l := range strings.Split(msg, "\n") {
		if strings.Contains(l, "    at ") {
			out += " " + strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "at "))
			if strings.Count(out, " ") > 2 {
				break
			}
		}
	}
	return out
}

func key(o Outcome) string {
	if o.Viol != nil {
		return o.Viol.Key
	}
	return ""
}

// shrink minimises the choice streams of the found violation, keeping its class.
func shrink(t *testing.T, base Spec, rep *report, budget time.Duration) {
	end := time.Now().Add(budget)
	best := rep.Viol
	cur := best.Streams
	try := func(st simrt.Streams) bool {
		if time.Now().After(end) {
			return false
		}
		sp := base
		sp.Seed = best.Seed
		sp.Replay = st
		o := runOne(t, sp)
		rep.Shrink++
		if o.Viol == nil || o.Viol.Key != best.Key {
			return false
		}
		n, b := nonzero(o.Rec), nonzero(cur)
		if n > b || n == b && size(o.Rec) >= size(cur) {
			return false
		}
		cur = o.Rec
		best.Msg, best.Hash, best.Streams, best.Choices = o.Viol.Msg, fmt.Sprintf("%016x", o.Hash), o.Rec, n
		return true
	}
	clone := func() simrt.Streams {
		c := simrt.Streams{}
		for k, v := range cur {
			c[k] = append([]uint32(nil), v...)
		}
		return c
	}
	names := func() (ns []string) {
		for k := range cur {
			ns = append(ns, k)
		}
		sort.Slice(ns, func(i, j int) bool {
			a, b := ns[i], ns[j]
			oa, ob := strings.HasPrefix(a, "op"), strings.HasPrefix(b, "op")
			if oa != ob {
				return oa
			}
			return a < b
		})
		return
	}
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		for _, n := range names() {
			c := clone()
			delete(c, n)
			if try(c) {
				progress = true
			}
		}
		for _, n := range names() {
			// zero chunks
			for w := len(cur[n]); w >= 1; w /= 2 {
				for i := 0; i < len(cur[n]); i += w {
					c := clone()
					any := false
					for k := i; k < i+w && k < len(c[n]); k++ {
						if c[n][k] != 0 {
							any = true
						}
						c[n][k] = 0
					}
					if any && try(c) {
						progress = true
					}
				}
			}
		}
		for _, n := range names() {
			// delete single choices, lower values
			for i := 0; i < len(cur[n]) && i < 60; i++ {
				c := clone()
				c[n] = append(c[n][:i:i], c[n][i+1:]...)
				if try(c) {
					progress = true
					continue
				}
				for _, v := range []uint32{1, cur[n][i] / 2, cur[n][i] - 1} {
					if i >= len(cur[n]) || cur[n][i] == 0 || v >= cur[n][i] || v == 0 {
						continue
					}
					c := clone()
					c[n][i] = v
					if try(c) {
						progress = true
						break
					}
				}
			}
		}
	}
}

func size(st simrt.Streams) (n int) {
	for _, v := range st {
		for _, x := range v {
			n += 1 + int(min(x, 1000))
		}
	}
	return
}

func faultsOf(st map[string]int64) string {
	var out []string
	for k, v := range st {
		if strings.HasPrefix(k, "fault.") {
			out = append(out, fmt.Sprintf("%s x%d", k[6:], v))
		}
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "none (contended schedule)"
	}
	return strings.Join(out, ", ")
}
