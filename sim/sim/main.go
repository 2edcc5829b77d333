// The simulator: runs plans of one property, searches seeds, replays and
// minimises.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"syscall"
	"time"

	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

type scenario struct {
	gen  func(r *ref.Rng, p *Plan)
	run  func(p *Plan, st *Stats) *Violation
	rule string
}

var scenarios = map[string]*scenario{}

// Report is what a worker writes.
type Report struct {
	Prop      string     `json:"prop"`
	Stats     *Stats     `json:"stats"`
	Distinct  int        `json:"distinct"`
	Interleav int        `json:"interleavings"`
	Sites     []int      `json:"sites"`
	SiteTotal int        `json:"site_total"`
	Violation *Violation `json:"violation,omitempty"`
	Seed      uint64     `json:"seed,omitempty"`
	Index     int64      `json:"index,omitempty"`
	Wall      float64    `json:"wall"`
	Rule      string     `json:"rule"`
	Digests   []uint64   `json:"digests,omitempty"`
	FirstSeed uint64     `json:"first_seed"`
	StatesOut []uint64   `json:"states,omitempty"`
	HashesOut []uint64   `json:"hashes,omitempty"`
}

func planFor(prop string, seed uint64) *Plan {
	p := &Plan{Prop: prop, Seed: seed}
	h := seed
	for _, c := range []byte(prop) {
		h = h*1099511628211 + uint64(c)
	}
	r := ref.NewRng(h)
	r.U64()
	ref.HugeRate, ref.HugeSize = 0, 10400
	if n := hugeRates[prop]; n > 0 && ref.NewRng(h^0x40de).Intn(n) == 0 {
		ref.HugeRate = 2
		switch prop {
		case "C01", "C02", "C04", "C14", "C19": // which count every statement
			ref.HugeSize = 5400
		case "C08", "C09":
			ref.HugeSize = 0
		case "C07": // which decodes many times
			ref.HugeSize = 21000
		}
	}
	ref.LongSizes, ref.LongAll = nil, false
	if l := ref.NewRng(h ^ 0x10046); l.P(longRate(prop)) {
		ref.LongSizes = longSizes[:1+l.Intn(len(longSizes))]
		if l.P(400) {
			ref.LongSizes, ref.LongAll = ref.LongSizes[len(ref.LongSizes)-1:], true
		}
	}
	scenarios[prop].gen(r, p)
	return p
}

// longRate is how many plans of a thousand have long texts.
func longRate(prop string) int {
	if prop == "C01" || prop == "C10" {
		return 60
	}
	return 30
}

var longSizes = []int{1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 16, 1 << 18}

func runPlan(p *Plan, st *Stats) *Violation {
	simrt.SetMapSeed(p.Seed*2654435761 + 1)
	resetWorld()
	st.Digest = 0
	st.trivial = false
	st.key = 0
	v := scenarios[p.Prop].run(p, st)
	st.Runs++
	if v != nil {
		st.digest([]byte(v.Class))
	}
	return v
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

func flagVal(name, def string) string {
	for i := 2; i < len(os.Args)-1; i++ {
		if os.Args[i] == "-"+name {
			return os.Args[i+1]
		}
	}
	return def
}

func flagInt(name string, def int64) int64 {
	n, err := strconv.ParseInt(flagVal(name, fmt.Sprint(def)), 10, 64)
	if err != nil {
		fatal("flag %s: %v", name, err)
	}
	return n
}

func setup() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	// Collections are planned. This one is for runs that leave far more garbage
	// than expected; the library's pools do not notice it.
	debug.SetMemoryLimit(2 << 30)
	debug.SetTraceback("all")
	if !simrt.RaceEnabled {
		lim := uint64(flagInt("as", 6144)) << 20
		if lim > 0 {
			_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
		}
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

const gcEvery = 250

// hugeRates: in one of how many plans there are messages with very large fields.
var hugeRates = map[string]int{"C01": 150, "C02": 300, "C03": 100, "C04": 200, "C05": 100, "C06": 200, "C07": 100, "C08": 100, "C09": 100,
	"C10": 100, "C11": 100, "C14": 40, "C17": 100, "C19": 60}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim search|one|digest|replay|minimize|selftest")
	}
	setup()
	switch os.Args[1] {
	case "search":
		search()
	case "range":
		rangeRun()
	case "one":
		// one seed, alone: the plan is written out, then run
		prop := flagVal("prop", "")
		seed, _ := strconv.ParseUint(flagVal("seed", "0"), 10, 64)
		p := planFor(prop, seed)
		if o := flagVal("plan", ""); o != "" {
			writeJSON(o, p)
		}
		finish(p, runPlan(p, newStats()), flagVal("out", ""))
	case "digest":
		digests()
	case "replay":
		var p Plan
		readJSON(flagVal("in", ""), &p)
		finish(&p, runPlan(&p, newStats()), flagVal("out", ""))
	case "minimize":
		minimizeMain()
	default:
		if f := commands[os.Args[1]]; f != nil {
			f()
			return
		}
		fatal("unknown command %s", os.Args[1])
	}
}

var commands = map[string]func(){}

// Replay is a replay file.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Plan      *Plan      `json:"plan"`
}

func finish(p *Plan, v *Violation, out string) {
	if out != "" {
		q := *p
		if v != nil && len(q.Sched.Events) > 0 {
			q.Sched.Replay = true
		}
		writeJSON(out, &Replay{p.Prop, v, &q})
	}
	if v != nil {
		fmt.Printf("%s: %s\n", v.Class, v.Msg)
		os.Exit(1)
	}
	os.Exit(0)
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = ioutil.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fatal("%v", err)
	}
}

func readJSON(path string, v interface{}) {
	b, err := ioutil.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, v)
	}
	if err != nil {
		fatal("%s: %v", path, err)
	}
}

func search() {
	prop := flagVal("prop", "")
	if scenarios[prop] == nil {
		fatal("no scenario %q", prop)
	}
	base, _ := strconv.ParseUint(flagVal("base", "0"), 10, 64)
	w := flagInt("w", 0)
	nw := flagInt("n", 1)
	budget := time.Duration(flagInt("ms", 1000)) * time.Millisecond
	maxRuns := flagInt("max", 1<<40)
	mark, err := os.OpenFile(flagVal("mark", os.DevNull), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fatal("%v", err)
	}
	st := newStats()
	rep := &Report{Prop: prop, Stats: st, SiteTotal: len(siteTab), Rule: scenarios[prop].rule}
	hashes := map[uint64]bool{}
	stop := flagVal("stop", "")
	start := time.Now()
	var mb [16]byte
	for n := int64(0); n < maxRuns; n++ {
		if n%4 == 0 && time.Since(start) > budget {
			break
		}
		if n%64 == 63 && stop != "" {
			if _, err := os.Stat(stop); err == nil {
				break
			}
		}
		seed := base + uint64(w+n*nw)
		if n == 0 {
			rep.FirstSeed = seed
		}
		binary.LittleEndian.PutUint64(mb[:], seed)
		binary.LittleEndian.PutUint64(mb[8:], uint64(n+1))
		_, _ = mark.WriteAt(mb[:], 0)
		p := planFor(prop, seed)
		st.Hashes = st.Hashes[:0]
		v := runPlan(p, st)
		for _, h := range st.Hashes {
			if len(hashes) < 1<<20 {
				hashes[h] = true
			}
		}
		if n < 40 {
			rep.Digests = append(rep.Digests, st.Digest)
		}
		if len(st.Samples) < 2 && !st.trivial && (n > 20 || n == maxRuns-1) {
			st.Samples = append(st.Samples, sample(p))
		}
		if !st.trivial {
			st.Nontriv++
			k := st.key
			if k == 0 {
				k = st.Digest
			}
			st.state(k)
		}
		if v != nil {
			rep.Violation = v
			rep.Seed = seed
			rep.Index = n
			if o := flagVal("plan", ""); o != "" {
				q := *p
				if len(q.Sched.Events) > 0 {
					q.Sched.Replay = true
				}
				writeJSON(o, &q)
			}
			break
		}
		if n%gcEvery == gcEvery-1 || (n%16 == 15 && heapMB() > 600) || p.large() {
			runtime.GC()
		}
	}
	rep.Wall = time.Since(start).Seconds()
	rep.Distinct = len(st.States)
	rep.Interleav = len(hashes)
	cov := simrt.Cov()
	for i := 1; i <= len(siteTab); i++ {
		if cov[i] != 0 {
			rep.Sites = append(rep.Sites, i)
		}
	}
	rep.StatesOut = keysOf(st.States)
	rep.HashesOut = keysOf(hashes)
	if o := flagVal("out", ""); o != "" {
		writeJSON(o, rep)
	} else {
		rep.StatesOut, rep.HashesOut = nil, nil
		b, _ := json.MarshalIndent(rep, "", " ")
		fmt.Println(string(b))
	}
	if rep.Violation != nil {
		os.Exit(1)
	}
}

func keysOf(m map[uint64]bool) []uint64 {
	var o []uint64
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(i, j int) bool { return o[i] < o[j] })
	return o
}

// large tells if a run leaves much garbage behind.
func (p *Plan) large() bool {
	n := 0
	for i := range p.Vals {
		n += len(p.Vals[i].B)
	}
	for i := range p.Ops {
		n += len(p.Ops[i].B)
	}
	return n > 1<<19
}

func heapMB() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc >> 20
}

// rangeRun repeats the runs of a worker up to a seed, for failures that need
// the process history.
func rangeRun() {
	prop := flagVal("prop", "")
	base, _ := strconv.ParseUint(flagVal("base", "0"), 10, 64)
	w, nw, last := flagInt("w", 0), flagInt("n", 1), flagInt("index", 0)
	from := flagInt("from", 0)
	st := newStats()
	for n := from; n <= last; n++ {
		p := planFor(prop, base+uint64(w+n*nw))
		st.Hashes = st.Hashes[:0]
		if v := runPlan(p, st); v != nil {
			fmt.Printf("%s: %s\n", v.Class, v.Msg)
			os.Exit(1)
		}
		if n%gcEvery == gcEvery-1 || (n%16 == 15 && heapMB() > 600) || p.large() {
			runtime.GC()
		}
	}
}

// digests prints the digest of the event log of each seed.
func digests() {
	prop := flagVal("prop", "")
	base, _ := strconv.ParseUint(flagVal("base", "0"), 10, 64)
	count, step := flagInt("count", 10), flagInt("step", 1)
	st := newStats()
	for n := int64(0); n < count; n++ {
		seed := base + uint64(n*step)
		p := planFor(prop, seed)
		v := runPlan(p, st)
		vs := ""
		if v != nil {
			vs = " " + v.Class
		}
		fmt.Printf("%d %016x%s\n", seed, st.Digest, vs)
		if n%16 == 15 && heapMB() > 600 {
			runtime.GC()
		}
	}
}

func sample(p *Plan) string {
	b, _ := json.Marshal(p)
	s := string(b)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}
