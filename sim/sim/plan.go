package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/RomiChan/protobuf/proto"
	"github.com/RomiChan/protobuf/verifsim/ref"
	"github.com/RomiChan/protobuf/verifsim/reset"
	"github.com/RomiChan/protobuf/verifsim/simrt"
)

// Hex is a byte string that travels as hexadecimal text.
type Hex []byte

// MarshalJSON writes the bytes in hexadecimal.
func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

// UnmarshalJSON reads hexadecimal.
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*h = x
	return err
}

// Op is one operation of a plan.
type Op struct {
	K    string  `json:"k"`
	Task int     `json:"task"` // -1 before the tasks start, -2 after all ended
	T    int     `json:"t"`
	V    int     `json:"v,omitempty"` // value
	D    int     `json:"d,omitempty"` // destination, peer, ...
	B    Hex     `json:"b,omitempty"`
	A    []int64 `json:"a,omitempty"`
	S    string  `json:"s,omitempty"`
	At   int64   `json:"at,omitempty"` // simulated time in microseconds
}

// Val is a message of a plan, in the reference encoding.
type Val struct {
	T int `json:"t"`
	B Hex `json:"b"`
	// S, if not zero, chooses how the message is represented (ref.Sprinkle).
	S uint64 `json:"s,omitempty"`
}

// Sched is the schedule of a plan.
type Sched struct {
	Mode      int           `json:"mode"`
	Seed      uint64        `json:"seed"`
	MapSeed   uint64        `json:"mapseed"`
	Gap       uint64        `json:"gap,omitempty"`
	Depth     int           `json:"depth,omitempty"`
	Hot       []uint32      `json:"hot,omitempty"`
	PGC       int           `json:"pgc,omitempty"`
	PMark     int           `json:"pmark,omitempty"`
	PStack    int           `json:"pstack,omitempty"`
	PPoolDrop int           `json:"ppooldrop,omitempty"`
	PPoolMiss int           `json:"ppoolmiss,omitempty"`
	PPoolAlt  int           `json:"ppoolalt,omitempty"`
	KillTask  int           `json:"killtask,omitempty"`
	KillAt    uint64        `json:"killat,omitempty"`
	Replay    bool          `json:"replay"`
	Events    []simrt.Event `json:"events,omitempty"`
}

// Plan is one execution, completely: it runs the same way every time.
type Plan struct {
	Prop  string           `json:"prop"`
	Seed  uint64           `json:"seed"`
	Mode  string           `json:"mode,omitempty"`
	Types []*ref.TSpec     `json:"types,omitempty"`
	Vals  []Val            `json:"vals,omitempty"`
	Ops   []Op             `json:"ops,omitempty"`
	Tasks int              `json:"tasks,omitempty"`
	Sched Sched            `json:"sched"`
	P     map[string]int64 `json:"p,omitempty"`
	Slots []SlotSpec       `json:"slots,omitempty"`

	simEnd int64
}

// SlotSpec is a message variable: its type and, plus one, its first value.
type SlotSpec struct {
	T int `json:"t"`
	V int `json:"v,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func violf(class, f string, a ...interface{}) *Violation {
	return &Violation{class, fmt.Sprintf(f, a...)}
}

// Stats is what a worker measured.
type Stats struct {
	Runs      int64            `json:"runs"`
	Nontriv   int64            `json:"nontriv"`
	Calls     int64            `json:"calls"`
	Steps     uint64           `json:"steps"`
	SimMicros int64            `json:"sim_us"`
	Switches  int64            `json:"switches"`
	Count     map[string]int64 `json:"count"`
	Hashes    []uint64         `json:"-"`
	States    map[uint64]bool  `json:"-"`
	Samples   []string         `json:"samples"`
	Digest    uint64           `json:"digest"`
	LastHash  uint64           `json:"-"`
	trivial   bool
	key       uint64 // what makes the run distinct; 0: its digest
}

func newStats() *Stats { return &Stats{Count: map[string]int64{}, States: map[uint64]bool{}} }

// digest folds an observation into the event log digest of the run.
func (st *Stats) digest(b []byte) {
	h := st.Digest
	if h == 0 {
		h = 0xcbf29ce484222325
	}
	for _, c := range b {
		h ^= uint64(c)
		h *= 0x100000001b3
	}
	st.Digest = h
}

func hashBytes(b []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, c := range b {
		h ^= uint64(c)
		h *= 0x100000001b3
	}
	return h ^ h>>31
}

func (st *Stats) state(h uint64) {
	if len(st.States) < 1<<20 {
		st.States[h] = true
	}
}

// sched runs the plan's tasks under its schedule and leaves the recorded
// decisions in the plan.
func (p *Plan) sched(st *Stats, opCap uint64, est uint64, fns []func()) simrt.Result {
	s := &p.Sched
	c := simrt.Config{Seed: s.Seed, MapSeed: s.MapSeed, Replay: s.Replay, Mode: s.Mode, Gap: s.Gap, Depth: s.Depth,
		EstSteps: est, PGC: s.PGC, PMark: s.PMark, PStack: s.PStack, PPoolDrop: s.PPoolDrop, PPoolMiss: s.PPoolMiss, PPoolAlt: s.PPoolAlt,
		KillTask: s.KillTask, KillAt: s.KillAt, OpCap: opCap, Hot: s.Hot, Events: s.Events}
	r := simrt.Run(c, fns)
	if !s.Replay {
		s.Events = r.Events
	}
	st.Steps += r.Steps
	st.Switches += int64(r.Switches)
	st.Hashes = append(st.Hashes, r.Hash)
	st.LastHash = r.Hash
	st.add("preempt", r.Switches)
	st.add("gc", r.GCs)
	st.add("gc_part", r.Marks)
	st.add("stack_move", r.Stacks)
	st.add("pool_drop", r.PoolDrops)
	st.add("pool_miss", r.PoolMisses)
	st.add("pool_other_entry", r.PoolAlts)
	st.add("blocked", r.Blocks)
	st.add("sync_ops", r.SyncOps)
	if r.Killed {
		st.add("crash", 1)
	}
	var b [8]byte
	for i := range b {
		b[i] = byte(r.Hash >> (8 * uint(i)))
	}
	st.digest(b[:])
	return r
}

func (st *Stats) add(k string, n int) {
	if n != 0 {
		st.Count[k] += int64(n)
	}
}

// schedViolation turns a failed schedule into a violation.
func schedViolation(r *simrt.Result) *Violation {
	if r.Deadlock {
		var at []string
		for i, s := range r.BlockedAt {
			if s != 0 {
				at = append(at, fmt.Sprintf("task %d at %s", i, siteName(s)))
			}
		}
		return violf("deadlock", "no task can run any more: %s", strings.Join(at, ", "))
	}
	if r.Hang {
		return violf("hang", "task %d did not finish its operation within its step budget, last seen at %s", r.HangTask, siteName(r.BlockedAt[r.HangTask]))
	}
	return nil
}

// randSched draws a schedule. sites is the number of instrumented sites.
func randSched(r *ref.Rng, tasks int) Sched {
	s := Sched{Seed: r.U64(), MapSeed: r.U64()}
	if tasks > 1 {
		switch r.Intn(10) {
		case 0, 1, 2, 3:
			s.Mode = 1
			s.Gap = uint64(r.Pick(2, 5, 15, 40, 120, 400, 1500))
		case 4, 5:
			s.Mode = 2
			s.Depth = 1 + r.Intn(6)
		case 6, 7:
			s.Mode = 3
			if r.P(500) {
				for i := r.Intn(5); i >= 0; i-- {
					s.Hot = append(s.Hot, uint32(1+r.Intn(len(siteTab))))
				}
			} else if len(siteTab) > 0 {
				fn := siteTab[r.Intn(len(siteTab))].fn
				for i, x := range siteTab {
					if x.fn == fn {
						s.Hot = append(s.Hot, uint32(i+1))
					}
				}
			}
			if r.P(300) {
				s.Gap = uint64(r.Pick(100, 600))
			}
		default:
			s.Mode = 4
			if r.P(300) {
				s.Gap = uint64(r.Pick(100, 600))
			}
		}
	}
	if r.P(400) {
		s.PPoolMiss = r.Pick(50, 300, 700)
	}
	if r.P(400) {
		s.PPoolAlt = r.Pick(100, 500)
	}
	return s
}

// typ is the Go type of type i of the plan.
func (p *Plan) typ(i int) reflect.Type { return p.Types[i].Type() }

// msg builds value i.
func (p *Plan) msg(i int) reflect.Value {
	v, st := ref.Decode(p.typ(p.Vals[i].T), p.Vals[i].B)
	if st != ref.OK {
		panic(fmt.Sprintf("plan: value %d: %v", i, st))
	}
	p.represent(i, v)
	return v
}

// represent gives the message v with the contents of value i the memory layout
// that the plan wants.
func (p *Plan) represent(i int, v reflect.Value) {
	if s := p.Vals[i].S; s != 0 {
		ref.Sprinkle(v, ref.NewRng(s))
	}
}

// resetWorld gives the library the state it has at program start.
func resetWorld() {
	reset.All()
	reused = map[reuseKey]reflect.Value{}
	buffers = map[int][]byte{}
}

// reused and buffers are messages and input buffers that the program uses
// again, one for each task and type.
var (
	reused  = map[reuseKey]reflect.Value{}
	buffers = map[int][]byte{}
)

type reuseKey struct{ task, t int }

// reuse puts the contents of m into the message that the task of o uses again
// and again, if o says so.
func reuse(o *Op, m reflect.Value) reflect.Value {
	if o.D == 0 {
		return m
	}
	k := reuseKey{o.Task, o.T}
	s, ok := reused[k]
	if !ok {
		reused[k] = m
		return m
	}
	s.Elem().Set(m.Elem())
	return s
}

// input gives the bytes of o in memory of their own or, if o says so, in the
// buffer that its task uses again and again.
func input(o *Op) []byte {
	if o.D == 0 {
		return append([]byte(nil), o.B...)
	}
	b := append(buffers[o.Task][:0], o.B...)
	buffers[o.Task] = b
	return b
}

// call results

type result struct {
	panicked string
	err      error
	out      []byte
	size     int
	done     bool
	steps    uint64
	// again describes the result as it is now
	again func() string
}

func guarded(res *result, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(error); ok {
				res.panicked = "panic: " + e.Error()
			} else {
				res.panicked = fmt.Sprintf("panic: %v", x)
			}
			res.done = true
		}
	}()
	f()
	res.done = true
}

func doMarshal(m interface{}) (res result) {
	simrt.BeginOp()
	s := simrt.Steps()
	guarded(&res, func() { res.out, res.err = proto.Marshal(m) })
	res.steps = simrt.Steps() - s
	return
}

func doSize(m interface{}) (res result) {
	simrt.BeginOp()
	s := simrt.Steps()
	guarded(&res, func() { res.size = proto.Size(m) })
	res.steps = simrt.Steps() - s
	return
}

func doUnmarshal(b []byte, m interface{}) (res result) {
	simrt.BeginOp()
	s := simrt.Steps()
	guarded(&res, func() { res.err = proto.Unmarshal(b, m) })
	res.steps = simrt.Steps() - s
	return
}

// errClass is what callers can tell about an error.
func errClass(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "unexpected EOF"
	}
	return "error"
}

// safeCanon is Canon of a message that may have been corrupted.
func safeCanon(v reflect.Value) (c []byte, err string) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Sprintf("the message cannot be read: %v", x)
		}
	}()
	return ref.Canon(v), ""
}

// outcomeMarshal describes what Marshal returned: output with the map order
// taken out.
func outcomeMarshal(t reflect.Type, r *result) string {
	if r.panicked != "" {
		return r.panicked
	}
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	v, st := ref.Decode(t, r.out)
	if st != ref.OK {
		// not a valid encoding (and which bytes it consists of may depend on
		// the order of a map): for other properties to judge
		return fmt.Sprintf("%d bytes, %v", len(r.out), st)
	}
	return fmt.Sprintf("%d bytes: %x", len(r.out), ref.Canon(v))
}

func outcomeUnmarshal(v reflect.Value, r *result) string {
	if r.panicked != "" {
		return r.panicked
	}
	if r.err != nil {
		return "error: " + r.err.Error()
	}
	c, bad := safeCanon(v)
	if bad != "" {
		return bad
	}
	return fmt.Sprintf("%x", c)
}

func outcomeSize(r *result) string {
	if r.panicked != "" {
		return r.panicked
	}
	return fmt.Sprint(r.size)
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func firstDiff(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}

func diffMsg(what, got, want string) string {
	i := firstDiff(got, want)
	return fmt.Sprintf("%s\n  got:  %s\n  want: %s\n  (first difference at %d)", what, short(got), short(want), i)
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func gcNow() { runtime.GC() }

type siteInfo struct{ pos, fn string }

var siteTab []siteInfo

func siteName(s uint32) string {
	if s == 0 {
		return "start"
	}
	if int(s) <= len(siteTab) {
		return siteTab[s-1].pos + " " + siteTab[s-1].fn
	}
	names := []string{"Mutex.Lock", "Mutex.Unlock", "RLock", "RUnlock", "Map.Load", "Map.Store", "Map", "Pool.Get", "Pool.Put", "Once", "WaitGroup", "Cond"}
	i := simrt.MaxSites - 1 - int(s)
	if i >= 0 && i < len(names) {
		return "sync." + names[i]
	}
	return fmt.Sprint(s)
}
