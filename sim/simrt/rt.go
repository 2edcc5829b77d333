// Package simrt is the deterministic scheduler of the simulation. Exactly one
// task (a caller thread of the library) runs at a time; the instrumented
// library calls Y before every statement, and only there, at simulated
// synchronisation operations and at task ends can another task be chosen.
// Every choice comes from a seeded generator, or from a recorded trace.
//
// Everything that tasks share in here is accessed by norace functions on
// preallocated arrays, and hand-offs are hidden from the race detector, so
// that the only happens-before edges it sees are those of the program itself.
package simrt

import (
	"runtime"
	_ "unsafe" // for linkname
)

//go:linkname verifRand runtime.verifRand
var verifRand uint64

// verifGC starts a collection and leaves it in its mark phase, in which only
// its steps make progress (0), or does some more marking (1), in the
// simulation build's runtime. runtime.GC then brings it to its end.
//
//go:linkname verifGC runtime.verifGC
var verifGC func(op int, work int64)

// how far the collection in progress is; 0 without one
var marking int

// SetMapSeed sets the state of the runtime's random source (map seeds and map
// iteration starts), which the simulation build replaces by a xorshift.
//
//go:norace
func SetMapSeed(s uint64) {
	if s == 0 {
		s = 0x9E3779B97F4A7C15
	}
	verifRand = s
}

const (
	MaxSites   = 1 << 14
	MaxTasks   = 64
	MaxEvents  = 1 << 12
	NoStop     = ^uint64(0)
	NumActions = 6
)

// Actions of a schedule event.
const (
	ActSwitch   = 0 // go on with task Arg
	ActGC       = 1 // run a garbage collection here
	ActStack    = 2 // force the stack of the running goroutine to grow (move)
	ActPoolDrop = 3 // drop everything from all pools
	ActKill     = 4 // the process dies here (all tasks)
	ActMark     = 5 // a garbage collection starts, marks some more, or ends
)

// Event is one non-default decision of the scheduler.
type Event struct {
	Kind int32  // EvStep, EvBlock, EvPool
	Task int32  // task the decision belongs to
	At   uint64 // EvStep: step count of the task; EvBlock, EvPool: count of such points of the task
	Act  int32
	Arg  int32
	Site uint32 // where it happened, for reading only
}

const (
	EvStep  = 0
	EvBlock = 1
	EvPool  = 2
)

// Config of one run.
type Config struct {
	Seed      uint64
	MapSeed   uint64
	Replay    bool
	Events    []Event // Replay: the decisions
	Mode      int     // 0 no preemption, 1 random gaps, 2 PCT, 3 hot sites, 4 sync points
	Gap       uint64  // mean gap for mode 1
	Depth     int     // PCT change points
	EstSteps  uint64  // PCT: estimated steps per task
	Hot       []uint32
	PGC       int // per mille of stops that also collect garbage
	PMark     int // per mille of stops that also do a part of a collection
	PStack    int
	PPoolDrop int
	PPoolMiss int // per mille of pool gets that miss
	PPoolAlt  int // per mille of pool gets that take another entry
	KillTask  int // with KillAt > 0: the process dies when this task makes this step
	KillAt    uint64
	OpCap     uint64 // step cap of one operation
	MaxEvents int
}

// Result of one run.
type Result struct {
	Events     []Event
	Steps      uint64
	Switches   int
	Hash       uint64 // of the (task, site) sequence at switches
	Deadlock   bool
	Hang       bool
	HangTask   int
	Killed     bool
	Overflow   bool
	GCs        int
	Marks      int // parts of collections
	Stacks     int
	PoolDrops  int
	PoolMisses int
	PoolAlts   int
	PoolGets   int
	Blocks     int
	BlockedAt  [MaxTasks]uint32
	TaskSteps  [MaxTasks]uint64
	SyncOps    int
	Left       int // tasks that the code under test started and that had not ended
}

const (
	stRunnable = 0
	stBlocked  = 1
	stDone     = 2
)

type task struct {
	id       int32
	wake     chan struct{}
	fn       func()
	state    int32
	steps    uint64
	nextStop uint64
	planStop uint64
	fairStop uint64
	opStop   uint64
	killStop uint64
	blocks   uint64
	pools    uint64
	evi      int // index of next EvStep for replay
	rand     uint64
	prio     int32
	site     uint32
	syncOps  uint64
	hotNext  bool
	spawned  bool // started by the code under test
	idle     int
}

var (
	cur       *task
	paused    *task
	pauses    int
	tasks     [MaxTasks]*task
	ntasks    int32
	mainWake  = make(chan struct{}, 1)
	killing   bool
	cfg       Config
	res       Result
	rng       uint64
	events    [MaxEvents]Event
	nevents   int
	maxev     int
	cov       [MaxSites]uint8
	hot       [MaxSites]bool
	anyHot    bool
	syncHot   bool
	pctLow    int32
	replayEv  []Event
	poolGen   uint64
	fairSlice uint64 = 60000
)

// Cov returns the sites reached since the program started.
func Cov() *[MaxSites]uint8 { return &cov }

//go:norace
func next() uint64 {
	rng ^= rng << 13
	rng ^= rng >> 7
	rng ^= rng << 17
	return rng * 0x2545F4914F6CDD1D
}

//go:norace
func rnd(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return (next() >> 11) % n
}

// Active tells whether a simulated task is running.
//
//go:norace
func Active() bool { return cur != nil }

// Killing tells whether the tasks are being torn down.
//
//go:norace
func Killing() bool { return killing }

// Self is the id of the running task, or -1.
//
//go:norace
func Self() int {
	if cur == nil {
		return -1
	}
	return int(cur.id)
}

// Pause takes the running task out of the scheduler's hands: what runs until
// Resume, instrumented or not, is not part of the simulated program.
//
//go:norace
func Pause() {
	if cur != nil {
		paused = cur
		cur = nil
	} else if paused == nil {
		return
	}
	pauses++
}

// Resume ends a Pause; they nest.
//
//go:norace
func Resume() {
	if paused == nil {
		return
	}
	if pauses--; pauses == 0 {
		cur = paused
		paused = nil
	}
}

// PoolGen counts the losses of pooled memory.
//
//go:norace
func PoolGen() uint64 { return poolGen }

// Steps of the running task so far.
//
//go:norace
func Steps() uint64 {
	if cur == nil {
		return 0
	}
	return cur.steps
}

// moved counts what the library copied with copy and append(x[:0], y...).
var moved uint64

// Moved returns the number of elements copied so far.
func Moved() uint64 { return moved }

// Copied stands around calls of copy.
//
//go:norace
func Copied(n int) int {
	moved += uint64(n)
	return n
}

// Filled stands around calls of append that fill a slice anew.
//
//go:norace
func Filled[S ~[]E, E any](s S) S {
	moved += uint64(len(s))
	return s
}

// BeginOp starts the step budget of one operation of the running task.
//
//go:norace
func BeginOp() {
	t := cur
	if t == nil {
		return
	}
	if cfg.OpCap > 0 {
		t.opStop = t.steps + cfg.OpCap
	} else {
		t.opStop = NoStop
	}
	t.fix()
}

//go:norace
func (t *task) fix() {
	s := t.planStop
	if t.fairStop < s {
		s = t.fairStop
	}
	if t.opStop < s {
		s = t.opStop
	}
	if t.killStop < s {
		s = t.killStop
	}
	t.nextStop = s
}

// Y is called before every statement of the instrumented code.
//
//go:norace
func Y(site uint32) {
	t := cur
	if t == nil {
		return
	}
	t.steps++
	cov[site] = 1
	t.site = site
	if t.steps >= t.nextStop || hot[site] || t.hotNext {
		stop(t, site)
	}
}

// YS is called at every simulated synchronisation operation.
//
//go:norace
func YS(site uint32) {
	t := cur
	if t == nil || killing {
		return
	}
	t.steps++
	t.syncOps++
	if t.steps >= t.nextStop {
		stop(t, site)
	} else if syncHot {
		stopHot(t, site)
	}
}

//go:norace
func stopHot(t *task, site uint32) {
	t.hotNext = true
	stop(t, site)
}

//go:norace
func runnableOthers(t *task) int {
	n := 0
	for i := int32(0); i < ntasks; i++ {
		if tasks[i] != t && tasks[i].state == stRunnable {
			n++
		}
	}
	return n
}

//go:norace
func pickOther(t *task) *task {
	n := runnableOthers(t)
	if n == 0 {
		return nil
	}
	k := int(rnd(uint64(n)))
	for i := int32(0); i < ntasks; i++ {
		if tasks[i] != t && tasks[i].state == stRunnable {
			if k == 0 {
				return tasks[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func pickPrio() *task {
	var b *task
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stRunnable && (b == nil || tasks[i].prio > b.prio) {
			b = tasks[i]
		}
	}
	return b
}

//go:norace
func lowest() *task {
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stRunnable {
			return tasks[i]
		}
	}
	return nil
}

//go:norace
func roundRobin(t *task) *task {
	for i := int32(1); i <= ntasks; i++ {
		o := tasks[(t.id+i)%ntasks]
		if o != t && o.state == stRunnable {
			return o
		}
	}
	return nil
}

//go:norace
func record(kind int32, t *task, at uint64, act, arg int32, site uint32) {
	if nevents >= maxev {
		res.Overflow = true
		return
	}
	e := &events[nevents]
	e.Kind, e.Task, e.At, e.Act, e.Arg, e.Site = kind, t.id, at, act, arg, site
	nevents++
}

//go:norace
func (t *task) plan() {
	if cfg.Replay {
		t.planStop = NoStop
		for t.evi < len(replayEv) {
			e := &replayEv[t.evi]
			if e.Kind == EvStep && e.Task == t.id {
				if e.At > t.steps {
					t.planStop = e.At
					break
				}
			}
			t.evi++
		}
		return
	}
	if nevents >= maxev {
		t.planStop = NoStop
		return
	}
	switch cfg.Mode {
	case 1:
		t.planStop = t.steps + 1 + rnd(2*cfg.Gap)
	case 2:
		if cfg.Depth > 0 {
			cfg.Depth--
			t.planStop = t.steps + 1 + rnd(cfg.EstSteps)
		} else {
			t.planStop = NoStop
		}
	default:
		if cfg.Gap > 0 {
			t.planStop = t.steps + 1 + rnd(2*cfg.Gap)
		} else {
			t.planStop = NoStop
		}
	}
}

//go:norace
func stop(t *task, site uint32) {
	if killing {
		t.hotNext = false
		return
	}
	if t.steps >= t.opStop {
		res.Hang = true
		res.HangTask = int(t.id)
		res.BlockedAt[t.id] = site
		abort(t)
	}
	if t.steps >= t.killStop {
		res.Killed = true
		abort(t)
	}
	if t.steps >= t.fairStop && t.steps < t.planStop {
		t.fairStop = t.steps + fairSlice
		t.fix()
		if o := roundRobin(t); o != nil {
			record(EvStep, t, t.steps, ActSwitch, o.id, site)
			switchTo(t, o, site)
		}
		return
	}
	isHot := false
	if t.steps < t.planStop {
		// a hot site or a synchronisation point
		isHot = true
		t.hotNext = false
		if cfg.Replay || nevents >= maxev || rnd(2) == 0 {
			return
		}
	}
	if cfg.Replay {
		// perform every recorded event of this step in order
		for t.evi < len(replayEv) {
			e := &replayEv[t.evi]
			if e.Kind == EvStep && e.Task == t.id {
				if e.At > t.steps {
					break
				}
				if e.At == t.steps {
					act, arg := e.Act, e.Arg
					t.evi++
					if act == ActSwitch {
						t.plan()
						t.fix()
						if arg >= 0 && arg < ntasks && tasks[arg].state == stRunnable && tasks[arg] != t {
							record(EvStep, t, t.steps, ActSwitch, arg, site)
							switchTo(t, tasks[arg], site)
						}
						return
					}
					record(EvStep, t, t.steps, act, arg, site)
					do(t, act, site)
					continue
				}
			}
			t.evi++
		}
		t.plan()
		t.fix()
		return
	}
	if cfg.PGC > 0 && rnd(1000) < uint64(cfg.PGC) {
		record(EvStep, t, t.steps, ActGC, 0, site)
		do(t, ActGC, site)
	}
	if cfg.PMark > 0 && rnd(1000) < uint64(cfg.PMark) {
		record(EvStep, t, t.steps, ActMark, 0, site)
		do(t, ActMark, site)
	}
	if cfg.PStack > 0 && rnd(1000) < uint64(cfg.PStack) {
		record(EvStep, t, t.steps, ActStack, 0, site)
		do(t, ActStack, site)
	}
	if cfg.PPoolDrop > 0 && rnd(1000) < uint64(cfg.PPoolDrop) {
		record(EvStep, t, t.steps, ActPoolDrop, 0, site)
		do(t, ActPoolDrop, site)
	}
	var o *task
	if cfg.Mode == 2 {
		if !isHot {
			pctLow--
			t.prio = pctLow
		}
		o = pickPrio()
		if o == t {
			o = nil
		}
	} else if cfg.Mode != 0 {
		o = pickOther(t)
	}
	if !isHot {
		t.plan()
		t.fix()
	}
	if o != nil {
		record(EvStep, t, t.steps, ActSwitch, o.id, site)
		switchTo(t, o, site)
	}
}

//go:norace
func do(t *task, act int32, site uint32) {
	switch act {
	case ActGC:
		res.GCs++
		r := verifRand
		raceDisable()
		runtime.GC()
		raceEnable()
		verifRand = r
		marking = 0
	case ActMark:
		res.Marks++
		r := verifRand
		raceDisable()
		part(res.Marks)
		raceEnable()
		verifRand = r
	case ActStack:
		res.Stacks++
		growStack(24)
	case ActPoolDrop:
		res.PoolDrops++
		poolGen++
	case ActKill:
		res.Killed = true
		abort(t)
	}
}

// part does the n-th part of collections.
//
//go:norace
func part(n int) {
	work := int64(1) << uint(n*5%14)
	switch {
	case marking == 0:
		verifGC(0, 0)
		marking = 1
		if n%3 != 0 {
			verifGC(1, work)
		}
	case marking < 6 && n*7%4 != 0:
		verifGC(1, work)
		marking++
	default:
		runtime.GC()
		marking = 0
	}
}

//go:norace
//go:noinline
func growStack(n int) byte {
	var a [4096]byte
	if n > 0 {
		a[n] = growStack(n - 1)
	}
	return a[n&7]
}

//go:norace
func mix(t *task, site uint32) {
	h := res.Hash
	h ^= uint64(t.id)<<32 | uint64(site)
	h *= 0x100000001b3
	h ^= h >> 29
	res.Hash = h
}

//go:norace
func switchTo(t, o *task, site uint32) {
	res.Switches++
	mix(t, site)
	t.rand = verifRand
	dispatch(o)
	park(t)
}

//go:norace
func dispatch(o *task) {
	cur = o
	verifRand = o.rand
	o.fairStop = o.steps + fairSlice
	o.fix()
	raceDisable()
	o.wake <- struct{}{}
	raceEnable()
}

//go:norace
func park(t *task) {
	raceDisable()
	<-t.wake
	raceEnable()
	if killing {
		runtime.Goexit()
	}
}

// abort ends the run: control goes to the main goroutine, and this task
// dies when main tears the tasks down.
//
//go:norace
func abort(t *task) {
	cur = nil
	raceDisable()
	mainWake <- struct{}{}
	<-t.wake
	raceEnable()
	runtime.Goexit()
}

// pickNext chooses the task to run after t blocked or ended.
//
//go:norace
func pickNext(t *task, site uint32) *task {
	def := lowest()
	if def == nil {
		return nil
	}
	t.blocks++
	if cfg.Replay {
		for i := range replayEv {
			e := &replayEv[i]
			if e.Kind == EvBlock && e.Task == t.id && e.At == t.blocks {
				if e.Arg >= 0 && e.Arg < ntasks && tasks[e.Arg].state == stRunnable {
					record(EvBlock, t, t.blocks, ActSwitch, e.Arg, site)
					return tasks[e.Arg]
				}
			}
		}
		return def
	}
	if nevents >= maxev {
		return def
	}
	var o *task
	switch cfg.Mode {
	case 0:
		o = def
	case 2:
		o = pickPrio()
	default:
		o = pickOther(t)
	}
	if o != nil && o != def {
		record(EvBlock, t, t.blocks, ActSwitch, o.id, site)
		return o
	}
	return def
}

// WaitQ is the set of tasks waiting for something.
type WaitQ struct {
	mask uint64
}

// Block parks the running task in q until a Wake.
//
//go:norace
func Block(q *WaitQ, site uint32) {
	t := cur
	if t == nil {
		if killing {
			runtime.Goexit()
		}
		panic("simrt: blocking operation outside of a task")
	}
	if killing {
		return
	}
	res.Blocks++
	t.state = stBlocked
	t.site = site
	q.mask |= 1 << uint(t.id)
	o := pickNext(t, site)
	mix(t, site)
	t.rand = verifRand
	if o == nil {
		res.Deadlock = !idleDone()
		for i := int32(0); i < ntasks; i++ {
			res.BlockedAt[i] = tasks[i].site
		}
		cur = nil
		raceDisable()
		mainWake <- struct{}{}
		raceEnable()
	} else {
		dispatch(o)
	}
	park(t)
}

// Enter adds the running task to q, before it lets go of what guards q.
//
//go:norace
func Enter(q *WaitQ) {
	if t := cur; t != nil {
		q.mask |= 1 << uint(t.id)
	}
}

// BlockEntered parks the running task until a Wake after its Enter.
//
//go:norace
func BlockEntered(q *WaitQ, site uint32) {
	if t := cur; t != nil && q.mask&(1<<uint(t.id)) == 0 {
		return // woken already
	}
	Block(q, site)
}

// Wake makes every task in q runnable.
//
//go:norace
func Wake(q *WaitQ) {
	for i := int32(0); i < ntasks; i++ {
		if q.mask&(1<<uint(i)) != 0 && tasks[i].state == stBlocked {
			tasks[i].state = stRunnable
		}
	}
	q.mask = 0
}

// WakeOne makes the waiting task with the lowest number runnable.
//
//go:norace
func WakeOne(q *WaitQ) {
	for i := int32(0); i < ntasks; i++ {
		if q.mask&(1<<uint(i)) != 0 {
			if tasks[i].state == stBlocked {
				tasks[i].state = stRunnable
			}
			q.mask &^= 1 << uint(i)
			return
		}
	}
}

// PoolChoice decides which of n pooled values a Get returns: n-1 is the most
// recently put one, -1 a miss.
//
//go:norace
func PoolChoice(n int, site uint32) int {
	t := cur
	if t == nil || killing {
		return n - 1
	}
	t.pools++
	res.PoolGets++
	if n == 0 {
		return -1
	}
	if cfg.Replay {
		for i := range replayEv {
			e := &replayEv[i]
			if e.Kind == EvPool && e.Task == t.id && e.At == t.pools {
				record(EvPool, t, t.pools, 0, e.Arg, site)
				if e.Arg < 0 {
					res.PoolMisses++
					return -1
				}
				res.PoolAlts++
				return int(e.Arg) % n
			}
		}
		return n - 1
	}
	if nevents >= maxev {
		return n - 1
	}
	if cfg.PPoolMiss > 0 && rnd(1000) < uint64(cfg.PPoolMiss) {
		record(EvPool, t, t.pools, 0, -1, site)
		res.PoolMisses++
		return -1
	}
	if n > 1 && cfg.PPoolAlt > 0 && rnd(1000) < uint64(cfg.PPoolAlt) {
		k := int32(rnd(uint64(n - 1)))
		record(EvPool, t, t.pools, 0, k, site)
		res.PoolAlts++
		return int(k)
	}
	return n - 1
}

// Rand draws from the running task's (map) random stream.
//
//go:norace
func Rand() uint64 {
	x := verifRand
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	verifRand = x
	return x * 0x2545F4914F6CDD1D
}

//go:norace
func (t *task) main() {
	raceDisable()
	<-t.wake
	raceEnable()
	defer t.exit()
	if killing {
		return
	}
	t.fn()
}

var endSync int

//go:norace
func (t *task) exit() {
	raceReleaseMerge(&endSync)
	t.state = stDone
	res.TaskSteps[t.id] = t.steps
	res.SyncOps += int(t.syncOps)
	if killing {
		raceDisable()
		mainWake <- struct{}{}
		raceEnable()
		return
	}
	o := pickNext(t, 0)
	mix(t, 0)
	if o != nil {
		dispatch(o)
		return
	}
	// nobody can run: either everything is done or the rest is blocked
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state == stBlocked && !idleDone() {
			res.Deadlock = true
			res.BlockedAt[i] = tasks[i].site
		}
	}
	cur = nil
	raceDisable()
	mainWake <- struct{}{}
	raceEnable()
}

// Go starts another task from inside a task (or, outside of a simulation, runs
// fn on a goroutine of its own).
//
//go:norace
func Go(fn func()) {
	if cur == nil {
		go fn()
		return
	}
	if ntasks < MaxTasks {
		t := spawn(fn, cur.rand*31+7)
		t.spawned = true
		t.refill()
		return
	}
	// a task that has ended gives its number, and its counts, away
	for i := int32(0); i < ntasks; i++ {
		if d := tasks[i]; d.state == stDone {
			t := &task{id: d.id, wake: make(chan struct{}, 1), fn: fn, steps: d.steps, blocks: d.blocks, pools: d.pools, syncOps: d.syncOps, evi: d.evi, opStop: NoStop, killStop: d.killStop, rand: cur.rand*31 + 7 | 1}
			t.fairStop = t.steps + fairSlice
			t.prio = int32(rnd(1 << 20))
			res.SyncOps -= int(d.syncOps)
			t.spawned = true
			tasks[i] = t
			t.refill()
			t.plan()
			t.fix()
			go t.main()
			return
		}
	}
	panic("simrt: too many tasks")
}

//go:norace
func spawn(fn func(), r uint64) *task {
	t := &task{id: ntasks, wake: make(chan struct{}, 1), fn: fn, fairStop: fairSlice, opStop: NoStop, killStop: NoStop}
	if cfg.KillAt > 0 && cfg.KillTask == int(t.id) {
		t.killStop = cfg.KillAt
	}
	t.rand = r | 1
	t.prio = int32(rnd(1 << 20))
	tasks[ntasks] = t
	ntasks++
	t.plan()
	t.fix()
	go t.main()
	return t
}

// refill gives a task that the code under test started the steps of one more
// operation.
//
//go:norace
func (t *task) refill() {
	if cfg.OpCap > 0 {
		t.opStop = t.steps + cfg.OpCap
		t.fix()
	}
}

// idleDone reports whether only tasks are left that the code under test
// started, and that wait: the program has ended then.
//
//go:norace
func idleDone() bool {
	for i := int32(0); i < ntasks; i++ {
		if !tasks[i].spawned && tasks[i].state != stDone {
			return false
		}
	}
	return true
}

// Run runs the tasks under the scheduler until all have ended, nothing can
// run any more, an operation exceeds its budget or the process is killed.
//
//go:norace
func Run(c Config, fns []func()) Result {
	if cur != nil {
		panic("simrt: nested Run")
	}
	cfg = c
	res = Result{Hash: 0xcbf29ce484222325}
	nevents = 0
	maxev = c.MaxEvents
	if maxev <= 0 || maxev > MaxEvents {
		maxev = MaxEvents
	}
	rng = c.Seed*0x9E3779B97F4A7C15 + 0x7F4A7C15
	if rng == 0 {
		rng = 1
	}
	for i := 0; i < 4; i++ {
		next()
	}
	replayEv = c.Events
	killing = false
	fairSlice = 60000
	if c.Replay {
		fairSlice = 120000 // the recorded hand-overs come first
	}
	ntasks = 0
	pctLow = 0
	syncHot = c.Mode == 4 && !c.Replay
	if !c.Replay {
		for _, s := range c.Hot {
			hot[s%MaxSites] = true
		}
	}
	ms := c.MapSeed
	if ms == 0 {
		ms = 1
	}
	save := verifRand
	for _, f := range fns {
		ms = ms*6364136223846793005 + 1442695040888963407
		spawn(f, ms)
	}
	first := lowest()
	if !c.Replay && c.Mode != 0 && ntasks > 0 {
		if c.Mode == 2 {
			first = pickPrio()
		} else {
			first = tasks[rnd(uint64(ntasks))]
		}
		if first != lowest() {
			record(EvBlock, tasks[0], 0, ActSwitch, first.id, 0)
		}
	}
	if c.Replay {
		for i := range replayEv {
			e := &replayEv[i]
			if e.Kind == EvBlock && e.At == 0 && e.Arg >= 0 && e.Arg < ntasks {
				first = tasks[e.Arg]
				record(EvBlock, tasks[0], 0, ActSwitch, first.id, 0)
				break
			}
		}
	}
	if first != nil {
		dispatch(first)
		raceDisable()
		<-mainWake
		raceEnable()
	}
	cur = nil
	killing = true
	for i := int32(0); i < ntasks; i++ {
		if tasks[i].state != stDone {
			if tasks[i].spawned {
				res.Left++
			}
			raceDisable()
			tasks[i].wake <- struct{}{}
			<-mainWake
			raceEnable()
		}
	}
	killing = false
	raceAcquire(&endSync)
	for i := int32(0); i < ntasks; i++ {
		res.Steps += tasks[i].steps
		res.TaskSteps[i] = tasks[i].steps
		tasks[i] = nil
	}
	ntasks = 0
	for _, s := range c.Hot {
		hot[s%MaxSites] = false
	}
	if marking != 0 {
		raceDisable()
		runtime.GC()
		raceEnable()
		marking = 0
	}
	verifRand = save
	r := res
	r.Events = make([]Event, nevents)
	for i := range r.Events {
		r.Events[i] = events[i]
	}
	return r
}

// Kill makes the process of the running task die here.
//
//go:norace
func Kill() {
	t := cur
	if t == nil || killing {
		return
	}
	res.Killed = true
	abort(t)
}
