// Package sync stands in for the standard package sync inside the simulation:
// same interface, but every operation is a scheduling point, blocking parks
// the simulated task, and pools lose entries when the scheduler says so.
// The happens-before edges announced to the race detector are the ones that
// the documentation of the real package guarantees, and no others.
package sync

import (
	"unsafe"

	"github.com/RomiChan/protobuf/verifsim/simrt"
)

const (
	siteLock = simrt.MaxSites - 1 - iota
	siteUnlock
	siteRLock
	siteRUnlock
	siteMapLoad
	siteMapStore
	siteMapOther
	sitePoolGet
	sitePoolPut
	siteOnce
	siteWG
	siteCond
)

// A Locker represents an object that can be locked and unlocked.
type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	locked bool
	hb     byte
	q      simrt.WaitQ
}

//go:norace
func (m *Mutex) Lock() {
	if simrt.Killing() {
		return
	}
	simrt.YS(siteLock)
	for m.locked {
		simrt.Block(&m.q, siteLock)
		if simrt.Killing() {
			return
		}
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(&m.hb))
}

//go:norace
func (m *Mutex) TryLock() bool {
	simrt.YS(siteLock)
	if m.locked {
		return false
	}
	m.locked = true
	simrt.Acquire(unsafe.Pointer(&m.hb))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if simrt.Killing() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Release(unsafe.Pointer(&m.hb))
	m.locked = false
	simrt.Wake(&m.q)
	simrt.YS(siteUnlock)
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	writer  bool
	waiting int // writers waiting: they keep new readers out, as the real one does
	readers int
	hbW     byte
	hbR     byte
	q       simrt.WaitQ
}

//go:norace
func (m *RWMutex) Lock() {
	if simrt.Killing() {
		return
	}
	simrt.YS(siteLock)
	m.waiting++
	for m.writer || m.readers > 0 {
		simrt.Block(&m.q, siteLock)
		if simrt.Killing() {
			return
		}
	}
	m.waiting--
	m.writer = true
	simrt.Acquire(unsafe.Pointer(&m.hbW))
	simrt.Acquire(unsafe.Pointer(&m.hbR))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	simrt.YS(siteLock)
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.Acquire(unsafe.Pointer(&m.hbW))
	simrt.Acquire(unsafe.Pointer(&m.hbR))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if simrt.Killing() {
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Release(unsafe.Pointer(&m.hbW))
	m.writer = false
	simrt.Wake(&m.q)
	simrt.YS(siteUnlock)
}

//go:norace
func (m *RWMutex) RLock() {
	if simrt.Killing() {
		return
	}
	simrt.YS(siteRLock)
	for m.writer || m.waiting > 0 {
		simrt.Block(&m.q, siteRLock)
		if simrt.Killing() {
			return
		}
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.hbW))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	simrt.YS(siteRLock)
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.Acquire(unsafe.Pointer(&m.hbW))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if simrt.Killing() {
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.ReleaseMerge(unsafe.Pointer(&m.hbR))
	m.readers--
	simrt.Wake(&m.q)
	simrt.YS(siteRUnlock)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done bool
	hb   byte
	m    Mutex
}

//go:norace
func (o *Once) isDone() bool {
	simrt.YS(siteOnce)
	if o.done {
		simrt.Acquire(unsafe.Pointer(&o.hb))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	simrt.ReleaseMerge(unsafe.Pointer(&o.hb))
	o.done = true
}

//go:norace
func (o *Once) peek() bool { return o.done }

// Do calls f if and only if Do is called for the first time.
func (o *Once) Do(f func()) {
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.peek() {
		defer o.setDone()
		f()
	}
}

// OnceFunc is like sync.OnceFunc.
func OnceFunc(f func()) func() {
	g := OnceValue(func() int { f(); return 0 })
	return func() { g() }
}

// OnceValue is like sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var once Once
	var valid bool
	var p interface{}
	var r T
	return func() T {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			r = f()
			valid = true
		})
		if !valid {
			panic(p)
		}
		return r
	}
}

// OnceValues is like sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	type pair struct {
		a T1
		b T2
	}
	g := OnceValue(func() pair { a, b := f(); return pair{a, b} })
	return func() (T1, T2) { p := g(); return p.a, p.b }
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n  int
	hb byte
	q  simrt.WaitQ
}

//go:norace
func (w *WaitGroup) Add(d int) {
	simrt.YS(siteWG)
	if d < 0 {
		simrt.ReleaseMerge(unsafe.Pointer(&w.hb))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		simrt.Wake(&w.q)
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	simrt.YS(siteWG)
	for w.n > 0 {
		simrt.Block(&w.q, siteWG)
		if simrt.Killing() {
			return
		}
	}
	simrt.Acquire(unsafe.Pointer(&w.hb))
}

// Go runs f as a task of its own.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L Locker
	q simrt.WaitQ
}

// NewCond returns a new Cond with Locker l.
func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	simrt.Enter(&c.q)
	c.L.Unlock()
	simrt.BlockEntered(&c.q, siteCond)
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() { simrt.YS(siteCond); simrt.WakeOne(&c.q) }

//go:norace
func (c *Cond) Broadcast() { simrt.YS(siteCond); simrt.Wake(&c.q) }

// Pool is a simulated sync.Pool.
type Pool struct {
	New func() interface{}

	items  []interface{}
	n      int
	gen    uint64
	listed bool
}

// pools that hold something, while they are tracked
var (
	pools    []*Pool
	tracking bool
)

// TrackPools switches the bookkeeping for DropPools on or off.
func TrackPools(on bool) { tracking = on; pools = nil }

// DropPools empties all pools filled while they were tracked.
func DropPools() {
	for _, p := range pools {
		p.items, p.n, p.listed = nil, 0, false
	}
	pools = nil
}

type eface struct{ typ, ptr unsafe.Pointer }

// poolAddr stands for the pooled value in happens-before edges.
var poolAddrs [128]byte

//go:norace
func poolAddr(x interface{}) unsafe.Pointer {
	p := uintptr((*eface)(unsafe.Pointer(&x)).ptr)
	h := uint32((uint64(uint32(p)) * 0x85ebca6b) >> 16)
	return unsafe.Pointer(&poolAddrs[h%uint32(len(poolAddrs))])
}

//go:norace
func (p *Pool) Get() interface{} {
	simrt.YS(sitePoolGet)
	if p.gen != simrt.PoolGen() {
		p.gen = simrt.PoolGen()
		for i := 0; i < p.n; i++ {
			p.items[i] = nil
		}
		p.n = 0
	}
	k := simrt.PoolChoice(p.n, sitePoolGet)
	var x interface{}
	if k >= 0 {
		x = p.items[k]
		for i := k; i < p.n-1; i++ {
			p.items[i] = p.items[i+1]
		}
		p.n--
		p.items[p.n] = nil
		simrt.Acquire(poolAddr(x))
	}
	if x == nil && p.New != nil {
		x = p.New()
	}
	return x
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	simrt.YS(sitePoolPut)
	if p.gen != simrt.PoolGen() {
		p.gen = simrt.PoolGen()
		p.n = 0
	}
	simrt.ReleaseMerge(poolAddr(x))
	if p.n == len(p.items) {
		it := make([]interface{}, 2*p.n+4)
		for i := 0; i < p.n; i++ {
			it[i] = p.items[i]
		}
		p.items = it
	}
	p.items[p.n] = x
	p.n++
	if tracking && !p.listed {
		p.listed = true
		pools = append(pools, p)
	}
	simrt.YS(sitePoolPut)
}

// Map is a simulated sync.Map: a list of entries, every operation atomic.
type Map struct {
	ents []*ment
	n    int
}

type ment struct {
	key, val interface{}
	hb       byte
}

//go:norace
func (m *Map) find(key interface{}) int {
	for i := 0; i < m.n; i++ {
		if m.ents[i].key == key {
			return i
		}
	}
	return -1
}

//go:norace
func (m *Map) add(key, val interface{}) *ment {
	if m.n == len(m.ents) {
		es := make([]*ment, 2*m.n+8)
		for i := 0; i < m.n; i++ {
			es[i] = m.ents[i]
		}
		m.ents = es
	}
	e := new(ment)
	e.key, e.val = key, val
	m.ents[m.n] = e
	m.n++
	return e
}

//go:norace
func (m *Map) del(i int) {
	for ; i < m.n-1; i++ {
		m.ents[i] = m.ents[i+1]
	}
	m.n--
	m.ents[m.n] = nil
}

//go:norace
func (m *Map) Load(key interface{}) (value interface{}, ok bool) {
	simrt.YS(siteMapLoad)
	if i := m.find(key); i >= 0 {
		e := m.ents[i]
		simrt.Acquire(unsafe.Pointer(&e.hb))
		return e.val, true
	}
	return nil, false
}

//go:norace
func (m *Map) Store(key, value interface{}) {
	simrt.YS(siteMapStore)
	m.set(key, value)
	simrt.YS(siteMapStore)
}

//go:norace
func (m *Map) set(key, value interface{}) {
	if i := m.find(key); i >= 0 {
		e := m.ents[i]
		simrt.ReleaseMerge(unsafe.Pointer(&e.hb))
		e.val = value
		return
	}
	e := m.add(key, value)
	simrt.ReleaseMerge(unsafe.Pointer(&e.hb))
}

//go:norace
func (m *Map) LoadOrStore(key, value interface{}) (actual interface{}, loaded bool) {
	simrt.YS(siteMapStore)
	if i := m.find(key); i >= 0 {
		e := m.ents[i]
		simrt.Acquire(unsafe.Pointer(&e.hb))
		return e.val, true
	}
	e := m.add(key, value)
	simrt.ReleaseMerge(unsafe.Pointer(&e.hb))
	simrt.YS(siteMapStore)
	return value, false
}

//go:norace
func (m *Map) LoadAndDelete(key interface{}) (value interface{}, loaded bool) {
	simrt.YS(siteMapOther)
	if i := m.find(key); i >= 0 {
		e := m.ents[i]
		simrt.Acquire(unsafe.Pointer(&e.hb))
		m.del(i)
		return e.val, true
	}
	return nil, false
}

// Delete deletes the value for a key.
func (m *Map) Delete(key interface{}) { m.LoadAndDelete(key) }

//go:norace
func (m *Map) Swap(key, value interface{}) (previous interface{}, loaded bool) {
	simrt.YS(siteMapOther)
	if i := m.find(key); i >= 0 {
		e := m.ents[i]
		simrt.Acquire(unsafe.Pointer(&e.hb))
		previous, loaded = e.val, true
	}
	m.set(key, value)
	return
}

//go:norace
func (m *Map) CompareAndSwap(key, old, new interface{}) bool {
	simrt.YS(siteMapOther)
	if i := m.find(key); i >= 0 && m.ents[i].val == old {
		simrt.Acquire(unsafe.Pointer(&m.ents[i].hb))
		m.set(key, new)
		return true
	}
	return false
}

//go:norace
func (m *Map) CompareAndDelete(key, old interface{}) bool {
	simrt.YS(siteMapOther)
	if i := m.find(key); i >= 0 && m.ents[i].val == old {
		simrt.Acquire(unsafe.Pointer(&m.ents[i].hb))
		m.del(i)
		return true
	}
	return false
}

//go:norace
func (m *Map) Clear() {
	simrt.YS(siteMapOther)
	for i := 0; i < m.n; i++ {
		m.ents[i] = nil
	}
	m.n = 0
}

//go:norace
func (m *Map) snapshot() []interface{} {
	simrt.YS(siteMapOther)
	ks := make([]interface{}, m.n)
	off := 0
	if m.n > 0 {
		off = int((simrt.Rand() >> 11) % uint64(m.n))
	}
	for i := range ks {
		ks[i] = m.ents[(i+off)%m.n].key
	}
	return ks
}

// Range calls f for every entry in an order the simulation chooses.
func (m *Map) Range(f func(key, value interface{}) bool) {
	for _, k := range m.snapshot() {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			break
		}
	}
}
