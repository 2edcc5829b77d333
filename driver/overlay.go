package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The runtime seam: every source of randomness that the Go runtime itself
// feeds into maps (hash keys, map seeds, iteration starts) becomes a function
// of one variable that the simulation sets.
func writeOverlay(goroot, dir string) (string, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	patch := func(rel string, pairs ...string) error {
		p := filepath.Join(goroot, "src", rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		s := string(b)
		for i := 0; i < len(pairs); i += 2 {
			if !strings.Contains(s, pairs[i]) {
				return fmt.Errorf("overlay: %s: %q not found", rel, pairs[i])
			}
			s = strings.ReplaceAll(s, pairs[i], pairs[i+1])
		}
		dst := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_")+".overlay")
		rep[p] = dst
		return os.WriteFile(dst, []byte(s), 0o644)
	}
	randOld := "func rand() uint64 {\n"
	if err := patch("runtime/rand.go",
		"rand()", "rand()", // must be there
		"mp.chacha8.Init", "mp.chacha8.Init",
	); err != nil {
		return "", err
	}
	p := filepath.Join(goroot, "src", "runtime/rand.go")
	b, err := os.ReadFile(p)
	if err != nil {
		return "", err
	}
	s := string(b)
	i := strings.Index(s, randOld)
	if i < 0 {
		return "", fmt.Errorf("overlay: runtime/rand.go: rand not found")
	}
	pre, post := s[:i], s[i:]
	// doc comment and directives of rand stay in front of the new function
	post = strings.Replace(post, randOld, `func rand() uint64 {
	if x := verifRand; x != 0 && (verifOnly == 0 || verifOnly == getg().goid) {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		verifRand = x
		return x * 0x2545F4914F6CDD1D
	}
	return verifRealRand()
}

//go:linkname verifRand
var verifRand uint64 = 0x9E3779B97F4A7C15

// verifOnly, if not 0, is the goroutine that gets seeded numbers: others, such
// as those of the garbage collector, run when they like.
//
//go:linkname verifOnly
var verifOnly uint64

//go:nosplit
func verifRealRand() uint64 {
`, 1)
	j := strings.Index(s, "func mrandinit(")
	if j < 0 {
		return "", fmt.Errorf("overlay: runtime/rand.go: mrandinit not found")
	}
	full := pre + post
	k := strings.Index(full, "func mrandinit(")
	e := k + strings.Index(full[k:], "\n}\n")
	full = full[:k] + strings.ReplaceAll(full[k:e], " rand()", " verifRealRand()") + full[e:]
	dst := filepath.Join(dir, "runtime_rand.go.overlay")
	if err := os.WriteFile(dst, []byte(full), 0o644); err != nil {
		return "", err
	}
	rep[p] = dst
	if err := patch("internal/runtime/maps/runtime_alg.go",
		"hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9E3779B97F4A7C15 * uint64(i+1))",
	); err != nil {
		return "", err
	}
	ap := filepath.Join(dir, "internal_runtime_maps_runtime_alg.go.overlay")
	ab, err := os.ReadFile(ap)
	if err != nil {
		return "", err
	}
	as := string(ab)
	if n := strings.Index(as, "func initAlgAES"); n >= 0 {
		as = as[:n] + strings.ReplaceAll(as[n:], "bootstrapRand()", "uint64(0x9E3779B97F4A7C15)")
	}
	if err := os.WriteFile(ap, []byte(as), 0o644); err != nil {
		return "", err
	}
	// heap addresses: the order of a map with pointer keys depends on them
	if err := patch("runtime/malloc.go",
		"randomizeHeapBase = goexperiment.RandomizedHeapBase64 &&", "randomizeHeapBase = false && goexperiment.RandomizedHeapBase64 &&",
	); err != nil {
		return "", err
	}
	// The order of a map with types as keys would depend on the addresses of
	// the types.
	if err := patch("runtime/alg.go",
		"	if t.IsDirectIface() {\n		return trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))\n	} else {\n		return trimHash(c1 * typehash(t, a.data, h^c0))\n	}\n}\n\n// nilinterhash should",
		`	if t.IsDirectIface() {
		if x := verifType(t, a.data); x != 0 {
			return trimHash(c1 * memhash64(unsafe.Pointer(&x), h^c0))
		}
		return trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))
	} else {
		return trimHash(c1 * typehash(t, a.data, h^c0))
	}
}

var verifRtype *_type

// verifType returns the hash of the type that p, a pointer of type t, points
// to, or 0 if it does not point to a type.
func verifType(t *_type, p unsafe.Pointer) uint64 {
	if verifRtype == nil && t.Kind() == abi.Pointer && toRType(t).string() == "*reflect.rtype" {
		verifRtype = t
	}
	if t != verifRtype || p == nil {
		return 0
	}
	return uint64((*_type)(p).Hash)<<8 | 1
}

// nilinterhash should`,
	); err != nil {
		return "", err
	}
	// a collection that stays in its mark phase while the program goes on, and
	// marks as much as the simulation says
	if err := patch("runtime/mgcpacer.go",
		"func (c *gcControllerState) findRunnableGCWorker(pp *p, now int64) (*g, int64) {\n",
		"func (c *gcControllerState) findRunnableGCWorker(pp *p, now int64) (*g, int64) {\n\tif verifHold {\n\t\treturn nil, now\n\t}\n",
	); err != nil {
		return "", err
	}
	if err := patch("runtime/proc.go",
		"if gcBlackenEnabled != 0 && gcShouldScheduleWorker(pp) &&", "if !verifHold && gcBlackenEnabled != 0 && gcShouldScheduleWorker(pp) &&",
		"if gcBlackenEnabled == 0 || !gcController.addIdleMarkWorker() {", "if verifHold || gcBlackenEnabled == 0 || !gcController.addIdleMarkWorker() {",
	); err != nil {
		return "", err
	}
	if err := patch("runtime/mgcmark.go",
		"func gcAssistAlloc(gp *g) {\n", "func gcAssistAlloc(gp *g) {\n\tif verifHold {\n\t\treturn\n\t}\n",
	); err != nil {
		return "", err
	}
	if err := patch("runtime/mgc.go",
		"func GC() {\n", `func GC() {
	verifHold = false
	verifFullGC()
}

var verifHold bool

//go:linkname verifGC
var verifGC = func(op int, n int64) {
	switch op {
	case 0:
		if gcphase == _GCoff {
			verifHold = true
			gcStart(gcTrigger{kind: gcTriggerCycle, n: work.cycles.Load() + 1})
		}
	case 1:
		gp := getg()
		gp.param = nil
		systemstack(func() { gcAssistAlloc1(gp, n) })
		if gp.param != nil {
			gp.param = nil
			gcMarkDone()
		}
	}
}

func verifFullGC() {
`,
	); err != nil {
		return "", err
	}
	// the plugin's clock: an environment variable says where it starts, another
	// by how much it jumps with each look at it, and then timers go off at once
	if err := patch("time/time.go",
		"func Now() Time {\n", "func Now() Time {\n\tif s := verifEnv(\"VERIF_CLOCK\"); s != 0 {\n\t\treturn Unix(s, s%1000000000).Add(Duration(verifStep()))\n\t}\n",
	); err != nil {
		return "", err
	}
	if err := patch("time/sleep.go",
		"func when(d Duration) int64 {\n", "func when(d Duration) int64 {\n\tif s := verifEnv(\"VERIF_CLOCKSTEP\"); s != 0 && d > 1 {\n\t\td = 1\n\t}\n",
	); err != nil {
		return "", err
	}
	tp := filepath.Join(dir, "time_time.go.overlay")
	tb, err := os.ReadFile(tp)
	if err != nil {
		return "", err
	}
	ts := string(tb) + `
func verifEnv(name string) int64 {
	v, ok := syscall.Getenv(name)
	if !ok || v == "" {
		return 0
	}
	neg := v[0] == '-'
	if neg {
		v = v[1:]
	}
	var n int64
	for i := 0; i < len(v); i++ {
		n = n*10 + int64(v[i]-'0')
	}
	if neg {
		n = -n
	}
	return n
}

var verifLooks int64

func verifStep() int64 {
	return atomic.AddInt64(&verifLooks, 1) * verifEnv("VERIF_CLOCKSTEP")
}
`
	ts = strings.Replace(ts, "import (\n", "import (\n\t\"sync/atomic\"\n\t\"syscall\"\n", 1)
	if err := os.WriteFile(tp, []byte(ts), 0o644); err != nil {
		return "", err
	}
	js, err := json.Marshal(map[string]interface{}{"Replace": rep})
	if err != nil {
		return "", err
	}
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, js, 0o644)
}
