package main

var libReal = []string{"package proto and internal/runtime_reflect of the working tree, every statement instrumented with a scheduling point", "github.com/RomiChan/syncx, likewise", "the Go runtime: maps, slices, allocator, garbage collector"}
var libStub = []string{"package sync (mutexes, Once, Pool, Map, ...) replaced by a simulated one: same interface, blocking decided by the scheduler", "the runtime's random source (map seeds, iteration starts) replaced by a seeded generator"}
var netStub = append([]string{"network, disks, peers' buffers and memory reclamation are simulated: packets, crashes, buffer reuse and collections are events of the plan"}, libStub...)
var commonAssume = []string{
	"tasks are switched between statements of the library and at synchronisation operations only; the memory model weaker than that is left to the race detector (C02)",
	"the reference model (sim/ref) states the protobuf rules correctly; C09 checks it against google.golang.org/protobuf",
}
var pluginReal = []string{"the program protoc-gen-golite of the working tree, as a process of its own: main, internal/generator, google.golang.org/protobuf/compiler/protogen", "the kernel's pipes, sockets and files"}
var pluginStub = []string{"the runtime's random source (map seeds, iteration starts) and time.Now replaced by values the simulator gives", "protoc: the simulator writes the request, piece by piece, and reads the answer", "environment, working directory, program name and earlier runs are the simulator's"}
var pluginAssume = []string{"the plugin reads its request from standard input as protoc plugins do; goroutines it might start are scheduled by the real runtime", "google.golang.org/protobuf decides which requests can be parsed"}
var clobber = []string{"GODEBUG=clobberfree=1"}

var props = map[string]*prop{
	"C01": {level: "exploration", quick: 45, thorough: 600, real: libReal, stub: libStub, assume: commonAssume},
	"C02": {level: "exploration", quick: 60, thorough: 900, race: true, env: []string{"GORACE=halt_on_error=0 atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=3"}, real: libReal, stub: libStub, assume: commonAssume},
	"C03": {level: "exploration", quick: 40, thorough: 600, real: libReal, stub: libStub, assume: commonAssume},
	"C04": {level: "exploration", quick: 45, thorough: 600, real: libReal, stub: libStub, assume: commonAssume},
	"C05": {level: "exploration", quick: 45, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume, extra: bombProbe},
	"C06": {level: "exploration", quick: 35, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C07": {level: "exploration", quick: 35, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C08": {level: "exploration", quick: 35, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C09": {level: "exploration", quick: 45, thorough: 600, plugin: true, gen: true, real: append([]string{"protoc-gen-golite of the working tree, run on random proto files; the code it wrote is compiled into the simulator", "google.golang.org/protobuf (dynamicpb) as the standard peer"}, libReal...), stub: netStub, assume: commonAssume},
	"C10": {level: "exploration", quick: 40, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C11": {level: "exploration", quick: 40, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C12": {level: "exploration", quick: 45, thorough: 600, plugin: true, real: pluginReal, stub: pluginStub, assume: pluginAssume},
	"C13": {level: "exploration", quick: 45, thorough: 600, plugin: true, real: pluginReal, stub: pluginStub, assume: pluginAssume},
	"C14": {level: "exploration", quick: 60, thorough: 900, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
	"C15": {level: "exploration", quick: 30, thorough: 300, env: clobber, real: libReal, stub: libStub, assume: commonAssume},
	"C18": {level: "exploration", quick: 40, thorough: 600, plugin: true, compile: true, real: pluginReal, stub: pluginStub, assume: append([]string{"go/types decides what compiles; google.golang.org/protobuf/compiler/protogen decides the Go names"}, pluginAssume...)},
	"C19": {level: "exploration", quick: 40, thorough: 600, env: clobber, real: libReal, stub: libStub, assume: append([]string{"the Go collector and package weak tell what is alive"}, commonAssume...)},
	"C20": {level: "exploration", quick: 35, thorough: 600, real: libReal, stub: libStub, assume: append([]string{"runtime.MemStats counts what is allocated; work inside of the Go runtime (map accesses, comparing, clearing) is not counted"}, commonAssume...)},
	"C17": {level: "exploration", quick: 30, thorough: 600, env: clobber, real: libReal, stub: netStub, assume: commonAssume},
}
