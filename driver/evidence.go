package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type evidence struct {
	id, tier      string
	seed          int
	p             *prop
	b             *build
	runs          int64
	distinct      int
	cov           map[string]interface{}
	KnownFindings []string
}

func newEvidence(b *build, p *prop, id, tier string, seed int, ws []*worker) *evidence {
	e := &evidence{id: id, tier: tier, seed: seed, p: p, b: b}
	states, hashes, sites := map[uint64]bool{}, map[uint64]bool{}, map[int]bool{}
	count := map[string]int64{}
	var nontriv, calls, switches, simus int64
	var steps uint64
	var wall float64
	var samples []string
	rule := ""
	for _, w := range ws {
		r := w.rep
		if r == nil {
			continue
		}
		e.runs += r.Stats.Runs
		nontriv += r.Stats.Nontriv
		calls += r.Stats.Calls
		switches += r.Stats.Switches
		simus += r.Stats.SimMicros
		steps += r.Stats.Steps
		if r.Wall > wall {
			wall = r.Wall
		}
		for k, v := range r.Stats.Count {
			count[k] += v
		}
		for _, s := range r.States {
			states[s] = true
		}
		for _, s := range r.Hashes {
			hashes[s] = true
		}
		for _, s := range r.Sites {
			sites[s] = true
		}
		if len(samples) < 4 {
			samples = append(samples, r.Stats.Samples...)
		}
		rule = r.Rule
	}
	if wall == 0 {
		wall = 1
	}
	e.distinct = len(states)
	var missed []string
	missedDep := 0
	for _, s := range b.sites {
		if !sites[s.ID] {
			if strings.HasPrefix(s.Pos, "syncx@") {
				missedDep++
				continue
			}
			missed = append(missed, s.Pos+" "+s.Func)
		}
	}
	if len(missed) > 60 {
		missed = append(missed[:60], fmt.Sprintf("... %d more", len(missed)-60))
	}
	if len(samples) == 0 {
		samples = []string{"none"}
	}
	e.cov = map[string]interface{}{
		"evaluations":                        e.runs,
		"distinct_nontrivial":                len(states),
		"rule":                               rule,
		"samples":                            samples,
		"nontrivial_runs":                    nontriv,
		"seeds":                              e.runs,
		"seeds_per_hour":                     int64(float64(e.runs) / wall * 3600),
		"library_calls":                      calls,
		"distinct_interleavings":             len(hashes),
		"distinct_interleavings_measure":     "hash of the sequence of (task, source site) at every switch of a run",
		"simulated_steps":                    steps,
		"simulated_steps_measure":            "statements of the library executed under the scheduler; the library has no timers, so that steps are its time",
		"simulated_network_time_s":           float64(simus) / 1e6,
		"faults_and_choices_injected":        count,
		"library_statements_instrumented":    len(b.sites),
		"library_statements_reached":         len(sites),
		"library_statements_not_reached":     missed,
		"instrumented_packages":              b.pkgs,
		"components_running_real_code":       e.p.real,
		"components_running_a_stub":          e.p.stub,
		"workers":                            len(ws),
		"search_wall_s":                      wall,
		"scheduler_switches":                 switches,
		"library_statements_not_reached_why": "error branches of the type walker and code that no check of this property calls",
		"dependency_statements_not_reached":  missedDep,
		"distinct_nontrivial_measure":        "number of different state hashes over the non-trivial runs; what goes into the hash is the last part of the rule",
	}
	if p.plugin && !p.gen {
		// the library takes no part in these runs
		for k := range e.cov {
			if strings.HasPrefix(k, "library_statements") || strings.HasPrefix(k, "distinct_interleavings") || strings.HasPrefix(k, "simulated_") {
				delete(e.cov, k)
			}
		}
		for _, k := range []string{"dependency_statements_not_reached", "instrumented_packages", "scheduler_switches"} {
			delete(e.cov, k)
		}
		e.cov["plugin_runs"] = e.cov["library_calls"]
		delete(e.cov, "library_calls")
		e.cov["simulated_time"] = "the plugin's clock stands where the plan puts it; I/O takes as many steps as there are pieces (input_pieces)"
	}
	return e
}

// determinism repeats the first runs of some workers in other processes.
func (e *evidence) determinism(b *build, p *prop, id string, ws []*worker) {
	same, diff := 0, 0
	for i, w := range ws {
		if i >= 2 || w.rep == nil || len(w.rep.Digests) == 0 {
			continue
		}
		n := len(w.rep.Digests)
		code, out := b.runSim(p, 120*time.Second, "digest", "-prop", id, "-base", fmt.Sprint(w.rep.FirstSeed), "-step", fmt.Sprint(len(ws)), "-count", fmt.Sprint(n))
		if code != 0 {
			continue
		}
		for k, l := range strings.Split(strings.TrimSpace(out), "\n") {
			f := strings.Fields(l)
			if len(f) < 2 || k >= n {
				continue
			}
			if f[1] == fmt.Sprintf("%016x", w.rep.Digests[k]) {
				same++
			} else {
				diff++
			}
		}
	}
	e.cov["determinism_sample"] = map[string]int{"event_logs_equal_in_another_process": same, "different": diff}
	if diff > 0 {
		fmt.Fprintf(os.Stderr, "check: warning: %d of %d runs differ when repeated in another process\n", diff, same+diff)
	}
}

func (e *evidence) write(verif string, wall, built float64, violated bool) {
	v := 0
	if violated {
		v = 1
	}
	e.cov["build_wall_s"] = built
	if len(e.KnownFindings) > 0 {
		e.cov["known_findings"] = e.KnownFindings
	}
	sort.Strings(e.p.assume)
	doc := map[string]interface{}{
		"property": e.id, "tier": e.tier, "seed": e.seed, "level": e.p.level,
		"coverage": e.cov, "assumptions": e.p.assume, "wall_s": wall, "violations": v,
	}
	jb, err := json.MarshalIndent(doc, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(verif, "evidence", e.id+".json"), append(jb, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
