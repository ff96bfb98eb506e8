package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif.local/sim/hook"
)

var rules = map[string]string{
	"C01": "a run derives handles from one another and renders all of them; non-trivial when at least one handle got two or more derived handles",
	"C02": "threads derive and render concurrently under a seeded schedule; non-trivial when at least one thread was preempted inside loukoum",
	"C03": "a run mixes calls that are refused, or whose encoders fail, with calls that succeed; non-trivial when at least one call was refused or failed",
	"C04": "renders are aborted at a drawn point (sink panics, goroutine exits, Valuer errors) and handles are rendered again; non-trivial when at least one abort fired",
	"C05": "the same calls run under several map orders; non-trivial when a map argument with two or more entries was among them",
	"C06": "lexers read simulated readers that cut, delay and fail; non-trivial when at least one such event fired",
	"C07": "statements with bound values are rendered with numbered and named placeholders; non-trivial when two or more placeholders were paired",
	"C08": "results are kept, overwritten by the caller, and looked at again; non-trivial when a result was overwritten or a thread was preempted inside loukoum",
	"C09": "arguments are passed in slices and maps that the caller keeps, checks word by word and reuses; non-trivial when there was at least one",
	"C10": "encoders and time variables change with every consultation and with the simulated clock; non-trivial when at least one was passed in",
	"C11": "bound Valuers log, fail, panic or leave; non-trivial when at least one was bound",
	"C12": "callbacks stall, re-enter loukoum, or are preempted, while other threads work; non-trivial when a stall or a re-entry fired",
	"C13": "fragments are shared by several statements and threads; non-trivial when at least one fragment was used twice",
}

var stubs = []string{
	"real: every package of the root module (builder, stmt, format, lexer, parser, token, types), with a yield before every statement",
	"real: pgtype, lib/pq and the Go standard library (bufio, strings, database/sql/driver)",
	"stub: package sync as imported by loukoum (scheduler-aware Mutex, RWMutex, Once, Pool, WaitGroup, Cond, Map)",
	"stub: goroutine scheduling (seeded), map iteration order and hash keys (seeded), wall clock (simulated), readers, sinks, Valuers and encoders (scripted)",
}

func (d *director) writeEvidence(violations int, deterministic bool) {
	if d.evidence == "" {
		return
	}
	wall := time.Since(d.start).Seconds()
	faults := map[string]int{}
	stats := map[string]int{}
	for k, v := range d.total.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			stats[k] = v
		}
	}
	var at []string
	for p := range d.at {
		if int(p) <= len(d.names) && p > 0 {
			at = append(at, d.names[p-1])
		}
	}
	sort.Strings(at)
	var samples []interface{}
	for i := 0; i < 2; i++ {
		p := makePlan(d.prop, mixSeed(d.seed, i), d.focus, d.points, false)
		var ops []string
		for _, o := range p.Ops {
			ops = append(ops, describeOp(o))
			if len(ops) >= 40 {
				ops = append(ops, fmt.Sprintf("... and %d more", len(p.Ops)-40))
				break
			}
		}
		s := map[string]interface{}{"seed_index": i, "threads": p.Threads, "strategy": strategyName(p.Strategy), "operations": ops}
		if p.Lex != nil {
			var js []string
			for _, j := range p.Lex.Jobs {
				text := j.Text
				if len(text) > 200 {
					text = text[:200]
				}
				ch := j.Chunks
				if len(ch) > 12 {
					ch = ch[:12]
				}
				b, _ := json.Marshal(ch)
				js = append(js, fmt.Sprintf("lexer %d on thread %d: %q (%d bytes) in reads %s (%d)", j.ID, j.Th, text, len(j.Text), b, len(j.Chunks)))
			}
			s["lexers"] = js
		}
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": d.seed, "level": "exploration", "wall_s": wall, "violations": violations,
		"coverage": map[string]interface{}{
			"evaluations":                    d.total.Runs,
			"distinct_nontrivial":            len(d.nontriv),
			"rule":                           rules[d.prop] + "; distinct by the hash of everything the callers observed and of the interleaving",
			"samples":                        samples,
			"simulated_runs":                 d.total.Runs,
			"runs_under_race_detector":       d.runs[1],
			"runs_first_in_their_process":    d.colds,
			"seeds_per_hour":                 int(float64(d.total.Runs) / wall * 3600),
			"processes":                      d.batches,
			"yield_points_in_code":           d.points,
			"yields_executed":                d.total.Steps,
			"multi_threaded_runs":            d.total.Multi,
			"context_switches":               d.total.Switches,
			"distinct_interleavings":         len(d.scheds),
			"interleaving_measure":           "distinct (plan, sequence of (thread, code point) at which control changed hands)",
			"distinct_observation_histories": len(d.states),
			"distinct_preemption_points":     len(at),
			"preemption_points_sample":       head(at, 25),
			"simulated_seconds":              d.total.Sim,
			"faults_injected":                faults,
			"counts":                         stats,
			"observations_not_counted":       d.total.Others,
			"deterministic_self_test":        deterministic,
			"components":                     stubs,
		},
		"assumptions": []string{
			"the scheduler switches threads between statements and at blocking operations; what happens inside a statement is covered by the race detector where it is used",
			"what is not reached by the drawn seeds is not covered: this is a search, not a proof",
			"the reference model is trusted only where a lone execution in a fresh process agrees with it against the execution under test",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(d.evidence, b, 0o644); err != nil {
		die("%v", err)
	}
}

func mixSeed(base uint64, i int) uint64 { return hook.Mix(base, uint64(i)) }

func strategyName(s int) string {
	return []string{"serial", "random", "pct", "operation boundaries", "focus points", "replay"}[s]
}

func head(xs []string, n int) []string {
	if len(xs) > n {
		// spread over the list
		var out []string
		for i := 0; i < n; i++ {
			out = append(out, xs[i*len(xs)/n])
		}
		return out
	}
	return xs
}
