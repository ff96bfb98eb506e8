package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"verif.local/sim/hook"
)

// Job is what a worker process is asked to do.
type Job struct {
	Prop    string  `json:"prop"`
	Base    uint64  `json:"base"` // seeds are Mix(Base, i)
	From    int     `json:"from"`
	N       int     `json:"n"`
	Init    uint64  `json:"init,omitempty"` // what the start of the process is drawn from
	Points  int     `json:"points"`
	Focus   []int32 `json:"focus,omitempty"`
	Millis  int     `json:"millis"`
	Profile bool    `json:"profile,omitempty"`
	Hashes  bool    `json:"hashes,omitempty"`
	Cold    bool    `json:"cold,omitempty"` // plans that start at once, in all threads
}

// Batch is what a worker reports.
type Batch struct {
	Runs     int            `json:"runs"`
	Steps    int            `json:"steps"`
	Stats    map[string]int `json:"stats"`
	Others   map[string]int `json:"others"`
	Scheds   []uint64       `json:"scheds"` // distinct interleavings (hash of plan seed and switch points)
	States   []uint64       `json:"states"` // distinct observation histories
	At       []int32        `json:"at"`     // points at which a thread was preempted
	Multi    int            `json:"multi"`  // runs with more than one thread
	Switches int            `json:"switches"`
	Bad      int            `json:"bad"` // index of the seed that violated, -1 for none
	Found    *Outcome       `json:"found,omitempty"`
	Reached  []int32        `json:"reached,omitempty"`
	Hashes   []uint64       `json:"hashes,omitempty"`
	Nontriv  []uint64       `json:"nontriv"`
	Sim      int            `json:"sim_seconds"` // simulated clock travel
}

func worker() {
	job := &Job{}
	if err := json.NewDecoder(os.Stdin).Decode(job); err != nil {
		die("job: %v", err)
	}
	b := &Batch{Stats: map[string]int{}, Others: map[string]int{}, Bad: -1}
	start := time.Now()
	if job.Profile {
		hook.Points = make([]uint32, job.Points+1)
	}
	at := map[int32]bool{}
	progress, _ := os.OpenFile(os.Getenv("SIM_PROGRESS"), os.O_CREATE|os.O_WRONLY, 0o644)
	for i := job.From; i < job.From+job.N; i++ {
		if job.Millis > 0 && time.Since(start) > time.Duration(job.Millis)*time.Millisecond {
			break
		}
		if progress != nil {
			var buf [8]byte
			for k := range buf {
				buf[k] = byte(i >> (8 * k))
			}
			_, _ = progress.WriteAt(buf[:], 0)
		}
		seed := hook.Mix(job.Base, uint64(i))
		p := makePlan(job.Prop, seed, job.Focus, job.Points, job.Cold)
		p.Init = job.Init
		out := evaluate(p)
		if os.Getenv("SIM_DEBUG") == "roundtrip" {
			if _, o := execute(clonePlan(p)); o.Obs != out.Obs || o.Sched != out.Sched {
				die("seed %d runs otherwise once written and read", i)
			}
		}
		b.Runs++
		b.Steps += out.Steps
		if os.Getenv("SIM_DEBUG") == "steps" && out.Steps > 3000000 {
			fmt.Fprintf(os.Stderr, "%s seed %d: %d steps\n", job.Prop, i, out.Steps)
		}
		if os.Getenv("SIM_DEBUG") == "others" && len(out.Others) > 0 {
			fmt.Fprintf(os.Stderr, "%s seed %d: %v\n", job.Prop, i, out.Others)
		}
		if p.Threads > 1 {
			b.Multi++
			b.Scheds = append(b.Scheds, hook.Mix(seed, out.Sched))
		}
		b.States = append(b.States, out.Obs)
		b.Switches += len(out.Switches)
		if c := out.Stats["clock"]; c > 0 {
			b.Sim += c
		} else {
			b.Sim -= c
		}
		delete(out.Stats, "clock")
		ps := planStats(p)
		merge(b.Stats, ps)
		if nontrivial(p, ps, out) {
			b.Nontriv = append(b.Nontriv, hook.Mix(out.Obs, out.Sched))
		}
		for _, s := range out.Switches {
			if s.P != 0 {
				at[s.P] = true
			}
		}
		merge(b.Stats, out.Stats)
		merge(b.Others, out.Others)
		if job.Hashes {
			b.Hashes = append(b.Hashes, hook.Mix(out.Obs, hook.Mix(out.Sched, uint64(out.Steps))))
		}
		if len(out.Violations) > 0 {
			b.Bad = i
			b.Found = out
			break
		}
		if out.Tainted {
			break
		}
	}
	for p := range at {
		b.At = append(b.At, p)
	}
	for p, n := range hook.Points {
		if n > 0 {
			b.Reached = append(b.Reached, int32(p))
		}
	}
	if err := json.NewEncoder(os.Stdout).Encode(b); err != nil {
		die("%v", err)
	}
}
