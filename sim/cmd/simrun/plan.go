package main

import (
	"encoding/json"
	"unicode/utf8"

	"verif.local/sim/hook"
)

// A Node is one argument of an operation: a value, a column, an expression, a fragment reference...
type Node struct {
	K  string  `json:"k"`
	S  string  `json:"s,omitempty"`
	T  string  `json:"t,omitempty"`
	N  int     `json:"n,omitempty"`
	R  int     `json:"r,omitempty"` // slot referred to
	ID int     `json:"id,omitempty"`
	F  string  `json:"f,omitempty"` // fault script of a callback
	E  int     `json:"e,omitempty"` // when not 0, the caller's object, which several calls are given
	L  []*Node `json:"l,omitempty"`
}

// nodeJSON is a Node as it is written: what is not UTF-8 goes as bytes.
type nodeJSON struct {
	*nodePlain
	SB []byte `json:"sb,omitempty"`
	TB []byte `json:"tb,omitempty"`
}

type nodePlain Node

// MarshalJSON implements json.Marshaler.
func (n *Node) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(n.S) && utf8.ValidString(n.T) {
		return json.Marshal((*nodePlain)(n))
	}
	c := *n
	c.S, c.T = "", ""
	return json.Marshal(nodeJSON{(*nodePlain)(&c), []byte(n.S), []byte(n.T)})
}

// UnmarshalJSON implements json.Unmarshaler.
func (n *Node) UnmarshalJSON(b []byte) error {
	j := nodeJSON{nodePlain: (*nodePlain)(n)}
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	if len(j.SB) > 0 {
		n.S = string(j.SB)
	}
	if len(j.TB) > 0 {
		n.T = string(j.TB)
	}
	return nil
}

// An Op is one call that a caller thread makes.
type Op struct {
	ID   int     `json:"id"`
	Th   int     `json:"th"` // -1: during setup
	K    string  `json:"k"`
	In   int     `json:"in,omitempty"`  // receiver slot
	Out  int     `json:"out,omitempty"` // result slot
	A    []*Node `json:"a,omitempty"`
	Sp   int     `json:"sp,omitempty"` // when not 0, the arguments are spread from caller-owned container Sp
	Form string  `json:"form,omitempty"`
	F    string  `json:"f,omitempty"` // fault
	Arg  int     `json:"arg,omitempty"`
}

// A Plan is one simulated execution: operations, schedule and faults.
type Plan struct {
	Prop     string        `json:"prop"`
	Seed     uint64        `json:"seed"`
	MapSeed  uint64        `json:"map_seed"`
	PoolSeed uint64        `json:"pool_seed"`
	Init     uint64        `json:"init,omitempty"` // what the start of the process is drawn from
	Threads  int           `json:"threads"`
	Ops      []*Op         `json:"ops,omitempty"`
	Strategy int           `json:"strategy"`
	P        uint32        `json:"p,omitempty"`
	Changes  []int         `json:"changes,omitempty"`
	Focus    []int32       `json:"focus,omitempty"`
	Sync     bool          `json:"sync,omitempty"`
	Switches []hook.Switch `json:"switches,omitempty"`
	Race     bool          `json:"race,omitempty"`
	MapSeeds []uint64      `json:"map_seeds,omitempty"`
	Lex      *LexPlan      `json:"lex,omitempty"`
	Tags     []string      `json:"tags,omitempty"`
}

// A ReplayFile is what a violation is reported with.
type ReplayFile struct {
	Property string   `json:"property"`
	Class    string   `json:"class"`
	Detail   string   `json:"detail"`
	Build    string   `json:"build"`
	Seed     uint64   `json:"verif_seed"`
	Note     string   `json:"note"`
	Trace    []string `json:"trace,omitempty"`
	Plans    []*Plan  `json:"plans"`
}

func clonePlan(p *Plan) *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		die("clone: %v", err)
	}
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		die("clone: %v", err)
	}
	return q
}

func walk(n *Node, f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, c := range n.L {
		walk(c, f)
	}
}

// deps lists the slots that an operation needs.
func (o *Op) deps() []int {
	var d []int
	if o.In > 0 {
		d = append(d, o.In)
	}
	for _, a := range o.A {
		walk(a, func(n *Node) {
			if n.R > 0 {
				d = append(d, n.R)
			}
		})
	}
	return d
}

// closure is the shortest single-threaded, fault-free plan that builds the slots and nothing else.
func closure(p *Plan, slots ...int) *Plan {
	need := map[int]bool{}
	for _, s := range slots {
		need[s] = true
	}
	keep := map[int]bool{}
	for i := len(p.Ops) - 1; i >= 0; i-- {
		o := p.Ops[i]
		if o.Out > 0 && need[o.Out] && o.K != "render" && o.K != "write" && o.K != "compose" {
			keep[i] = true
			for _, d := range o.deps() {
				need[d] = true
			}
		}
	}
	q := clonePlan(p)
	q.Ops = nil
	q.Threads = 0
	q.MapSeeds = nil
	q.Switches = nil
	q.Strategy = hook.Serial
	for i, o := range clonePlan(p).Ops {
		if keep[i] {
			o.Th = -1
			q.Ops = append(q.Ops, o)
		}
	}
	return q
}

// rng is the generator every choice is drawn from.
type rng struct{ s uint64 }

func newRng(seed uint64) *rng { return &rng{hook.Mix(seed, 0x5eed)} }

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return hook.Mix(r.s, 0xabcdef)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// p is true with the given percentage.
func (r *rng) p(percent int) bool { return int(r.u64()%100) < percent }

func (r *rng) pick(xs ...string) string { return xs[r.n(len(xs))] }
