// Command simrun is the simulator: it runs callers of loukoum as threads of a seeded scheduler, injects
// faults into the callbacks, readers and sinks they pass in, and judges what they observe.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	osexec "os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"verif.local/sim/hook"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simrun: "+format+"\n", a...)
	os.Exit(2)
}

// A Request is a question to a fresh process.
type Request struct {
	Mode  string            `json:"mode"` // eval, raw, solo
	Plans []*Plan           `json:"plans"`
	Solo  []SoloReq         `json:"solo,omitempty"`
	Fixed map[string]string `json:"fixed,omitempty"`
	Trace bool              `json:"trace,omitempty"`
	try   bool              // a plan that cannot be executed is no trouble
	Noise int               `json:"noise,omitempty"` // what the process did before, in numbers of allocations
}

// SoloReq names one render.
type SoloReq struct {
	Slot int    `json:"slot"`
	Form string `json:"form"`
	Op   int    `json:"op"`
	As   string `json:"as,omitempty"` // variant
}

// SoloObs is what a lone caller saw.
type SoloObs struct {
	St   string   `json:"st"`
	Msg  string   `json:"msg"`
	Out  string   `json:"out"`
	Args []string `json:"args"`
}

// Answer is the answer to a Request.
type Answer struct {
	Out  *Outcome     `json:"out,omitempty"`
	All  []*Violation `json:"all,omitempty"`
	Solo []*SoloObs   `json:"solo,omitempty"`
	Obs  []string     `json:"obs,omitempty"`
	Dead string       `json:"dead,omitempty"` // the process died: what it said
	bad  bool         // the plan is one that the harness cannot execute
	Hang bool         `json:"hang,omitempty"`
}

// ask runs this same binary on a request.
func ask(req *Request) *Answer { return askBinary(os.Args[0], req) }

const askLimit = 60 * time.Second

// childEnv is the environment of a child process; init is what the start of the process is drawn from.
func childEnv(init uint64) []string {
	if init == 0 {
		init = 1
	}
	return append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all", "SIM_INIT="+strconv.FormatUint(init, 10))
}

// initOf is what the start of the process is drawn from that a request is put to. What depends on that is
// found by C05, whose lone caller and whose second process have another start.
func initOf(req *Request) uint64 {
	p := req.Plans[len(req.Plans)-1]
	if p.Prop == "C05" && (req.Mode == "solo" || req.Noise > 0) {
		return p.Init + 1 + uint64(req.Noise)
	}
	return p.Init
}

func askBinary(bin string, req *Request) *Answer {
	b, err := json.Marshal(req)
	if err != nil {
		die("%v", err)
	}
	cmd := osexec.Command(bin, "answer")
	cmd.Env = childEnv(initOf(req))
	cmd.Stdin = bytes.NewReader(b)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	hang := false
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(askLimit, func() { hang = true; _ = cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	a := &Answer{}
	if err == nil {
		if json.Unmarshal(out.Bytes(), a) == nil {
			return a
		}
		die("child gave no answer: %s", errb.String())
	}
	a.Hang = hang
	a.Dead = errb.String()
	if req.try && (cmd.ProcessState.ExitCode() == 3 || strings.Contains(a.Dead, "simrun: ")) {
		a.bad = true
		return a
	}
	if code := cmd.ProcessState.ExitCode(); code == 3 {
		die("race inside the harness:\n%s", errb.String())
	} else if strings.Contains(a.Dead, "simrun: ") {
		die("child: %s", a.Dead)
	}
	if len(a.Dead) > 8000 {
		a.Dead = a.Dead[:8000]
	}
	if a.Dead == "" {
		a.Dead = err.Error()
	}
	return a
}

var ballast [][]byte

// observing, when it is not nil, collects what is observed, in words.
var observing []string

func answer() {
	req := &Request{}
	if err := json.NewDecoder(os.Stdin).Decode(req); err != nil {
		die("request: %v", err)
	}
	ans := &Answer{}
	switch req.Mode {
	case "eval":
		for i, p := range req.Plans {
			if i < len(req.Plans)-1 {
				_, o := execute(p)
				if o.Tainted {
					break
				}
				continue
			}
			ans.Out = evaluate(p)
			if req.Trace {
				ans.Out.Trace = traceOf(p, ans.Out)
			}
		}
	case "obs":
		for i := 0; i < req.Noise*977; i++ {
			ballast = append(ballast, make([]byte, 1+i%3000))
		}
		for _, p := range req.Plans {
			observing = []string{}
			if _, o := execute(p); o.Tainted {
				break
			}
		}
		ans.Obs = observing
	case "raw":
		for _, p := range req.Plans {
			ans.All, _ = execute(p)
		}
	case "solo":
		p := req.Plans[0]
		fixed := parseFixed(req.Fixed)
		for _, s := range req.Solo {
			if p.Lex != nil {
				for _, j := range p.Lex.Jobs {
					if j.ID == s.Slot {
						o := lexSolo(j, s.As)
						ans.Solo = append(ans.Solo, &SoloObs{St: o.St, Msg: o.Msg, Args: o.Tokens})
					}
				}
				continue
			}
			o := solo(p, s.Slot, s.Form, s.Op, s.As, fixed)
			ans.Solo = append(ans.Solo, &SoloObs{St: o.St, Msg: o.Msg, Out: o.Out, Args: o.Args})
		}
	default:
		die("mode %q", req.Mode)
	}
	if err := json.NewEncoder(os.Stdout).Encode(ans); err != nil {
		die("%v", err)
	}
}

func main() {
	hook.Started()
	if len(os.Args) < 2 {
		die("usage: simrun answer|worker|drive|replay|show ...")
	}
	if os.Args[1] != "drive" && os.Args[1] != "replay" {
		runtime.GOMAXPROCS(1)
		debug.SetGCPercent(800)
		if hook.RaceBuild {
			debug.SetGCPercent(400)
		}
	}
	switch os.Args[1] {
	case "answer":
		answer()
	case "worker":
		worker()
	case "drive":
		drive()
	case "replay":
		replay()
	case "show": // show PROP SEED: one plan and its outcome
		var seed uint64
		fmt.Sscan(os.Args[3], &seed)
		if len(os.Args) > 4 { // show PROP BASE INDEX
			var i uint64
			fmt.Sscan(os.Args[4], &i)
			seed = hook.Mix(seed, i)
		}
		p := makePlan(os.Args[2], seed, nil, 1200, false)
		all, out := execute(p)
		for _, o := range p.Ops {
			fmt.Println(describeOp(o))
		}
		for _, v := range all {
			fmt.Printf("%s op %d slot %d %s: %s\n", v.Class, v.Op, v.Slot, v.Form, v.Detail)
		}
		fmt.Println(out.Stats, out.Steps, hook.RaceBuild)
	default:
		die("unknown command %q", os.Args[1])
	}
}
