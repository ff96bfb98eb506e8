package hook

import (
	"os"
	"runtime"
	"strconv"
	"time"
)

// What the variables of the library's packages are set to when the process starts may depend on chance, the
// clock and the environment too: with SIM_INIT, these are drawn from it until Started is called.
func init() {
	seed, err := strconv.ParseUint(os.Getenv("SIM_INIT"), 10, 64)
	if err != nil || seed == 0 {
		return
	}
	runtime.SimMapSeed(seedFor(seed, 0), clockFor(seed, 0))
	runtime.SimAddrs(seed)
	SetEnv(seed)
	if seed%3 != 0 {
		time.Local = time.FixedZone("start", int(seed%25)*3600-12*3600)
	}
}

// Started ends what the process does before it begins.
func Started() {
	runtime.SimMapSeed(0, 0)
	runtime.SimAddrs(0)
	SetEnv(0)
}
