package hook

import (
	"os"
	"runtime"
	"strconv"
)

// What a process knows of where it runs. With a seed, all of it is drawn, and stays the same until the next
// seed is set.

var envSeed uint64

// SetEnv sets the seed of the environment; with 0 it is the real one.
//
//go:norace
func SetEnv(seed uint64) { envSeed = seed }

//go:norace
func envOf(what string) uint64 {
	if envSeed == 0 {
		return 0
	}
	h := envSeed
	for i := 0; i < len(what); i++ {
		h = mix(h, uint64(what[i]))
	}
	return h | 1<<63
}

var envTexts = []string{"", "1", "0", "true", "false", "C", "en_US.UTF-8", "tr_TR.UTF-8", "de_DE", "debug", "production", "test", "/tmp", "Asia/Tokyo"}

// LookupEnv is os.LookupEnv.
func LookupEnv(key string) (string, bool) {
	h := envOf("env " + key)
	if h == 0 {
		return os.LookupEnv(key)
	}
	if h%4 == 0 {
		return "", false
	}
	return envTexts[(h>>8)%uint64(len(envTexts))], true
}

// Getenv is os.Getenv.
func Getenv(key string) string {
	v, _ := LookupEnv(key)
	return v
}

// Hostname is os.Hostname.
func Hostname() (string, error) {
	if h := envOf("host"); h != 0 {
		return "host" + strconv.Itoa(int(h%1000)), nil
	}
	return os.Hostname()
}

// Getwd is os.Getwd.
func Getwd() (string, error) {
	if h := envOf("wd"); h != 0 {
		return "/home/u" + strconv.Itoa(int(h%1000)), nil
	}
	return os.Getwd()
}

// Getpid is os.Getpid.
func Getpid() int {
	if h := envOf("pid"); h != 0 {
		return 2 + int(h%30000)
	}
	return os.Getpid()
}

// Getppid is os.Getppid.
func Getppid() int {
	if h := envOf("ppid"); h != 0 {
		return 1 + int(h%30000)
	}
	return os.Getppid()
}

// Getuid is os.Getuid.
func Getuid() int {
	if h := envOf("uid"); h != 0 {
		return int(h%3) * 500
	}
	return os.Getuid()
}

var cpus = []int{1, 2, 4, 8, 16, 32, 64, 3, 6, 12, 10, 24}

// NumCPU is runtime.NumCPU.
func NumCPU() int {
	if h := envOf("cpu"); h != 0 {
		return cpus[h%uint64(len(cpus))]
	}
	return runtime.NumCPU()
}

// GOMAXPROCS is runtime.GOMAXPROCS; the number cannot be changed from within a simulation.
func GOMAXPROCS(n int) int {
	if h := envOf("cpu"); h != 0 {
		return cpus[h%uint64(len(cpus))]
	}
	return runtime.GOMAXPROCS(n)
}

// NumGoroutine is runtime.NumGoroutine.
func NumGoroutine() int {
	if h := envOf("goroutines"); h != 0 {
		return 1 + int(h%40)
	}
	return runtime.NumGoroutine()
}
