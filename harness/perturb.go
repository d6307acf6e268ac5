package gv

import (
	"hash/fnv"
	"os"
	"strconv"
	"sync/atomic"
	_ "unsafe"
)

// verifPerturb is the rate out of 1024 at which a goroutine is held up at
// channels and mutexes, see perturb/overlay.py.
//
//go:linkname verifPerturb runtime.verifPerturb
var verifPerturb uint32

// verifPerturbState decides which goroutines are.
//
//go:linkname verifPerturbState runtime.verifPerturbState
var verifPerturbState uint64

var (
	perturbN     uint32
	perturbRates = []uint32{0, 12, 0, 100, 3, 400}
)

// perturbed sets the rate for one execution, and returns how to end it. Executions
// of the same plan have different rates.
func perturbed(plan []byte) func() {
	rate := perturbRates[perturbN%uint32(len(perturbRates))]
	perturbN++
	h := fnv.New64a()
	h.Write(plan)
	verifPerturbState = h.Sum64() + uint64(perturbN)*0x9e3779b97f4a7c15 | 1
	if s := os.Getenv("GV_PERTURB"); s != "" {
		n, _ := strconv.Atoi(s)
		rate = uint32(n)
	}
	atomic.StoreUint32(&verifPerturb, rate)
	return func() { atomic.StoreUint32(&verifPerturb, 0) }
}
