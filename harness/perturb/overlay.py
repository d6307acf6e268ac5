#!/usr/bin/env python3
"""overlay.py GOROOT OUTDIR: copies of a few files of the Go runtime, changed for
the harness's test binary, and OUTDIR/overlay.json naming them.

1. A goroutine that waits for a mutex counts as idle for testing/synctest.
   The virtual clock does not advance otherwise, and the harness needs it to: a
   lock may be held by one who waits for time to pass, and a deadlock must show
   as time passing.

2. Schedule perturbation. Before and after channel operations, selects, starts of
   goroutines and operations on mutexes, a goroutine is sometimes made to yield
   or to sleep for a nanosecond (which in a bubble means: until nobody else can
   go on). runtime.verifPerturb is the rate out of 1024, 0 turns it off. It only
   chooses among schedules that Go allows anyway.
"""
import json, os, re, sys

goroot, out = sys.argv[1], sys.argv[2]
replace = {}

def patch(rel, subs):
    src = os.path.join(goroot, "src", rel)
    s = open(src).read()
    for old, new in subs:
        if s.count(old) != 1:
            sys.exit("overlay: %s: %d times: %r" % (src, s.count(old), old))
        s = s.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "_"))
    open(dst, "w").write(s)
    replace[src] = dst

old = re.search("\twaitReasonSynctestSelect: *true,\n", open(os.path.join(goroot, "src/runtime/runtime2.go")).read())
if not old:
    sys.exit("overlay: no waitReasonSynctestSelect in runtime2.go")
old = old.group(0)
patch("runtime/runtime2.go", [(old, old + "\twaitReasonSyncMutexLock: true,\n\twaitReasonSyncRWMutexRLock: true,\n\twaitReasonSyncRWMutexLock: true,\n")])

patch("runtime/chan.go", [
    ("//go:nosplit\nfunc chansend1(c *hchan, elem unsafe.Pointer) {\n\tchansend(c, elem, true, sys.GetCallerPC())\n",
     '''// verifPerturb is how often out of 1024 a goroutine is held up.
//
//go:linkname verifPerturb
var verifPerturb uint32

//go:linkname verifPerturbState
var verifPerturbState uint64

func perturb() {
	rate := verifPerturb
	if rate == 0 {
		return
	}
	x := verifPerturbState
	x ^= x << 13
	x ^= x >> 7
	x ^= x << 17
	verifPerturbState = x
	r := uint32(x >> 54)
	if r >= rate {
		return
	}
	gp := getg()
	mp := gp.m
	if gp != mp.curg || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || isSystemGoroutine(gp, false) || work.startSema == 0 {
		return
	}
	if x>>20&3 != 0 || gp.bubble != nil && gp == gp.bubble.root {
		Gosched()
	} else {
		timeSleep(1 + int64(x>>10&3))
	}
}

//go:linkname sync_runtime_perturb sync.runtime_perturb
func sync_runtime_perturb() {
	perturb()
}

func chansend1(c *hchan, elem unsafe.Pointer) {
	perturb()
	chansend(c, elem, true, sys.GetCallerPC())
	perturb()
'''),
    ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n\tperturb()\n\tclosechan0(c)\n\tperturb()\n}\n\nfunc closechan0(c *hchan) {\n"),
    ("//go:nosplit\nfunc chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tchanrecv(c, elem, true)\n",
     "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tperturb()\n\tchanrecv(c, elem, true)\n\tperturb()\n"),
    ("//go:nosplit\nfunc chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\t_, received = chanrecv(c, elem, true)\n",
     "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tperturb()\n\t_, received = chanrecv(c, elem, true)\n\tperturb()\n"),
    ("func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\treturn chansend(c, elem, false, sys.GetCallerPC())\n",
     "func selectnbsend(c *hchan, elem unsafe.Pointer) (selected bool) {\n\tperturb()\n\tselected = chansend(c, elem, false, sys.GetCallerPC())\n\tperturb()\n\treturn\n"),
    ("func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\treturn chanrecv(c, elem, false)\n",
     "func selectnbrecv(elem unsafe.Pointer, c *hchan) (selected, received bool) {\n\tperturb()\n\tselected, received = chanrecv(c, elem, false)\n\tperturb()\n\treturn\n"),
])

patch("runtime/select.go", [(
    "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
    "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n"
    "\tperturb()\n\tn, ok := selectgo0(cas0, order0, pc0, nsends, nrecvs, block)\n\tperturb()\n\treturn n, ok\n}\n\n"
    "func selectgo0(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n")])

patch("runtime/proc.go", [
    ("\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n\t})\n}\n", "\t\tif mainStarted {\n\t\t\twakep()\n\t\t}\n\t})\n\tif mainStarted {\n\t\tperturb()\n\t}\n}\n")])

patch("sync/runtime.go", [("func throw(string)\n", "func throw(string)\n\n//go:linkname runtime_perturb\nfunc runtime_perturb()\n")])

patch("sync/mutex.go", [
    ("\tm.mu.Lock()\n", "\truntime_perturb()\n\tm.mu.Lock()\n\truntime_perturb()\n"),
    ("\tm.mu.Unlock()\n", "\truntime_perturb()\n\tm.mu.Unlock()\n\truntime_perturb()\n"),
])

def around(rel, names):
    """wraps methods of RWMutex"""
    src = os.path.join(goroot, "src", rel)
    subs = []
    for n in names:
        f = "func (rw *RWMutex) %s() {\n" % n
        subs.append((f, f + "\truntime_perturb()\n\trw.%s0()\n\truntime_perturb()\n}\n\nfunc (rw *RWMutex) %s0() {\n" % (n.lower(), n.lower())))
    patch(rel, subs)

around("sync/rwmutex.go", ["RLock", "RUnlock", "Lock", "Unlock"])

json.dump({"Replace": replace}, open(os.path.join(out, "overlay.json"), "w"))
