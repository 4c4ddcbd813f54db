#!/usr/bin/env python3
"""Writes patched copies of a few files of the Go runtime, and the overlay file which makes the go command use them."""
import json, os, subprocess, sys
out = sys.argv[1]
root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
repl = {}
def patch(rel, *edits):
    path = os.path.join(root, "src", rel)
    src = open(path).read()
    for old, new in edits:
        if src.count(old) != 1:
            sys.exit(f"mkoverlay: {rel}: {src.count(old)} occurrences of {old!r}")
        src = src.replace(old, new)
    dst = os.path.join(out, rel.replace("/", "__"))
    os.makedirs(out, exist_ok=True)
    open(dst, "w").write(src)
    repl[path] = dst
def add(rel, file):
    repl[os.path.join(root, "src", rel)] = file
here = os.path.dirname(os.path.abspath(__file__))
patch("runtime/runtime2.go",
  ("	waitreason   waitReason // if status==Gwaiting\n", "	waitreason   waitReason // if status==Gwaiting\n	verif        bool       // scheduled by the model checker\n"))
patch("runtime/proc.go",
  ("	newg.parentGoid = callergp.goid\n", "	newg.parentGoid = callergp.goid\n	verifSpawn(callergp, newg)\n"),
  ("	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n", "	casgstatus(gp, _Grunning, _Gdead)\n	verifExit(gp)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n"),
  ("	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n", "	if gp := verifNext(); gp != nil {\n		return gp, false, false\n	}\n\n	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n"),
  ("func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n	if gp.verif {\n		verifPut(gp)\n		return\n	}\n"),
  ("func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n	assertLockHeld(&sched.lock)\n	if gp.verif {\n		verifPut(gp)\n		return\n	}\n"),
  ("func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if verifOn {\n		verifWatch(now)\n		return 0\n	}\n"),
)
patch("runtime/chan.go",
  ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	verifYield()\n"),
  ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	verifYield()\n"),
  ("func closechan(c *hchan) {\n", "func closechan(c *hchan) {\n	verifYield()\n"),
)
patch("runtime/select.go",
  ("block bool) (int, bool) {\n	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\"", "block bool) (int, bool) {\n	verifYield()\n	gp := getg()\n	if debugSelect {\n		print(\"select: cas0=\""),
  ("		j := cheaprandn(uint32(norder + 1))\n		pollorder", "		j := verifSelect(uint32(norder + 1))\n		pollorder"),
)
patch("runtime/rand.go",
  ("func rand() uint64 {\n", "func rand() uint64 {\n	if verifMarked() {\n		return verifRand()\n	}\n"),
  ("func maps_rand() uint64 {\n	return rand()\n}\n", "func maps_rand() uint64 {\n	return verifSeed()\n}\n\n//go:linkname maps_verifIter internal/runtime/maps.verifIter\nfunc maps_verifIter(used uint64) uint64 {\n	return verifIter(used)\n}\n"))
patch("time/time.go",
  ("func Now() Time {\n	sec, nsec, mono := runtimeNow()\n", "//go:linkname verifClock\nfunc verifClock() int64\n\nfunc Now() Time {\n	sec, nsec, mono := runtimeNow()\n	sec += verifClock()\n"))
patch("internal/runtime/maps/runtime.go",
  ("func rand() uint64\n", "func rand() uint64\n\n//go:linkname verifIter\nfunc verifIter(used uint64) uint64\n"))
patch("internal/runtime/maps/table.go",
  ("	it.entryOffset = rand()\n", "	it.entryOffset = verifIter(m.used)\n"))
patch("internal/sync/runtime.go",
  ("//go:linkname runtime_SemacquireMutex\n", "//go:linkname verifYield\nfunc verifYield()\n\n//go:linkname runtime_SemacquireMutex\n"))
patch("internal/sync/mutex.go",
  ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	verifYield()\n"))
patch("sync/runtime.go",
  ("// defined in package runtime\n", "// defined in package runtime\n\n//go:linkname verifYield\nfunc verifYield()\n"))
patch("sync/rwmutex.go",
  ("func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	verifYield()\n"))
# garbage collections empty the pools: their locks are not schedule points
patch("sync/pool.go",
  ("	allPoolsMu.Lock()\n", "	for !allPoolsMu.TryLock() {\n		runtime.Gosched()\n	}\n"))
add("runtime/verif.go", os.path.join(here, "runtime_verif.go.txt"))
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
