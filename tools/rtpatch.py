"""Patches of the Go 1.27.3 standard library that turn the Go scheduler into a
seeded, replayable one.  Applied through `go build -overlay`; GOROOT itself is
never written.  Every anchor must occur exactly once: a toolchain that differs
makes the build fail loudly instead of silently losing determinism."""
import os

SIM_GO = r'''
package runtime

import "unsafe"

// Deterministic simulation support (verification only, added by overlay).
//
// While simOn is set every goroutine that belongs to a synctest bubble is kept
// in simq instead of the ordinary run queues, and the next one to run is
// chosen by simrand, a PRNG that nothing outside the bubble draws from.

const simqCap = 1 << 16

var (
	simOn     bool
	simMode   uint32 // 0 fifo, 1 uniform, 2 priority (PCT-like)
	simState  uint64
	simLock   mutex
	simqBuf   [simqCap]guintptr
	simqLen   uint32
	simPicks  uint64
	simMulti  uint64 // picks with more than one candidate
	simHash   uint64 // running hash over scheduling decisions
	simLocks  int32
)

//go:nosplit
func simrand() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simrandn(n uint32) uint32 {
	return uint32((uint64(uint32(simrand()>>32)) * uint64(n)) >> 32)
}

// simIn reports whether the caller is an ordinary goroutine of a simulated bubble.
//
//go:nosplit
func simIn() bool {
	return simOn && getg().bubble != nil
}

func simqput(gp *g) {
	lock(&simLock)
	if simqLen >= simqCap {
		throw("simq overflow")
	}
	if gp.simPrio == 0 {
		gp.simPrio = uint32(simrand()) | 1
	}
	simqBuf[simqLen].set(gp)
	simqLen++
	unlock(&simLock)
}

func simqget() *g {
	if simqLen == 0 {
		return nil
	}
	lock(&simLock)
	n := simqLen
	if n == 0 {
		unlock(&simLock)
		return nil
	}
	var i uint32
	switch simMode {
	case 0:
		i = 0
	case 1:
		if n > 1 {
			i = simrandn(n)
		}
	default:
		if n > 1 {
			if simrand()&15 == 0 {
				i = simrandn(n)
			} else {
				best := uint32(0)
				for k := uint32(0); k < n; k++ {
					if p := simqBuf[k].ptr().simPrio; p > best {
						best, i = p, k
					}
				}
			}
		}
	}
	gp := simqBuf[i].ptr()
	// keep FIFO order of the rest
	for k := i + 1; k < n; k++ {
		simqBuf[k-1] = simqBuf[k]
	}
	simqLen--
	simPicks++
	if n > 1 {
		simMulti++
	}
	simHash = (simHash ^ uint64(i+1)) * 0x100000001b3
	unlock(&simLock)
	return gp
}

//go:linkname simStart
func simStart(seed uint64, mode uint32) {
	simState = seed*0x9e3779b97f4a7c15 + 0x1234567
	simMode = mode
	simHash = 0xcbf29ce484222325
	simOn = true
}

//go:linkname simStop
func simStop() { simOn = false }

//go:linkname simRand
func simRand() uint64 { return simrand() }

//go:linkname simStats
func simStats() (picks, multi, hash uint64) { return simPicks, simMulti, simHash }

//go:linkname simActive
func simActive() bool { return simIn() }

//go:linkname simNow
func simNow() int64 {
	if b := getg().bubble; b != nil {
		return b.now
	}
	return nanotime()
}

// simRepri gives the calling goroutine a fresh (usually low) priority.
//
//go:linkname simRepri
func simRepri() {
	getg().simPrio = uint32(simrand()>>33) | 1
}

//go:linkname simGoid
func simGoid() uint64 { return getg().goid }

//go:linkname simLabel
func simLabel() uint64 { return getg().simLabel }

//go:linkname simSetLabel
func simSetLabel(l uint64) { getg().simLabel = l }

var simNCPU int32

// simSetNCPU makes runtime.NumCPU report n (0: the real value).
//
//go:linkname simSetNCPU
func simSetNCPU(n int32) { simNCPU = n }

//go:linkname simBubbleRun
func simBubbleRun(f func()) { synctestRun(f) }

//go:linkname simWait
func simWait() { synctestWait() }

var _ = unsafe.Pointer(nil)
'''

SYSCALL_GO = r'''
package syscall

// SimHook, when set, sees every file operation (verification only, added by
// overlay).  call performs the real operation.
var SimHook func(op string, fd int, path, path2 string, p []byte, call func() (int, error)) (int, error)

func Open(path string, mode int, perm uint32) (fd int, err error) {
	if h := SimHook; h != nil {
		return h("open", mode, path, "", nil, func() (int, error) { return simOpen(path, mode, perm) })
	}
	return simOpen(path, mode, perm)
}

func write(fd int, p []byte) (n int, err error) {
	if h := SimHook; h != nil && fd > 2 {
		return h("write", fd, "", "", p, func() (int, error) { return simwrite(fd, p) })
	}
	return simwrite(fd, p)
}

func pwrite(fd int, p []byte, offset int64) (n int, err error) {
	if h := SimHook; h != nil && fd > 2 {
		return h("write", fd, "", "", p, func() (int, error) { return simpwrite(fd, p, offset) })
	}
	return simpwrite(fd, p, offset)
}

func simErr(h func(op string, fd int, path, path2 string, p []byte, call func() (int, error)) (int, error), op string, fd int, a, b string, f func() error) error {
	if h == nil {
		return f()
	}
	_, err := h(op, fd, a, b, nil, func() (int, error) { return 0, f() })
	return err
}

func Fsync(fd int) error {
	return simErr(SimHook, "fsync", fd, "", "", func() error { return simFsync(fd) })
}
func Fdatasync(fd int) error {
	return simErr(SimHook, "fsync", fd, "", "", func() error { return simFdatasync(fd) })
}
func Ftruncate(fd int, length int64) error {
	return simErr(SimHook, "ftruncate", fd, "", "", func() error { return simFtruncate(fd, length) })
}
func Truncate(path string, length int64) error {
	return simErr(SimHook, "truncate", 0, path, "", func() error { return simTruncate(path, length) })
}
func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {
	return simErr(SimHook, "rename", 0, oldpath, newpath, func() error { return simRenameat(olddirfd, oldpath, newdirfd, newpath) })
}
func Link(oldpath string, newpath string) error {
	return simErr(SimHook, "link", 0, oldpath, newpath, func() error { return simLink(oldpath, newpath) })
}
func Unlink(path string) error {
	return simErr(SimHook, "unlink", 0, path, "", func() error { return simUnlink(path) })
}
func Close(fd int) error {
	return simErr(SimHook, "close", fd, "", "", func() error { return simClose(fd) })
}
'''

def sub1(src, old, new, what):
    if src.count(old) != 1:
        raise SystemExit(f"rtpatch: anchor {what!r} occurs {src.count(old)} times, want 1")
    return src.replace(old, new)

def generate(goroot, out):
    """Writes patched files under out, returns {original: patched}."""
    rep = {}
    src = goroot + "/src/"
    def load(p):
        with open(src + p) as f:
            return f.read()
    def save(p, text):
        dst = os.path.join(out, p.replace("/", "__"))
        os.makedirs(out, exist_ok=True)
        old = None
        if os.path.exists(dst):
            with open(dst) as f: old = f.read()
        if old != text:
            with open(dst, "w") as f: f.write(text)
        rep[src + p] = dst
    # --- runtime/sim.go (new file)
    save("runtime/sim.go", SIM_GO)
    # --- runtime2.go
    t = load("runtime/runtime2.go")
    i = t.index("\ntype g struct {\n")
    j = t.index("\n}\n", i)
    t = t[:j] + "\n\n\tsimPrio  uint32\n\tsimLabel uint64" + t[j:]
    t = sub1(t, "\twaitReasonSyncCondWait:          true,\n",
      "\twaitReasonSyncCondWait:          true,\n\twaitReasonSyncMutexLock:         true,\n\twaitReasonSyncRWMutexRLock:      true,\n\twaitReasonSyncRWMutexLock:       true,\n\twaitReasonSyncWaitGroupWait:     true,\n", "idle table")
    save("runtime/runtime2.go", t)
    # --- rand.go
    t = load("runtime/rand.go")
    t = sub1(t, "\tseed := &globalRand.seed\n", "\tfor i := range startupRand {\n\t\tstartupRand[i] = byte(i*37 + 11)\n\t}\n\tseed := &globalRand.seed\n", "startupRand")
    t = sub1(t, "\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif simIn() {\n\t\treturn simrand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n", "rand")
    save("runtime/rand.go", t)
    # --- select.go
    t = load("runtime/select.go")
    t = sub1(t, "\t\tj := cheaprandn(uint32(norder + 1))\n",
      "\t\tvar j uint32\n\t\tif gp.bubble != nil && simOn {\n\t\t\tj = simrandn(uint32(norder + 1))\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n", "select order")
    save("runtime/select.go", t)
    # --- time.go
    t = load("runtime/time.go")
    t = sub1(t, "\t\t\tt.rand = cheaprand()\n", "\t\t\tif simOn {\n\t\t\t\tt.rand = uint32(simrand() >> 32)\n\t\t\t} else {\n\t\t\t\tt.rand = cheaprand()\n\t\t\t}\n", "timer rand")
    save("runtime/time.go", t)
    # --- proc.go
    t = load("runtime/proc.go")
    t = sub1(t, "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif simOn && gp.bubble != nil {\n\t\tsimqput(gp)\n\t\treturn\n\t}\n", "runqput")
    t = sub1(t, "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n", "func globrunqput(gp *g) {\n\tassertLockHeld(&sched.lock)\n\tif simOn && gp.bubble != nil {\n\t\tsimqput(gp)\n\t\treturn\n\t}\n", "globrunqput")
    t = sub1(t, "\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n",
      "\tif simOn {\n\t\tif gp := simqget(); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t}\n\n\t// Poll network.\n\t// This netpoll is only an optimization before we resort to stealing.\n", "findRunnable")
    t = sub1(t, "func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n\tif simOn {\n\t\treturn 0\n\t}\n", "retake")
    t = sub1(t, "\tnewg.trackingSeq = uint8(cheaprand())\n", "\tnewg.trackingSeq = uint8(cheaprand())\n\tnewg.simPrio = 0\n\tnewg.simLabel = 0\n\tif callergp != nil {\n\t\tnewg.simLabel = callergp.simLabel\n\t}\n", "newproc1")
    t = sub1(t, "\tif gp == nil || gp == mp.g0 {\n\t\treturn false\n\t}\n\tif readgstatus(gp)&^_Gscan == _Gsyscall {\n\t\t// Don't bother", "\tif gp == nil || gp == mp.g0 || simOn {\n\t\treturn false\n\t}\n\tif readgstatus(gp)&^_Gscan == _Gsyscall {\n\t\t// Don't bother", "preemptone")
    t = sub1(t, "\t\tif !ok {\n\t\t\t// Not in a syscall, or something changed out from under us.\n\t\t\tgoto done\n\t\t}\n", "\t\tif !ok {\n\t\t\t// Not in a syscall, or something changed out from under us.\n\t\t\tgoto done\n\t\t}\n\t\tif simOn {\n\t\t\tthread.resume()\n\t\t\tgoto done\n\t\t}\n", "retake2")
    save("runtime/proc.go", t)
    t = load("runtime/preempt.go")
    i = t.index("func wantAsyncPreempt(gp *g) bool {\n")
    t = t.replace("func wantAsyncPreempt(gp *g) bool {\n", "func wantAsyncPreempt(gp *g) bool {\n\tif simOn && gp.bubble != nil && !gp.preemptStop {\n\t\treturn false\n\t}\n")
    save("runtime/preempt.go", t)
    # --- stack.go: a stale preemption request must not deschedule a simulated goroutine
    t = load("runtime/stack.go")
    t = sub1(t, "\t\tif !canPreemptM(thisg.m) {\n", "\t\tif !canPreemptM(thisg.m) || (simOn && gp.bubble != nil && !gp.preemptStop && !gp.preemptShrink) {\n", "newstack")
    save("runtime/stack.go", t)
    t = load("runtime/debug.go")
    t = sub1(t, "func NumCPU() int {\n", "func NumCPU() int {\n\tif simNCPU != 0 {\n\t\treturn int(simNCPU)\n\t}\n", "NumCPU")
    save("runtime/debug.go", t)
    # --- syscall: a seam under every file operation
    save("syscall/sim_linux.go", SYSCALL_GO)
    t = load("syscall/syscall_linux.go")
    for f in ["Open", "Link", "Unlink"]:
        t = sub1(t, "func %s(" % f, "func sim%s(" % f, f)
    save("syscall/syscall_linux.go", t)
    t = load("syscall/zsyscall_linux_amd64.go")
    for f in ["write", "pwrite", "Fsync", "Fdatasync", "Ftruncate", "Truncate", "Renameat", "Close"]:
        t = sub1(t, "func %s(" % f, "func sim%s(" % f, f)
    save("syscall/zsyscall_linux_amd64.go", t)
    # --- internal/sync/mutex.go: starvation mode depends on real time
    t = load("internal/sync/mutex.go")
    t = sub1(t, "starvationThresholdNs = 1e6", "starvationThresholdNs = 1 << 62", "starvation")
    save("internal/sync/mutex.go", t)
    return rep
