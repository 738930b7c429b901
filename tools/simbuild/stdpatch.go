package main

import (
	"os"
	"path/filepath"
	"strings"
)

type patch struct{ old, new string }

// The seams cut into the standard library.  All of them are inert until the
// simulator switches them on, except the two that make the process itself
// repeatable (fixed hash keys, no time-based preemption of goroutines).
var stdPatches = map[string][]patch{
	// Map hashing and iteration order: one seeded stream.
	"runtime/rand.go": {
		{"func maps_rand() uint64 {\n\treturn rand()\n}",
			"func maps_rand() uint64 {\n\tx := SimMapState\n\tx ^= x << 13\n\tx ^= x >> 7\n\tx ^= x << 17\n\tSimMapState = x\n\treturn x * 0x9E3779B97F4A7C15\n}"},
		{"	globalRand.state.Init(*seed)\n\tclear(seed[:])",
			"	for i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n\tclear(seed[:])"},
	},
	// No time-slice preemption (unless something spins for 2 s of real time: it
	// must be possible to find out where; see hangHandler), no scheduler randomisation under -race, and a
	// hook at goroutine exit.
	"runtime/proc.go": {
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"		} else if pd.schedwhen+forcePreemptNS <= now {\n\t\t\tpreemptone(pp)",
			"		} else if pd.schedwhen+forcePreemptNS <= now {\n\t\t\tif !SimActive || pd.schedwhen+200*forcePreemptNS <= now {\n\t\t\t\tpreemptone(pp)\n\t\t\t}"},
		{"func goexit1() {\n", "func goexit1() {\n\tif SimActive && SimExit != nil {\n\t\tSimExit()\n\t}\n"},
	},
	// Mutex starvation mode depends on real time.
	"internal/sync/mutex.go": {
		{"starvationThresholdNs = 1e6", "starvationThresholdNs = 1e18"},
	},
	// Clock.
	"time/time.go": {
		{"func Now() Time {\n\tsec, nsec, mono := runtimeNow()",
			"func Now() Time {\n\tif SimNow != nil {\n\t\tif w, m, ok := SimNow(); ok {\n\t\t\treturn Time{hasMonotonic | uint64(w/1e9+unixToInternal-minWall)<<nsecShift | uint64(w%1e9), m, Local}\n\t\t}\n\t}\n\tsec, nsec, mono := runtimeNow()"},
		{"func Since(t Time) Duration {\n", "func Since(t Time) Duration {\n\tif SimNow != nil {\n\t\treturn Now().Sub(t)\n\t}\n"},
		{"func Until(t Time) Duration {\n", "func Until(t Time) Duration {\n\tif SimNow != nil {\n\t\treturn t.Sub(Now())\n\t}\n"},
	},
	"time/sleep.go": {
		{"func Sleep(d Duration)\n",
			"func Sleep(d Duration) {\n\tif SimSleep != nil && SimSleep(d) {\n\t\treturn\n\t}\n\trealSleep(d)\n}\n\nfunc realSleep(d Duration)\n"},
	},
	"runtime/time.go": {
		{"//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.realSleep\n"},
	},
	// Signals.
	"os/signal/signal.go": {
		{"		panic(\"os/signal: Notify using nil channel\")\n\t}\n",
			"		panic(\"os/signal: Notify using nil channel\")\n\t}\n\tif SimNotify != nil && SimNotify(c, sig) {\n\t\treturn\n\t}\n"},
		{"func Stop(c chan<- os.Signal) {\n",
			"func Stop(c chan<- os.Signal) {\n\tif SimStop != nil && SimStop(c) {\n\t\treturn\n\t}\n"},
	},
	// Disk and standard streams.
	"syscall/syscall_linux.go": {
		{"func Open(path string, mode int, perm uint32) (fd int, err error) {\n",
			"func Open(path string, mode int, perm uint32) (fd int, err error) {\n\tif SimIO != nil {\n\t\tif fd, err, ok := SimIO.Open(path, mode, perm); ok {\n\t\t\treturn fd, err\n\t\t}\n\t}\n"},
		{"func Unlink(path string) error {\n",
			"func Unlink(path string) error {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Unlink(path); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Rename(oldpath string, newpath string) (err error) {\n",
			"func Rename(oldpath string, newpath string) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Rename(oldpath, newpath); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Link(oldpath string, newpath string) (err error) {\n",
			"func Link(oldpath string, newpath string) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Link(oldpath, newpath); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
	},
	"syscall/syscall_unix.go": {
		{"func Read(fd int, p []byte) (n int, err error) {\n",
			"func Read(fd int, p []byte) (n int, err error) {\n\tif SimIO != nil {\n\t\tif n, err, ok := SimIO.Read(fd, p); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
		{"func Write(fd int, p []byte) (n int, err error) {\n",
			"func Write(fd int, p []byte) (n int, err error) {\n\tif SimIO != nil {\n\t\tif n, err, ok := SimIO.Write(fd, p); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
		{"func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n",
			"func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n\tif SimIO != nil {\n\t\tif n, err, ok := SimIO.Pwrite(fd, p, offset); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
		{"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n",
			"func Pread(fd int, p []byte, offset int64) (n int, err error) {\n\tif SimIO != nil {\n\t\tif n, err, ok := SimIO.Pread(fd, p, offset); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func Close(fd int) (err error) {\n",
			"func Close(fd int) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Close(fd); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Fsync(fd int) (err error) {\n",
			"func Fsync(fd int) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Fsync(fd); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Fdatasync(fd int) (err error) {\n",
			"func Fdatasync(fd int) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Fsync(fd); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Ftruncate(fd int, length int64) (err error) {\n",
			"func Ftruncate(fd int, length int64) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Ftruncate(fd, length); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
		{"func Truncate(path string, length int64) (err error) {\n",
			"func Truncate(path string, length int64) (err error) {\n\tif SimIO != nil {\n\t\tif err, ok := SimIO.Truncate(path, length); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
	},
	// Pools.  Under the race detector an object that one session puts back and
	// another takes out orders everything the two did before and after; with these
	// pools behind every formatted string that would hide nearly all races.
	"fmt/print.go":        {{"\tppFree.Put(p)", "\tsync.SimPut(&ppFree, p)"}},
	"math/big/nat.go":     {{"\tstackPool.Put(s)", "\tsync.SimPut(&stackPool, s)"}},
	"regexp/backtrack.go": {{"\tbitStatePool.Put(b)", "\tsync.SimPut(&bitStatePool, b)"}},
	"regexp/exec.go":      {{"\tonePassPool.Put(m)", "\tsync.SimPut(&onePassPool, m)"}},
	"regexp/regexp.go":    {{"\tmatchPool[re.mpool].Put(m)", "\tsync.SimPut(&matchPool[re.mpool], m)"}},
	"log/log.go":          {{"\tbufferPool.Put(p)", "\tsync.SimPut(&bufferPool, p)"}},
	// Process exit.
	"os/proc.go": {
		{"func Exit(code int) {\n", "func Exit(code int) {\n\tif SimOSExit != nil {\n\t\tSimOSExit(code)\n\t}\n"},
	},
	// Names of temporary files.
	"os/tempfile.go": {
		{"func nextRandom() string {\n", "func nextRandom() string {\n\tif SimRandom != nil {\n\t\treturn strconv.FormatUint(uint64(SimRandom()), 10)\n\t}\n"},
	},
}

var stdNew = map[string]string{
	"runtime/sim_hook.go": `package runtime

import "unsafe"

// SimMapState is the state of the stream behind map seeds and map iteration.
var SimMapState uint64 = 0x1234567

// SimActive (nearly) switches off time-slice preemption and switches on SimExit.
var SimActive bool

// SimExit is called by every exiting goroutine while SimActive.
var SimExit func()

// SimGoid identifies the calling goroutine.
func SimGoid() uint64 { return getg().goid }

// SimParent identifies the goroutine that started the calling one.
func SimParent() uint64 { return getg().parentGoid }

// SimG returns a handle on the calling goroutine for SimGState.
func SimG() unsafe.Pointer { return unsafe.Pointer(getg()) }

// SimGState returns the scheduling status of a goroutine and, if it waits, a
// description of what for.
func SimGState(h unsafe.Pointer) (status uint32, why string) {
	gp := (*g)(h)
	s := readgstatus(gp) &^ _Gscan
	return s, gp.waitreason.String()
}

// SimRunnable counts goroutines queued to run.
func SimRunnable() int {
	n := int(sched.runq.size)
	for _, pp := range allp {
		h := pp.runqhead
		t := pp.runqtail
		n += int(t - h)
		if pp.runnext != 0 {
			n++
		}
	}
	return n
}
`,
	"time/sim_hook.go": `package time

// SimNow returns the simulated wall clock (ns since the epoch) and monotonic
// clock (ns), if the caller belongs to a simulation.
var SimNow func() (wall, mono int64, ok bool)

// SimSleep sleeps in simulated time, if the caller belongs to a simulation.
var SimSleep func(Duration) bool
`,
	"os/signal/sim_hook.go": `package signal

import "os"

var SimNotify func(c chan<- os.Signal, sig []os.Signal) bool
var SimStop func(c chan<- os.Signal) bool
`,
	"sync/sim_hook.go": `package sync

import "internal/race"

// SimPut is p.Put(x), except under the race detector.
func SimPut(p *Pool, x any) {
	if !race.Enabled {
		p.Put(x)
	}
}
`,
	"os/sim_hook.go": `package os

var SimRandom func() uint32

// SimOSExit is told of every call of Exit; it does not return for a simulated task.
var SimOSExit func(code int)
`,
	"syscall/sim_hook.go": `package syscall

import "unsafe"

// SimIO intercepts file operations; ok=false lets the real call proceed.
var SimIO SimIOHook

type SimIOHook interface {
	Open(path string, mode int, perm uint32) (fd int, err error, ok bool)
	Read(fd int, p []byte) (n int, err error, ok bool)
	Write(fd int, p []byte) (n int, err error, ok bool)
	Pread(fd int, p []byte, off int64) (n int, err error, ok bool)
	Pwrite(fd int, p []byte, off int64) (n int, err error, ok bool)
	Close(fd int) (err error, ok bool)
	Fsync(fd int) (err error, ok bool)
	Ftruncate(fd int, n int64) (err error, ok bool)
	Truncate(path string, n int64) (err error, ok bool)
	Rename(a, b string) (err error, ok bool)
	Link(a, b string) (err error, ok bool)
	Unlink(path string) (err error, ok bool)
}

// SimRaw* are the real calls, for the simulator's own use.
func SimRawOpen(path string, mode int, perm uint32) (int, error) {
	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
}
func SimRawWrite(fd int, p []byte) (int, error) { return write(fd, p) }
func SimRawRead(fd int, p []byte) (int, error)  { return read(fd, p) }
func SimRawClose(fd int) error {
	_, _, e := Syscall(SYS_CLOSE, uintptr(fd), 0, 0)
	if e != 0 {
		return e
	}
	return nil
}
func SimRawRename(a, b string) error           { return Renameat(_AT_FDCWD, a, _AT_FDCWD, b) }
func SimRawLink(a, b string) error             { return linkat(_AT_FDCWD, a, _AT_FDCWD, b, 0) }
func SimRawUnlink(a string) error              { return unlinkat(_AT_FDCWD, a, 0) }
func SimRawTruncate(a string, n int64) error {
	p, err := BytePtrFromString(a)
	if err != nil {
		return err
	}
	_, _, e := Syscall(SYS_TRUNCATE, uintptr(unsafe.Pointer(p)), uintptr(n), 0)
	if e != 0 {
		return e
	}
	return nil
}
`,
}

func genStd(goroot, dir string, ov map[string]string) {
	for f, ps := range stdPatches {
		src := filepath.Join(goroot, "src", f)
		b, err := os.ReadFile(src)
		if err != nil {
			die("%v", err)
		}
		s := string(b)
		for _, p := range ps {
			if strings.Count(s, p.old) != 1 {
				die("standard library patch does not apply: %s: %q occurs %d times", f, p.old, strings.Count(s, p.old))
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		dst := filepath.Join(dir, "std", f)
		writeIfChanged(dst, []byte(s))
		ov[src] = dst
	}
	for f, s := range stdNew {
		dst := filepath.Join(dir, "std", f)
		writeIfChanged(dst, []byte(s))
		ov[filepath.Join(goroot, "src", f)] = dst
	}
}
