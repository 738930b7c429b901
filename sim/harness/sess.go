package main

import (
	"fmt"
	"io"
	"runtime"
	"strings"
	"syscall"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"
	"github.com/corywalker/expreduce/verifsim/simrt"
)

// Lane is what one simulated client sees: its session, the two standard
// streams and the disk.
type Lane struct {
	ID   int
	Es   *expreduce.EvalState
	Out  []byte // standard output
	Err  []byte // standard error
	Log  []string
	Disk *Disk
	Strm *Streams
	// Quiet drops what is printed (race-detector runs).
	Quiet bool
	// In is standard input; OnOut is told of what is written to standard output.
	In    *Input
	OnOut func()
}

// hook routes the file operations of simulated tasks to their lane.
type hook struct{}

//go:norace
func lane() *Lane {
	t := simrt.Cur()
	if t == nil {
		return nil
	}
	l, _ := t.Data.(*Lane)
	return l
}

// Streams injects faults into standard output and standard error.
type Streams struct {
	N      int64
	Only   int // the one stream with faults, if not 0
	Faults []Fault
	Fired  map[string]int
}

func (s *Streams) write(l *Lane, fd int, p []byte) (int, error) {
	s.N++
	for _, f := range s.Faults {
		if f.N == s.N && (s.Only == 0 || s.Only == fd) {
			s.Fired[f.How]++
			switch f.How {
			case "eintr":
				return -1, syscall.EINTR
			case "eio":
				return -1, syscall.EIO
			case "enospc":
				return -1, syscall.ENOSPC
			case "short":
				n := int(f.Arg) % (len(p) + 1)
				if n == 0 && len(p) > 0 {
					n = 1
				}
				p = p[:n]
			}
		}
	}
	if fd == 1 {
		l.Out = append(l.Out, p...)
	} else {
		l.Err = append(l.Err, p...)
	}
	return len(p), nil
}

//go:norace
func (hook) Write(fd int, p []byte) (int, error, bool) {
	l := lane()
	if l == nil {
		return 0, nil, false
	}
	if fd == 1 || fd == 2 {
		if l.Quiet {
			return len(p), nil, true
		}
		if l.OnOut != nil && fd == 1 {
			defer l.OnOut()
		}
		if l.Strm != nil {
			n, err := l.Strm.write(l, fd, p)
			return n, err, true
		}
		if fd == 1 {
			l.Out = append(l.Out, p...)
		} else {
			l.Err = append(l.Err, p...)
		}
		return len(p), nil, true
	}
	if l.Disk != nil {
		return l.Disk.Write(fd, p)
	}
	return 0, nil, false
}

//go:norace
func (hook) Open(path string, mode int, perm uint32) (int, error, bool) {
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Open(path, mode, perm)
	} else if l != nil && mode&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		return -1, syscall.EROFS, true // no simulated disk: nothing may be written
	}
	return 0, nil, false
}

//go:norace
func (hook) Read(fd int, p []byte) (int, error, bool) {
	if l := lane(); l != nil && l.In != nil && fd == 0 {
		n, err := l.In.read(p)
		return n, err, true
	}
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Read(fd, p)
	}
	return 0, nil, false
}

func (hook) Pread(fd int, p []byte, off int64) (int, error, bool) { return 0, nil, false }

//go:norace
func (hook) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Pwrite(fd, p, off)
	}
	return 0, nil, false
}

//go:norace
func (hook) Close(fd int) (error, bool) {
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Close(fd)
	}
	return nil, false
}

//go:norace
func (hook) Fsync(fd int) (error, bool) {
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Fsync(fd)
	}
	return nil, false
}

//go:norace
func (hook) Ftruncate(fd int, n int64) (error, bool) {
	if l := lane(); l != nil && l.Disk != nil {
		return l.Disk.Ftruncate(fd, n)
	}
	return nil, false
}

//go:norace
func (hook) Truncate(path string, n int64) (error, bool) {
	if l := lane(); l != nil {
		if l.Disk != nil {
			return l.Disk.Truncate(path, n)
		}
		return syscall.EROFS, true
	}
	return nil, false
}

//go:norace
func (hook) Rename(a, b string) (error, bool) {
	if l := lane(); l != nil {
		if l.Disk != nil {
			return l.Disk.Rename(a, b)
		}
		return syscall.EROFS, true
	}
	return nil, false
}

//go:norace
func (hook) Link(a, b string) (error, bool) {
	if l := lane(); l != nil {
		if l.Disk != nil {
			return l.Disk.Link(a, b)
		}
		return syscall.EROFS, true
	}
	return nil, false
}

//go:norace
func (hook) Unlink(path string) (error, bool) {
	if l := lane(); l != nil {
		if l.Disk != nil {
			return l.Disk.Unlink(path)
		}
		return syscall.EROFS, true
	}
	return nil, false
}

func init() { syscall.SimIO = hook{} }

func newSession() *expreduce.EvalState { return expreduce.NewEvalState() }

// guard runs f and reports a panic of the code under test as text.
func guard(f func() string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "PANIC " + clip(fmt.Sprint(r), 200) + " at " + panicSite()
		}
	}()
	return f()
}

func panicSite() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "corywalker/expreduce/") && !strings.Contains(f.Function, "verifsim") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

func fullForm(es *expreduce.EvalState, e expreduceapi.Ex) string {
	return e.StringForm(expreduceapi.ToStringParams{
		Form: "FullForm", Context: atoms.NewString("NoContext`"), ContextPath: atoms.NewExpression([]expreduceapi.Ex{atoms.NewSymbol("System`List")}), Esi: es,
	})
}

// raw evaluates the way EasyRun does: no In and Out.
func (l *Lane) raw(in string) string {
	return guard(func() string { return expreduce.EasyRun(in, l.Es) })
}

// begin is what the read-eval-print loop does between reading and evaluating.
func (l *Lane) begin() { l.Es.EndInterrupt() }

// top evaluates one line of input the way the read-eval-print loop does.
func (l *Lane) top(in string) string {
	return guard(func() string {
		e := parser.Interp(in, l.Es)
		res := l.Es.Eval(e)
		res = l.Es.ProcessTopLevelResult(e, res)
		return res.StringForm(expreduce.ActualStringFormArgsFull("InputForm", l.Es))
	})
}

// takeOut returns and clears the captured output.
func (l *Lane) takeOut() string {
	s := string(l.Out)
	if len(l.Err) > 0 {
		s += "|stderr|" + string(l.Err)
	}
	l.Out, l.Err = l.Out[:0], l.Err[:0]
	return s
}

var _ = io.EOF
