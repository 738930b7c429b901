package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/corywalker/expreduce/verifsim/simrt"
)

// Disk is the simulated disk of one machine.  Its current contents live in a
// scratch directory (so that every call the code makes really happens); every
// change is also recorded, with what has been made durable, so that the
// contents after a power failure at any point can be reconstructed.
type Disk struct {
	Dir    string
	Faults []Fault
	Fired  map[string]int
	Count  map[string]int64 // operations by kind
	Total  int64            // operations on files
	Muts   int64            // changes, the places where a crash can fall
	Crash  int64            // the machine stops at the Crash-th change (0: never)
	Torn   int64            // -1: the change at which it stops does not happen; else that many bytes of it do
	Down   bool
	Frozen bool // no effect reaches the disk any more
	Full   bool // no space from here on

	ops   []diskOp
	fds   map[int]*openFile
	inoOf map[string]int
	ninos int
	outer []string // attempts to write outside the scratch directory
	Trace []string
}

type openFile struct {
	path string
	ino  int
	off  int64
	app  bool
	dir  bool
}

type diskOp struct {
	kind string // create write trunc rename unlink link fsync dirsync
	ino  int
	path string
	to   string
	off  int64
	data []byte
	n    int64
}

var nDisks int

func newDisk() *Disk {
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() {
		base = ""
	}
	if base == "" {
		base = os.TempDir()
	}
	// The name has the same length in every process: it takes as many steps to
	// read.
	var d string
	for {
		nDisks++
		d = fmt.Sprintf("%s/verif-disk-%010d-%08d", base, os.Getpid(), nDisks)
		err := os.Mkdir(d, 0o700)
		if err == nil {
			break
		}
		if !os.IsExist(err) {
			fatal("%v", err)
		}
	}
	return &Disk{Dir: d, Torn: -1, Fired: map[string]int{}, Count: map[string]int64{}, fds: map[int]*openFile{}, inoOf: map[string]int{}}
}

func (d *Disk) remove() { os.RemoveAll(d.Dir) }

func (d *Disk) inside(path string) bool {
	if !filepath.IsAbs(path) {
		return false
	}
	p := filepath.Clean(path)
	return p == d.Dir || strings.HasPrefix(p, d.Dir+"/")
}

// fault decides whether this operation misbehaves; change says that it alters
// the disk (and so is a place where the machine can stop).
func (d *Disk) fault(kind string, change bool) (Fault, bool) {
	d.Total++
	d.Count[kind]++
	if change {
		d.Muts++
	}
	for _, f := range d.Faults {
		if (f.Op == kind && f.N == d.Count[kind]) || (f.Op == "any" && f.N == d.Total) {
			d.Fired[f.How]++
			return f, true
		}
	}
	if d.Full && (kind == "write" || kind == "creat") {
		d.Fired["disk-full"]++
		return Fault{How: "enospc"}, true
	}
	return Fault{}, false
}

func (d *Disk) crashHere() bool {
	return d.Crash > 0 && d.Muts == d.Crash
}

// stop is the end of the machine: nothing the task does afterwards matters.
func (d *Disk) stop() {
	d.Down = true
	d.Frozen = true
	simrt.Abort()
	simrt.KillCurrent()
}

func errnoOf(how string) error {
	switch how {
	case "enospc":
		return syscall.ENOSPC
	case "eio":
		return syscall.EIO
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "enoent":
		return syscall.ENOENT
	case "eintr":
		return syscall.EINTR
	case "edquot":
		return syscall.EDQUOT
	}
	return syscall.EIO
}

func (d *Disk) ino(path string) int {
	if i, ok := d.inoOf[path]; ok {
		return i
	}
	d.ninos++
	d.inoOf[path] = d.ninos
	return d.ninos
}

func (d *Disk) log(o diskOp) { d.ops = append(d.ops, o) }

func (d *Disk) trace(f string, a ...any) {
	if len(d.Trace) < 200 {
		d.Trace = append(d.Trace, strings.ReplaceAll(fmt.Sprintf(f, a...), d.Dir, ""))
	}
}

func (d *Disk) Open(path string, mode int, perm uint32) (int, error, bool) {
	writes := mode&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	if !d.inside(path) {
		if writes {
			d.outer = append(d.outer, path)
			return -1, syscall.EACCES, true
		}
		return 0, nil, false
	}
	if d.Frozen {
		return -1, syscall.EIO, true
	}
	simrt.Yield()
	path = filepath.Clean(path)
	st, serr := os.Lstat(path)
	exists := serr == nil
	kind := "open"
	change := false
	if writes && mode&syscall.O_CREAT != 0 {
		kind = "creat"
		change = !exists || mode&syscall.O_TRUNC != 0
	}
	f, bad := d.fault(kind, change)
	if bad {
		d.trace("open %s: %s", path, f.How)
		return -1, errnoOf(f.How), true
	}
	if change && d.crashHere() && d.Torn < 0 {
		d.stop()
	}
	fd, err := syscall.SimRawOpen(path, mode, perm)
	d.trace("open %s mode %x: %v", path, mode, err)
	if err != nil {
		return fd, err, true
	}
	isDir := exists && st.IsDir()
	of := &openFile{path: path, dir: isDir, app: mode&syscall.O_APPEND != 0}
	if !isDir {
		if !exists {
			delete(d.inoOf, path)
			of.ino = d.ino(path)
			d.log(diskOp{kind: "create", ino: of.ino, path: path})
		} else {
			of.ino = d.ino(path)
		}
		if exists && mode&syscall.O_TRUNC != 0 && writes {
			d.log(diskOp{kind: "trunc", ino: of.ino, n: 0})
		}
	}
	d.fds[fd] = of
	if change && d.crashHere() {
		d.stop()
	}
	return fd, nil, true
}

func (d *Disk) write(fd int, p []byte, off int64, at bool) (int, error, bool) {
	of := d.fds[fd]
	if of == nil {
		return 0, nil, false
	}
	if d.Frozen {
		return -1, syscall.EIO, true
	}
	simrt.Yield()
	f, bad := d.fault("write", true)
	if bad {
		d.trace("write %s %d: %s", of.path, len(p), f.How)
		if f.How != "short" {
			return -1, errnoOf(f.How), true
		}
		// Part of the data goes through, the rest meets a full disk.
		if len(p) > 1 {
			p = p[:1+int(f.Arg)%(len(p)-1)]
		}
		d.Full = d.Full || f.Arg%2 == 0
	}
	crash := d.crashHere()
	if crash && d.Torn < 0 {
		d.stop()
	}
	if crash && d.Torn < int64(len(p)) {
		p = p[:d.Torn]
	}
	if at {
		if _, err := syscall.Seek(fd, off, 0); err != nil {
			return -1, err, true
		}
	} else {
		off = of.off
		if of.app {
			if st, err := os.Stat(of.path); err == nil {
				off = st.Size()
			}
		}
	}
	n, err := syscall.SimRawWrite(fd, p)
	d.trace("write %s %d@%d: %d %v", of.path, len(p), off, n, err)
	if n > 0 {
		d.log(diskOp{kind: "write", ino: of.ino, off: off, data: append([]byte(nil), p[:n]...)})
		if !at {
			of.off = off + int64(n)
		}
	}
	if at {
		syscall.Seek(fd, of.off, 0)
	}
	if crash {
		d.stop()
	}
	return n, err, true
}

func (d *Disk) Write(fd int, p []byte) (int, error, bool) { return d.write(fd, p, 0, false) }
func (d *Disk) Pwrite(fd int, p []byte, off int64) (int, error, bool) {
	return d.write(fd, p, off, true)
}

func (d *Disk) Read(fd int, p []byte) (int, error, bool) {
	of := d.fds[fd]
	if of == nil {
		return 0, nil, false
	}
	if d.Frozen {
		return -1, syscall.EIO, true
	}
	simrt.Yield()
	f, bad := d.fault("read", false)
	if bad {
		if f.How != "short" {
			d.trace("read %s: %s", of.path, f.How)
			return -1, errnoOf(f.How), true
		}
		if len(p) > 1 {
			p = p[:1+int(f.Arg)%(len(p)-1)]
		}
	}
	n, err := syscall.SimRawRead(fd, p)
	if n > 0 {
		of.off += int64(n)
	}
	d.trace("read %s %d: %d %v", of.path, len(p), n, err)
	return n, err, true
}

func (d *Disk) Close(fd int) (error, bool) {
	of := d.fds[fd]
	if of == nil {
		return nil, false
	}
	delete(d.fds, fd)
	if d.Frozen {
		return nil, false
	}
	f, bad := d.fault("close", false)
	d.trace("close %s %v", of.path, bad)
	if bad && f.How != "short" {
		syscall.SimRawClose(fd)
		return errnoOf(f.How), true
	}
	return syscall.SimRawClose(fd), true
}

func (d *Disk) Fsync(fd int) (error, bool) {
	of := d.fds[fd]
	if of == nil {
		return nil, false
	}
	if d.Frozen {
		return syscall.EIO, true
	}
	simrt.Yield()
	kind := "fsync"
	if of.dir {
		kind = "dirsync"
	}
	f, bad := d.fault(kind, true)
	d.trace("fsync %s %v", of.path, bad)
	if bad {
		return errnoOf(f.How), true
	}
	if d.crashHere() && d.Torn < 0 {
		d.stop()
	}
	if of.dir {
		d.log(diskOp{kind: "dirsync", path: of.path})
	} else {
		d.log(diskOp{kind: "fsync", ino: of.ino})
	}
	if d.crashHere() {
		d.stop()
	}
	return nil, true
}

func (d *Disk) Ftruncate(fd int, n int64) (error, bool) {
	of := d.fds[fd]
	if of == nil {
		return nil, false
	}
	return d.Truncate(of.path, n)
}

func (d *Disk) Truncate(path string, n int64) (error, bool) {
	if !d.inside(path) {
		d.outer = append(d.outer, path)
		return syscall.EACCES, true
	}
	return d.change("trunc", func() error { return syscall.SimRawTruncate(path, n) }, diskOp{kind: "trunc", ino: d.ino(filepath.Clean(path)), n: n})
}

func (d *Disk) change(kind string, do func() error, o diskOp) (error, bool) {
	if d.Frozen {
		return syscall.EIO, true
	}
	simrt.Yield()
	f, bad := d.fault(kind, true)
	d.trace("%s %s %s %v", kind, o.path, o.to, bad)
	if bad {
		return errnoOf(f.How), true
	}
	if d.crashHere() && d.Torn < 0 {
		d.stop()
	}
	err := do()
	if err == nil {
		d.log(o)
	}
	if d.crashHere() {
		d.stop()
	}
	return err, true
}

func (d *Disk) Rename(a, b string) (error, bool) {
	if !d.inside(a) || !d.inside(b) {
		d.outer = append(d.outer, a+" -> "+b)
		return syscall.EACCES, true
	}
	a, b = filepath.Clean(a), filepath.Clean(b)
	i, had := d.inoOf[a]
	return d.change("rename", func() error {
		err := syscall.SimRawRename(a, b)
		if err == nil {
			delete(d.inoOf, a)
			if had {
				d.inoOf[b] = i
			} else {
				delete(d.inoOf, b)
			}
			for _, of := range d.fds {
				if of.path == a {
					of.path = b
				}
			}
		}
		return err
	}, diskOp{kind: "rename", ino: i, path: a, to: b})
}

func (d *Disk) Link(a, b string) (error, bool) {
	if !d.inside(a) || !d.inside(b) {
		d.outer = append(d.outer, a+" -> "+b)
		return syscall.EACCES, true
	}
	a, b = filepath.Clean(a), filepath.Clean(b)
	i := d.ino(a)
	return d.change("link", func() error {
		err := syscall.SimRawLink(a, b)
		if err == nil {
			d.inoOf[b] = i
		}
		return err
	}, diskOp{kind: "link", ino: i, path: a, to: b})
}

func (d *Disk) Unlink(path string) (error, bool) {
	if !d.inside(path) {
		d.outer = append(d.outer, path)
		return syscall.EACCES, true
	}
	path = filepath.Clean(path)
	return d.change("unlink", func() error {
		err := syscall.SimRawUnlink(path)
		if err == nil {
			delete(d.inoOf, path)
		}
		return err
	}, diskOp{kind: "unlink", ino: d.inoOf[path], path: path})
}

// seedFile puts a file there that has been durable for long.
func (d *Disk) seedFile(name string, data []byte) string {
	p := filepath.Join(d.Dir, name)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		fatal("%v", err)
	}
	i := d.ino(p)
	d.log(diskOp{kind: "create", ino: i, path: p})
	d.log(diskOp{kind: "write", ino: i, data: append([]byte(nil), data...)})
	d.log(diskOp{kind: "fsync", ino: i})
	d.log(diskOp{kind: "dirsync", path: d.Dir})
	return p
}

// files is what the disk holds now.
func (d *Disk) files() map[string][]byte {
	out := map[string][]byte{}
	ents, _ := os.ReadDir(d.Dir)
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(d.Dir, e.Name()))
		if err == nil {
			out[e.Name()] = b
		}
	}
	return out
}

// afterPowerLoss draws what the disk holds after the power failed at the end of
// the recorded history.  What was synced survives.  Of the rest, directory
// changes survive up to some point of their order; each write survives, is lost
// or survives in part, independently.
func (d *Disk) afterPowerLoss(r *simrt.Rand) map[string][]byte {
	// Directory operations: a prefix at least up to the last dirsync (an fsync
	// of a new file makes its creation durable too).
	lastDir, lastOp := -1, -1
	for i, o := range d.ops {
		switch o.kind {
		case "dirsync":
			lastDir = i
		case "create", "rename", "unlink", "link":
			lastOp = i
		}
	}
	cut := lastDir
	if lastOp > lastDir {
		var pts []int
		pts = append(pts, lastDir)
		for i := lastDir + 1; i < len(d.ops); i++ {
			switch d.ops[i].kind {
			case "create", "rename", "unlink", "link":
				pts = append(pts, i)
			}
		}
		cut = pts[r.Intn(len(pts))]
	}
	// Inode contents.
	lastSync := map[int]int{}
	for i, o := range d.ops {
		if o.kind == "fsync" {
			lastSync[o.ino] = i
		}
	}
	policy := r.Intn(4) // 0: nothing unsynced survives; 1: everything; else: a draw for each
	data := map[int][]byte{}
	for i, o := range d.ops {
		ls, synced := lastSync[o.ino]
		durable := synced && i <= ls
		live := durable
		torn := -1
		if !durable {
			switch policy {
			case 0:
				live = false
			case 1:
				live = true
			default:
				live = r.Intn(2) == 0
				if len(o.data) > 1 && r.Intn(3) == 0 {
					live, torn = true, r.Intn(len(o.data))
				}
			}
		}
		switch o.kind {
		case "write":
			if !live {
				// The file may have got its length without the data.
				if policy >= 2 && r.Intn(3) == 0 {
					b := data[o.ino]
					for int64(len(b)) < o.off+int64(len(o.data)) {
						b = append(b, 0)
					}
					data[o.ino] = b
				}
				continue
			}
			p := o.data
			if torn >= 0 {
				p = p[:torn]
			}
			b := data[o.ino]
			for int64(len(b)) < o.off+int64(len(p)) {
				b = append(b, 0)
			}
			copy(b[o.off:], p)
			data[o.ino] = b
		case "trunc":
			if !live {
				continue
			}
			b := data[o.ino]
			for int64(len(b)) < o.n {
				b = append(b, 0)
			}
			data[o.ino] = b[:o.n]
		}
	}
	// Names.
	names := map[string]int{}
	for i, o := range d.ops {
		if i > cut {
			break
		}
		switch o.kind {
		case "create":
			names[o.path] = o.ino
		case "rename":
			if j, ok := names[o.path]; ok {
				names[o.to] = j
				delete(names, o.path)
			}
		case "link":
			if j, ok := names[o.path]; ok {
				names[o.to] = j
			}
		case "unlink":
			delete(names, o.path)
		}
	}
	out := map[string][]byte{}
	for p, i := range names {
		out[filepath.Base(p)] = append([]byte{}, data[i]...)
	}
	return out
}

func describeFiles(m map[string][]byte) string {
	var l []string
	for n, b := range m {
		l = append(l, fmt.Sprintf("%s:%d", n, len(b)))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
