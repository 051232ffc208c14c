//go:build go1.22

// Package simfs models what a machine's disk holds after a crash, and makes
// chosen disk operations fail.  Files are real files below a scratch folder;
// the model shadows them.
package simfs

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"gitlab.com/thorchain/tss/go-tss/verifsim/simrt"
)

type inode struct {
	dur   []byte // content that survives for certain
	dirty bool
}

type dirop struct {
	kind string // create, rename, unlink, link
	a, b string
	ino  *inode
}

type open struct {
	path string
	ino  *inode
	dir  bool
	wr   bool
}

// Fault says what happens at a disk operation.
type Fault struct {
	Act  string // crash_before, crash_after, crash_mid, enospc, eio, short
	Frac int    // of 1000: how much of a write is done
}

// FS is the disks of all nodes.
type FS struct {
	root    string
	rng     *simrt.RNG
	paths   map[string]*inode
	durable map[string]*inode
	pending map[string][]dirop // per directory
	fds     map[int]*open
	busy    bool
	On      func(node string, op, path string) *Fault // decides the fate of an operation
	Crashed func(node string)                         // a crash fault fired
	Stat    map[string]int
	Loss    int // of 1000: how often un-synced state is lost in a crash
}

// New installs the model.
func New(root string, rng *simrt.RNG) *FS {
	fs := &FS{root: root + "/", rng: rng, paths: map[string]*inode{}, durable: map[string]*inode{}, pending: map[string][]dirop{}, fds: map[int]*open{}, Stat: map[string]int{}, Loss: 700}
	filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			n := &inode{dur: b}
			fs.paths[p], fs.durable[p] = n, n
		}
		return nil
	})
	syscall.SimHook = fs.hook
	return fs
}

func (fs *FS) node(path string) string {
	r := strings.TrimPrefix(path, fs.root)
	if i := strings.IndexByte(r, '/'); i >= 0 {
		return r[:i]
	}
	return r
}

func (fs *FS) hook(op string, fd int, path, path2 string, p []byte, call func() (int, error)) (int, error) {
	if fs.busy || simrt.Label() == 0 {
		return call()
	}
	var o *open
	if op == "write" || op == "fsync" || op == "ftruncate" || op == "close" {
		o = fs.fds[fd]
		if o == nil {
			return call()
		}
		path = o.path
	} else {
		path = abs(path)
		if path2 != "" {
			path2 = abs(path2)
		}
		if !strings.HasPrefix(path, fs.root) {
			return call()
		}
	}
	simrt.Check()
	flags := fd
	mut := op != "open" || flags&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC) != 0
	if op == "close" && !o.wr {
		mut = false
	}
	if op == "open" && !mut {
		fs.Stat["disk.read_open"]++
	}
	var f *Fault
	if mut {
		fs.Stat["disk."+op]++
		if fs.On != nil {
			f = fs.On(fs.node(path), op, path)
		}
	}
	if f != nil {
		fs.Stat["disk.fault."+f.Act]++
		switch f.Act {
		case "crash_before":
			fs.die(path)
		case "enospc", "eio":
			e := error(syscall.ENOSPC)
			if f.Act == "eio" {
				e = syscall.EIO
			}
			if op == "write" && f.Frac > 0 && len(p) > 1 {
				k := len(p) * f.Frac / 1001
				if k > 0 {
					fs.raw(fd, p[:k])
					o.ino.dirty = true
					// the caller sees the short count first, then the error
					return k, e
				}
			}
			if op == "close" {
				call()
				delete(fs.fds, fd)
			}
			return -1, e
		case "short":
			if op == "write" && len(p) > 1 {
				k := 1 + (len(p)-1)*f.Frac/1001
				fs.raw(fd, p[:k])
				o.ino.dirty = true
				return k, nil
			}
		case "crash_mid":
			if op == "write" && len(p) > 1 {
				fs.raw(fd, p[:len(p)*f.Frac/1001])
				o.ino.dirty = true
			}
			fs.die(path)
		}
	}
	n, err := call()
	if err == nil {
		switch op {
		case "open":
			st, e := os.Lstat(path)
			isDir := e == nil && st.IsDir()
			oo := &open{path: path, dir: isDir, wr: flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0}
			if !isDir {
				ino := fs.paths[path]
				if ino == nil {
					ino = &inode{}
					fs.paths[path] = ino
					fs.pend(dirop{"create", path, "", ino})
				}
				if flags&syscall.O_TRUNC != 0 {
					ino.dirty = true
				}
				oo.ino = ino
			}
			fs.fds[n] = oo
		case "write", "ftruncate":
			if o.ino != nil {
				o.ino.dirty = true
			}
		case "fsync":
			if o.dir {
				fs.flush(o.path)
			} else {
				b, _ := fs.read(o.path)
				o.ino.dur, o.ino.dirty = b, false
				// a journalling file system commits the creation of the file with it
				d := filepath.Dir(o.path)
				var rest []dirop
				for _, x := range fs.pending[d] {
					if x.kind == "create" && x.ino == o.ino {
						fs.durable[x.a] = x.ino
					} else {
						rest = append(rest, x)
					}
				}
				fs.pending[d] = rest
			}
		case "close":
			delete(fs.fds, fd)
		case "truncate":
			if ino := fs.paths[path]; ino != nil {
				ino.dirty = true
			}
		case "rename":
			if ino := fs.paths[path]; ino != nil {
				delete(fs.paths, path)
				fs.paths[path2] = ino
				for _, x := range fs.fds {
					if x.path == path {
						x.path = path2
					}
				}
				fs.pend(dirop{"rename", path, path2, ino})
			}
		case "link":
			if ino := fs.paths[path]; ino != nil {
				fs.paths[path2] = ino
				fs.pend(dirop{"link", path, path2, ino})
			}
		case "unlink":
			if ino := fs.paths[path]; ino != nil {
				delete(fs.paths, path)
				fs.pend(dirop{"unlink", path, "", ino})
			}
		}
	}
	if f != nil && f.Act == "crash_after" {
		fs.die(path)
	}
	return n, err
}

func (fs *FS) raw(fd int, p []byte) {
	fs.busy = true
	for len(p) > 0 {
		n, err := syscall.Write(fd, p)
		if err != nil {
			break
		}
		p = p[n:]
	}
	fs.busy = false
}

func (fs *FS) read(p string) ([]byte, error) {
	fs.busy = true
	defer func() { fs.busy = false }()
	return os.ReadFile(p)
}

func (fs *FS) pend(d dirop) {
	k := filepath.Dir(d.a)
	fs.pending[k] = append(fs.pending[k], d)
}

func (fs *FS) apply(d dirop) {
	switch d.kind {
	case "create", "link":
		t := d.a
		if d.kind == "link" {
			t = d.b
		}
		fs.durable[t] = d.ino
	case "rename":
		delete(fs.durable, d.a)
		fs.durable[d.b] = d.ino
	case "unlink":
		delete(fs.durable, d.a)
	}
}

func (fs *FS) flush(dir string) {
	for _, d := range fs.pending[dir] {
		fs.apply(d)
	}
	delete(fs.pending, dir)
}

func (fs *FS) die(path string) {
	if fs.Crashed != nil {
		fs.Crashed(fs.node(path))
	}
	select {}
}

// Crash materialises the durable state of a node's disk below dir.
func (fs *FS) Crash(dir string) {
	fs.busy = true
	defer func() { fs.busy = false }()
	var dirs []string
	for k := range fs.pending {
		if k == dir || strings.HasPrefix(k, dir+"/") {
			dirs = append(dirs, k)
		}
	}
	sort.Strings(dirs)
	lossy := fs.rng.P(fs.Loss, 1000) // power failure rather than a process crash
	fs.Stat["disk.crash"]++
	if lossy {
		fs.Stat["disk.crash_lossy"]++
	}
	for _, k := range dirs {
		ops := fs.pending[k]
		n := len(ops)
		if lossy {
			n = fs.rng.Intn(len(ops) + 1)
		}
		for _, d := range ops[:n] {
			fs.apply(d)
		}
		delete(fs.pending, k)
	}
	// contents: where is each inode currently?
	cur := map[*inode][]byte{}
	var ps []string
	for p := range fs.paths {
		if strings.HasPrefix(p, dir+"/") {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		b, err := os.ReadFile(p)
		if err == nil {
			cur[fs.paths[p]] = b
		}
	}
	var ds []string
	for p := range fs.durable {
		if strings.HasPrefix(p, dir+"/") {
			ds = append(ds, p)
		}
	}
	sort.Strings(ds)
	out := map[string][]byte{}
	for _, p := range ds {
		ino := fs.durable[p]
		b, ok := cur[ino]
		if !ok {
			b = ino.dur
		}
		if ino.dirty && lossy {
			b = fs.survive(ino, b)
		}
		out[p] = b
	}
	for _, p := range ps {
		os.Remove(p)
		delete(fs.paths, p)
	}
	for _, p := range ds {
		os.WriteFile(p, out[p], 0o655)
		n := &inode{dur: out[p]}
		fs.paths[p], fs.durable[p] = n, n
	}
	for fd, o := range fs.fds {
		if strings.HasPrefix(o.path, dir) {
			delete(fs.fds, fd)
		}
	}
}

// survive picks what is left of content that was never synced.
func (fs *FS) survive(ino *inode, cur []byte) []byte {
	switch fs.rng.Intn(5) {
	case 0:
		fs.Stat["disk.lost_old"]++
		return ino.dur // nothing reached the disk
	case 1:
		fs.Stat["disk.lost_empty"]++
		return nil // truncated, no data
	case 2:
		fs.Stat["disk.lost_torn"]++
		return append([]byte{}, cur[:fs.rng.Intn(len(cur)+1)]...)
	case 3: // size is there, the tail's blocks are not
		fs.Stat["disk.lost_zeros"]++
		b := append([]byte{}, cur...)
		if len(b) > 0 {
			for i := fs.rng.Intn(len(b)); i < len(b); i++ {
				b[i] = 0
			}
		}
		return b
	}
	return cur
}

func abs(p string) string {
	if filepath.IsAbs(p) {
		return filepath.Clean(p)
	}
	wd, _ := os.Getwd()
	return filepath.Join(wd, p)
}

// Off removes the model.
func (fs *FS) Off() { syscall.SimHook = nil }
