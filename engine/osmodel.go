package main

import (
	"go/types"
	"io/fs"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// VFS is the virtual file system of one path.
type VFS struct {
	env   map[string]Value
	dirs  map[string]bool
	files map[string][]Value
	links map[string]string
	log   []string
}

type vfile struct {
	path   string
	write  bool
	pos    int
	closed bool
}

func (w *W) fs() *VFS {
	if w.vfs == nil {
		w.vfs = &VFS{dirs: map[string]bool{"/": true, ".": true, "/verif-scratch": true, "/dev": true}, files: map[string][]Value{"/dev/full": nil, "/dev/null": nil}, links: map[string]string{}, env: map[string]Value{}}
	}
	return w.vfs
}

// path is the cleaned path, with a symbolic link at its end followed
func (w *W) path(v Value) string {
	p := filepath.Clean(w.concStr(v))
	if l, ok := w.fs().links[p]; ok {
		return l
	}
	return p
}

func (w *W) pathErr(op, p, msg string) Iface {
	// the identity of the error only matters to os.IsNotExist and friends
	var v Value = Struct{op + " " + p + ": " + msg}
	return Iface{w.eng.errT, &v}
}

func (w *W) errText(v Value) string {
	i := w.asIface(v)
	if i.t == nil {
		return ""
	}
	if p, ok := i.v.(*Value); ok && p != nil {
		if s, ok := (*p).(Struct); ok && len(s) == 1 {
			if t, ok := s[0].(string); ok {
				return t
			}
		}
	}
	return "?"
}

func initOS() {
	const noent = "no such file or directory"
	fileOf := func(w *W, v Value) *vfile {
		p := w.ptr(v)
		o, ok := (*p).(*Opaque)
		if !ok {
			w.unsupported("os.File")
		}
		f, ok := o.v.(*vfile)
		if !ok {
			w.unsupported("os.File")
		}
		return f
	}
	mk := func(f *vfile) Value {
		var v Value = &Opaque{"file", f}
		return &v
	}
	parentOK := func(w *W, p string) bool { return w.fs().dirs[filepath.Dir(p)] }
	create := func(w *W, p string) (Value, Iface) {
		fs := w.fs()
		if fs.dirs[p] {
			return (*Value)(nil), w.pathErr("open", p, "is a directory")
		}
		if !parentOK(w, p) {
			return (*Value)(nil), w.pathErr("open", p, noent)
		}
		fs.files[p] = []Value{}
		return mk(&vfile{path: p, write: true}), Iface{}
	}
	reg("os.Create", func(w *W, fn *ssa.Function, a []Value) Value {
		f, e := create(w, w.path(a[0]))
		return Tuple{f, e}
	})
	open := func(w *W, p string) (Value, Iface) {
		fs := w.fs()
		if _, ok := fs.files[p]; ok || fs.dirs[p] {
			return mk(&vfile{path: p}), Iface{}
		}
		return (*Value)(nil), w.pathErr("open", p, noent)
	}
	reg("os.Open", func(w *W, fn *ssa.Function, a []Value) Value {
		f, e := open(w, w.path(a[0]))
		return Tuple{f, e}
	})
	reg("os.OpenFile", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		flag := w.concInt(a[1], true)
		_, exists := w.fs().files[p]
		if flag&3 == 0 {
			f, e := open(w, p)
			return Tuple{f, e}
		}
		if exists && flag&0x40 != 0 && flag&0x80 != 0 { // O_CREATE|O_EXCL
			return Tuple{(*Value)(nil), w.pathErr("open", p, "file exists")}
		}
		if !exists {
			if flag&0x40 == 0 {
				return Tuple{(*Value)(nil), w.pathErr("open", p, noent)}
			}
			f, e := create(w, p)
			return Tuple{f, e}
		}
		f := &vfile{path: p, write: true}
		if flag&0x200 != 0 {
			w.fs().files[p] = []Value{}
		}
		if flag&0x400 != 0 {
			f.pos = len(w.fs().files[p])
		}
		return Tuple{mk(f), Iface{}}
	})
	stat := func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		fs := w.fs()
		if _, ok := fs.files[p]; ok || fs.dirs[p] {
			var v Value = &Opaque{"stat", p}
			fi := fn.Pkg.Type("fileStat")
			if fi == nil {
				w.unsupported("os.fileStat")
			}
			return Tuple{Iface{types.NewPointer(fi.Type()), &v}, Iface{}}
		}
		return Tuple{Iface{}, w.pathErr("stat", p, noent)}
	}
	reg("os.Getenv", func(w *W, fn *ssa.Function, a []Value) Value {
		if v, ok := w.fs().env[w.concStr(a[0])]; ok {
			return v
		}
		return ""
	})
	reg("os.Setenv", func(w *W, fn *ssa.Function, a []Value) Value {
		w.fs().env[w.concStr(a[0])] = a[1]
		return Iface{}
	})
	reg("os.Stat", stat)
	reg("os.Lstat", func(w *W, fn *ssa.Function, a []Value) Value {
		if _, ok := w.fs().links[filepath.Clean(w.concStr(a[0]))]; ok {
			w.unsupported("os.Lstat of a link")
		}
		return stat(w, fn, a)
	})
	reg("os.Symlink", func(w *W, fn *ssa.Function, a []Value) Value {
		w.fs().links[filepath.Clean(w.concStr(a[1]))] = filepath.Clean(w.concStr(a[0]))
		return Iface{}
	})
	reg("os.Readlink", func(w *W, fn *ssa.Function, a []Value) Value {
		p := filepath.Clean(w.concStr(a[0]))
		if l, ok := w.fs().links[p]; ok {
			return Tuple{l, Iface{}}
		}
		return Tuple{"", w.pathErr("readlink", p, "invalid argument")}
	})
	st := func(w *W, v Value) string { return (*w.ptr(v)).(*Opaque).v.(string) }
	reg("(*os.fileStat).IsDir", func(w *W, fn *ssa.Function, a []Value) Value { return w.fs().dirs[st(w, a[0])] })
	reg("(*os.fileStat).Name", func(w *W, fn *ssa.Function, a []Value) Value { return filepath.Base(st(w, a[0])) })
	reg("(*os.fileStat).Size", func(w *W, fn *ssa.Function, a []Value) Value { return int64(len(w.fs().files[st(w, a[0])])) })
	is := func(sub ...string) Intrinsic {
		return func(w *W, fn *ssa.Function, a []Value) Value {
			t := w.errText(a[0])
			for _, s := range sub {
				if len(t) >= len(s) && t[len(t)-len(s):] == s {
					return true
				}
			}
			return false
		}
	}
	mode := func(w *W, p string) int64 {
		if w.fs().dirs[p] {
			return int64(fs.ModeDir | 0755)
		}
		return 0644
	}
	reg("(*os.fileStat).Mode", func(w *W, fn *ssa.Function, a []Value) Value { return mode(w, st(w, a[0])) })
	reg("(*os.fileStat).Sys", func(w *W, fn *ssa.Function, a []Value) Value { return Iface{} })
	children := func(w *W, dir string) []string {
		var names []string
		for p := range w.fs().files {
			if filepath.Dir(p) == dir {
				names = append(names, filepath.Base(p))
			}
		}
		for p := range w.fs().dirs {
			if filepath.Dir(p) == dir && p != dir {
				names = append(names, filepath.Base(p))
			}
		}
		for p := range w.fs().links {
			if filepath.Dir(p) == dir {
				w.unsupported("os.ReadDir with a link")
			}
		}
		sort.Strings(names)
		return names
	}
	fileInfo := func(w *W, p string) Iface {
		var v Value = &Opaque{"stat", p}
		return Iface{w.eng.namedPtr("os", "fileStat"), &v}
	}
	readDir := func(entry bool) Intrinsic {
		return func(w *W, fn *ssa.Function, a []Value) Value {
			p := w.path(a[0])
			if _, ok := w.fs().files[p]; ok {
				return Tuple{[]Value(nil), w.pathErr("readdirent", p, "not a directory")}
			}
			if !w.fs().dirs[p] {
				return Tuple{[]Value(nil), w.pathErr("open", p, noent)}
			}
			r := []Value{}
			for _, n := range children(w, p) {
				fi := fileInfo(w, filepath.Join(p, n))
				if entry {
					r = append(r, Iface{w.eng.typ("io/fs", "dirInfo"), Struct{fi}})
				} else {
					r = append(r, fi)
				}
			}
			return Tuple{r, Iface{}}
		}
	}
	reg("os.ReadDir", readDir(true))
	reg("io/ioutil.ReadDir", readDir(false))
	temp := func(w *W, dir, pat Value) string {
		d, p := w.concStr(dir), w.concStr(pat)
		if d == "" {
			d = "/tmp"
		}
		for i := 0; ; i++ {
			n := p + strconv.Itoa(1000+i)
			if j := strings.LastIndexByte(p, '*'); j >= 0 {
				n = p[:j] + strconv.Itoa(1000+i) + p[j+1:]
			}
			n = filepath.Join(d, n)
			if _, ok := w.fs().files[n]; !ok && !w.fs().dirs[n] {
				return n
			}
		}
	}
	createTemp := func(w *W, fn *ssa.Function, a []Value) Value {
		f, e := create(w, temp(w, a[0], a[1]))
		return Tuple{f, e}
	}
	mkdirTemp := func(w *W, fn *ssa.Function, a []Value) Value {
		p := temp(w, a[0], a[1])
		if !parentOK(w, p) {
			return Tuple{"", w.pathErr("mkdir", p, noent)}
		}
		w.fs().dirs[p] = true
		return Tuple{p, Iface{}}
	}
	reg("os.CreateTemp", createTemp)
	reg("io/ioutil.TempFile", createTemp)
	reg("os.MkdirTemp", mkdirTemp)
	reg("io/ioutil.TempDir", mkdirTemp)
	reg("os.RemoveAll", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		in := func(q string) bool { return q == p || strings.HasPrefix(q, p+"/") }
		for q := range w.fs().files {
			if in(q) {
				delete(w.fs().files, q)
			}
		}
		for q := range w.fs().dirs {
			if in(q) {
				delete(w.fs().dirs, q)
			}
		}
		for q := range w.fs().links {
			if in(q) {
				delete(w.fs().links, q)
			}
		}
		return Iface{}
	})
	reg("os.LookupEnv", func(w *W, fn *ssa.Function, a []Value) Value {
		v, ok := w.fs().env[w.concStr(a[0])]
		if !ok {
			v = ""
		}
		return Tuple{v, ok}
	})
	reg("os.UserHomeDir", func(w *W, fn *ssa.Function, a []Value) Value {
		v, ok := w.fs().env["HOME"]
		if !ok || w.concStr(v) == "" {
			return Tuple{"", w.mkErr("$HOME is not defined")}
		}
		return Tuple{v, Iface{}}
	})
	reg("os.Chmod", func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		if _, ok := w.fs().files[p]; !ok && !w.fs().dirs[p] {
			return w.pathErr("chmod", p, noent)
		}
		return Iface{}
	})
	reg("(*os.File).Chmod", func(w *W, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Stat", func(w *W, fn *ssa.Function, a []Value) Value {
		return Tuple{fileInfo(w, fileOf(w, a[0]).path), Iface{}}
	})
	reg("os.IsNotExist", is(noent))
	reg("os.IsExist", is("file exists"))
	reg("os.IsPermission", is("permission denied"))
	mkdir := func(all bool) Intrinsic {
		return func(w *W, fn *ssa.Function, a []Value) Value {
			p := w.path(a[0])
			fs := w.fs()
			if _, ok := fs.files[p]; ok {
				return w.pathErr("mkdir", p, "not a directory")
			}
			if fs.dirs[p] {
				if all {
					return Iface{}
				}
				return w.pathErr("mkdir", p, "file exists")
			}
			if !all && !parentOK(w, p) {
				return w.pathErr("mkdir", p, noent)
			}
			for q := p; !fs.dirs[q]; q = filepath.Dir(q) {
				if _, ok := fs.files[q]; ok {
					return w.pathErr("mkdir", p, "not a directory")
				}
				fs.dirs[q] = true
			}
			return Iface{}
		}
	}
	reg("os.MkdirAll", mkdir(true))
	reg("os.Mkdir", mkdir(false))
	rm := func(w *W, fn *ssa.Function, a []Value) Value {
		p := filepath.Clean(w.concStr(a[0]))
		if _, ok := w.fs().links[p]; ok {
			delete(w.fs().links, p)
			return Iface{}
		}
		if _, ok := w.fs().files[p]; !ok {
			return w.pathErr("remove", p, noent)
		}
		delete(w.fs().files, p)
		return Iface{}
	}
	reg("os.Remove", rm)
	reg("os.Rename", func(w *W, fn *ssa.Function, a []Value) Value {
		p, q := w.path(a[0]), filepath.Clean(w.concStr(a[1]))
		b, ok := w.fs().files[p]
		if !ok || !parentOK(w, q) {
			return w.pathErr("rename", p, noent)
		}
		delete(w.fs().files, p)
		delete(w.fs().links, q)
		w.fs().files[q] = b
		return Iface{}
	})
	reg("(*os.File).Readdirnames", func(w *W, fn *ssa.Function, a []Value) Value {
		f := fileOf(w, a[0])
		if w.concInt(a[1], true) > 0 {
			w.unsupported("os.File.Readdirnames of a part")
		}
		if !w.fs().dirs[f.path] {
			return Tuple{[]Value(nil), w.pathErr("readdirent", f.path, "not a directory")}
		}
		var names []string
		for p := range w.fs().files {
			if filepath.Dir(p) == f.path {
				names = append(names, filepath.Base(p))
			}
		}
		for p := range w.fs().dirs {
			if filepath.Dir(p) == f.path && p != f.path {
				names = append(names, filepath.Base(p))
			}
		}
		for p := range w.fs().links {
			if filepath.Dir(p) == f.path {
				names = append(names, filepath.Base(p))
			}
		}
		sort.Strings(names)
		r := make([]Value, len(names))
		for i, n := range names {
			r[i] = n
		}
		return Tuple{r, Iface{}}
	})
	readFile := func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		if b, ok := w.fs().files[p]; ok {
			return Tuple{append([]Value{}, b...), Iface{}}
		}
		return Tuple{[]Value(nil), w.pathErr("open", p, noent)}
	}
	writeFile := func(w *W, fn *ssa.Function, a []Value) Value {
		p := w.path(a[0])
		fs := w.fs()
		if fs.dirs[p] {
			return w.pathErr("open", p, "is a directory")
		}
		if !parentOK(w, p) {
			return w.pathErr("open", p, noent)
		}
		if p == "/dev/full" && len(a[1].([]Value)) > 0 {
			return w.pathErr("write", p, "no space left on device")
		}
		fs.files[p] = append([]Value{}, a[1].([]Value)...)
		return Iface{}
	}
	for _, pk := range []string{"os.", "io/ioutil."} {
		reg(pk+"ReadFile", readFile)
		reg(pk+"WriteFile", writeFile)
	}
	wr := func(w *W, v Value, b []Value) Value {
		f := fileOf(w, v)
		if f.closed || !f.write {
			return Tuple{int64(0), w.pathErr("write", f.path, "bad file descriptor")}
		}
		if f.path == "/dev/full" && len(b) > 0 {
			return Tuple{int64(0), w.pathErr("write", f.path, "no space left on device")}
		}
		d := w.fs().files[f.path]
		if f.pos < len(d) {
			n := append([]Value{}, d[:f.pos]...)
			n = append(n, b...)
			if len(n) < len(d) {
				n = append(n, d[len(n):]...)
			}
			d = n
		} else {
			d = append(append([]Value{}, d...), b...)
		}
		f.pos += len(b)
		w.fs().files[f.path] = d
		return Tuple{int64(len(b)), Iface{}}
	}
	reg("(*os.File).Write", func(w *W, fn *ssa.Function, a []Value) Value { return wr(w, a[0], a[1].([]Value)) })
	reg("(*os.File).WriteString", func(w *W, fn *ssa.Function, a []Value) Value { return wr(w, a[0], w.strBytes(a[1])) })
	reg("(*os.File).Read", func(w *W, fn *ssa.Function, a []Value) Value {
		f := fileOf(w, a[0])
		d := w.fs().files[f.path]
		dst := a[1].([]Value)
		if f.pos >= len(d) {
			return Tuple{int64(0), w.load(w.global(w.eng.global("io", "EOF")))}
		}
		n := copy(dst, d[f.pos:])
		f.pos += n
		return Tuple{int64(n), Iface{}}
	})
	reg("(*os.File).Close", func(w *W, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Value); ok && p == nil {
			return w.mkErr("invalid argument")
		}
		fileOf(w, a[0]).closed = true
		return Iface{}
	})
	reg("(*os.File).Sync", func(w *W, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Name", func(w *W, fn *ssa.Function, a []Value) Value { return fileOf(w, a[0]).path })
	reg("os.Getwd", func(w *W, fn *ssa.Function, a []Value) Value { return Tuple{"/verif-scratch", Iface{}} })
	reg("os.Exit", func(w *W, fn *ssa.Function, a []Value) Value {
		w.throw(Iface{tstr(), "os.Exit called"})
		return nil
	})
	// bufio.Writer on top of anything is executed from source
}
