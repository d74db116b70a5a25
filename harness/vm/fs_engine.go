//go:build !vreplay
// +build !vreplay

package vm

import (
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"
	"time"
)

type node struct {
	kind  int
	data  []byte
	mode  os.FileMode
	names []string
	subs  []*node
	link  string
}

type vfile struct {
	n      *node
	name   string
	pos    int
	flag   int
	closed bool
	out    bool
	in     bool
	dirpos int
}

var (
	root                     = &node{kind: KindDir, mode: 0755, names: []string{"tmp", "bin"}, subs: []*node{{kind: KindDir, mode: 0777}, {kind: KindDir, mode: 0755}}}
	files                    = map[*os.File]*vfile{}
	onOp                     func(op, path string) error
	inOp                     bool
	stdout                   []byte
	stdin                    []byte
	exe                      = "/bin/1pass"
	opened                   []string
	stdoutF, stdinF, stderrF *os.File
)

//verif:global os.Args
func gArgs() []string { return []string{"1pass"} }

//verif:global os.Stdout
func gStdout() *os.File {
	if stdoutF == nil {
		stdoutF = &os.File{}
		files[stdoutF] = &vfile{out: true, name: "/dev/stdout"}
	}
	return stdoutF
}

//verif:global os.Stderr
func gStderr() *os.File {
	if stderrF == nil {
		stderrF = &os.File{}
		files[stderrF] = &vfile{in: true, out: true, name: "/dev/stderr"}
	}
	return stderrF
}

//verif:global os.Stdin
func gStdin() *os.File {
	if stdinF == nil {
		stdinF = &os.File{}
		files[stdinF] = &vfile{in: true, name: "/dev/stdin"}
	}
	return stdinF
}

//verif:global os.ErrInvalid
func gErrInvalid() error { return fs.ErrInvalid }

//verif:global os.ErrPermission
func gErrPermission() error { return fs.ErrPermission }

//verif:global os.ErrExist
func gErrExist() error { return fs.ErrExist }

//verif:global os.ErrNotExist
func gErrNotExist() error { return fs.ErrNotExist }

//verif:global os.ErrClosed
func gErrClosed() error { return fs.ErrClosed }

func fire(op, path string) error {
	if onOp == nil || inOp {
		return nil
	}
	inOp = true
	err := onOp(op, path)
	inOp = false
	if err != nil {
		return &os.PathError{Op: op, Path: path, Err: err}
	}
	return nil
}

func closedErr(op, path string) error { return &os.PathError{Op: op, Path: path, Err: fs.ErrClosed} }

func perr(op, path string, e syscall.Errno) error { return &os.PathError{Op: op, Path: path, Err: e} }

func split(path string) []string {
	var parts []string
	cur := 0
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			if i > cur {
				parts = append(parts, path[cur:i])
			}
			cur = i + 1
		}
	}
	if cur < len(path) {
		parts = append(parts, path[cur:])
	}
	return parts
}

func (n *node) child(name string) int {
	for i, s := range n.names {
		if s == name {
			return i
		}
	}
	return -1
}

// walk resolves path; it returns the parent directory, the last component and the node (nil
// when only the last component is missing).
func walk(path string, follow bool, depth int) (dir *node, last string, n *node, e syscall.Errno) {
	if path == "" {
		return nil, "", nil, syscall.ENOENT
	}
	if depth > 8 {
		return nil, "", nil, syscall.ELOOP
	}
	cur := root
	stack := []*node{root}
	parts := split(path)
	trail := len(path) > 0 && path[len(path)-1] == '/'
	for i, p := range parts {
		if cur.kind != KindDir {
			return nil, "", nil, syscall.ENOTDIR
		}
		if p == "." {
			if i == len(parts)-1 {
				return cur, ".", cur, 0
			}
			continue
		}
		if p == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			cur = stack[len(stack)-1]
			if i == len(parts)-1 {
				return cur, ".", cur, 0
			}
			continue
		}
		if len(p) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		for j := 0; j < len(p); j++ {
			if p[j] == 0 {
				return nil, "", nil, syscall.EINVAL
			}
		}
		k := cur.child(p)
		if k < 0 {
			if i == len(parts)-1 {
				if trail {
					return nil, "", nil, syscall.ENOENT
				}
				return cur, p, nil, 0
			}
			return nil, "", nil, syscall.ENOENT
		}
		nx := cur.subs[k]
		lastOne := i == len(parts)-1
		if nx.kind == KindLink && (!lastOne || follow) {
			rest := strings.Join(parts[i+1:], "/")
			t := nx.link
			if len(t) == 0 || t[0] != '/' {
				pre := "/" + strings.Join(parts[:i], "/") + "/"
				t = pre + t
			}
			if rest != "" {
				t += "/" + rest
			}
			return walk(t, follow, depth+1)
		}
		if lastOne {
			if trail && nx.kind != KindDir {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, p, nx, 0
		}
		cur = nx
		stack = append(stack, nx)
	}
	return cur, ".", cur, 0
}

func get(path string) *node {
	_, _, n, e := walk(path, true, 0)
	if e != 0 {
		return nil
	}
	return n
}

func (d *node) set(name string, n *node) {
	if k := d.child(name); k >= 0 {
		d.subs[k] = n
		return
	}
	d.names = append(d.names, name)
	d.subs = append(d.subs, n)
}

func (d *node) del(name string) {
	k := d.child(name)
	if k < 0 {
		return
	}
	var ns []string
	var ss []*node
	for i := range d.names {
		if i != k {
			ns = append(ns, d.names[i])
			ss = append(ss, d.subs[i])
		}
	}
	d.names, d.subs = ns, ss
}

type info struct {
	name string
	n    *node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.n.data)) }
func (i *info) Mode() os.FileMode {
	switch i.n.kind {
	case KindDir:
		return os.ModeDir | i.n.mode
	case KindLink:
		return os.ModeSymlink | i.n.mode
	}
	return i.n.mode
}
func (i *info) ModTime() time.Time         { return time.Time{} }
func (i *info) IsDir() bool                { return i.n.kind == KindDir }
func (i *info) Sys() interface{}           { return nil }
func (i *info) Type() os.FileMode          { return i.Mode() & os.ModeType }
func (i *info) Info() (os.FileInfo, error) { return i, nil }

func base(path string) string {
	p := split(path)
	if len(p) == 0 {
		return "/"
	}
	return p[len(p)-1]
}

//verif:for os.Stat
func osStat(path string) (os.FileInfo, error) {
	_, _, n, e := walk(path, true, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return nil, perr("stat", path, e)
	}
	return &info{base(path), n}, nil
}

//verif:for os.Lstat
func osLstat(path string) (os.FileInfo, error) {
	_, _, n, e := walk(path, false, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return nil, perr("lstat", path, e)
	}
	return &info{base(path), n}, nil
}

//verif:for os.OpenFile
func osOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	if flag != os.O_RDONLY {
		if err := fire("open", path); err != nil {
			return nil, err
		}
	}
	opened = append(opened, path)
	d, last, n, e := walk(path, true, 0)
	if e != 0 {
		return nil, perr("open", path, e)
	}
	acc := flag & (os.O_WRONLY | os.O_RDWR)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", path, syscall.ENOENT)
		}
		n = &node{kind: KindFile, mode: perm.Perm() &^ 022}
		d.set(last, n)
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", path, syscall.EEXIST)
		}
		if n.kind == KindDir && acc != 0 {
			return nil, perr("open", path, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 && acc != 0 {
			n.data = nil
		}
	}
	f := &os.File{}
	files[f] = &vfile{n: n, name: path, flag: flag}
	return f, nil
}

//verif:for os.Open
func osOpen(path string) (*os.File, error) { return osOpenFile(path, os.O_RDONLY, 0) }

//verif:for os.Create
func osCreate(path string) (*os.File, error) {
	return osOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

//verif:for os.ReadFile
func osReadFile(path string) ([]byte, error) {
	f, err := osOpenFile(path, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	v := files[f]
	v.closed = true
	if v.n.kind == KindDir {
		return nil, perr("read", path, syscall.EISDIR)
	}
	out := make([]byte, len(v.n.data))
	copy(out, v.n.data)
	return out, nil
}

//verif:for os.WriteFile
func osWriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fWrite(f, data)
	files[f].closed = true
	return err
}

func dirEntries(n *node) []*info {
	var out []*info
	for i := range n.names {
		x := &info{n.names[i], n.subs[i]}
		k := len(out)
		out = append(out, x)
		for k > 0 && out[k].name < out[k-1].name {
			out[k], out[k-1] = out[k-1], out[k]
			k--
		}
	}
	return out
}

//verif:for os.ReadDir
func osReadDir(path string) ([]os.DirEntry, error) {
	f, err := osOpen(path)
	if err != nil {
		return nil, err
	}
	n := files[f].n
	if n.kind != KindDir {
		return nil, perr("readdirent", path, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, x := range dirEntries(n) {
		out = append(out, x)
	}
	return out, nil
}

//verif:for (*os.File).Readdirnames
func fReaddirnames(f *os.File, k int) ([]string, error) {
	v := files[f]
	if v == nil || v.n == nil || v.n.kind != KindDir {
		return nil, perr("readdirent", "", syscall.ENOTDIR)
	}
	var out []string
	for _, x := range dirEntries(v.n)[v.dirpos:] {
		if k > 0 && len(out) == k {
			break
		}
		out = append(out, x.name)
		v.dirpos++
	}
	if k > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

//verif:for (*os.File).Readdir
func fReaddir(f *os.File, k int) ([]os.FileInfo, error) {
	v := files[f]
	if v == nil || v.n == nil || v.n.kind != KindDir {
		return nil, perr("readdirent", "", syscall.ENOTDIR)
	}
	var out []os.FileInfo
	for _, x := range dirEntries(v.n)[v.dirpos:] {
		if k > 0 && len(out) == k {
			break
		}
		out = append(out, x)
		v.dirpos++
	}
	if k > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

//verif:for (*os.File).ReadDir
func fReadDir(f *os.File, k int) ([]os.DirEntry, error) {
	v := files[f]
	if v == nil || v.n == nil || v.n.kind != KindDir {
		return nil, perr("readdirent", "", syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, x := range dirEntries(v.n)[v.dirpos:] {
		if k > 0 && len(out) == k {
			break
		}
		out = append(out, x)
		v.dirpos++
	}
	if k > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	return out, nil
}

//verif:for os.Mkdir
func osMkdir(path string, perm os.FileMode) error {
	if err := fire("mkdir", path); err != nil {
		return err
	}
	d, last, n, e := walk(path, false, 0)
	if e != 0 {
		return perr("mkdir", path, e)
	}
	if n != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	d.set(last, &node{kind: KindDir, mode: perm.Perm() &^ 022})
	return nil
}

//verif:for os.MkdirAll
func osMkdirAll(path string, perm os.FileMode) error {
	parts := split(path)
	cur := ""
	if len(path) == 0 {
		return perr("mkdir", path, syscall.ENOENT)
	}
	for _, p := range parts {
		cur += "/" + p
		n := get(cur)
		if n != nil {
			if n.kind != KindDir {
				return perr("mkdir", cur, syscall.ENOTDIR)
			}
			continue
		}
		if err := osMkdir(cur, perm); err != nil {
			return err
		}
	}
	return nil
}

//verif:for os.Remove
func osRemove(path string) error {
	if err := fire("remove", path); err != nil {
		return err
	}
	d, last, n, e := walk(path, false, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && n.kind == KindDir && len(n.names) > 0 {
		e = syscall.ENOTEMPTY
	}
	if e != 0 {
		return perr("remove", path, e)
	}
	d.del(last)
	return nil
}

//verif:for os.RemoveAll
func osRemoveAll(path string) error {
	if path == "" {
		return nil
	}
	if err := fire("removeall", path); err != nil {
		return err
	}
	d, last, n, e := walk(path, false, 0)
	if e == syscall.ENOENT || e == syscall.ENOTDIR || n == nil && e == 0 {
		return nil
	}
	if e != 0 {
		return perr("unlinkat", path, e)
	}
	d.del(last)
	return nil
}

//verif:for os.Rename
func osRename(a, b string) error {
	if err := fire("rename", b); err != nil {
		return err
	}
	d1, l1, n1, e := walk(a, false, 0)
	if e == 0 && n1 == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	d2, l2, n2, e := walk(b, false, 0)
	if e != 0 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: e}
	}
	if n2 != nil {
		if n2.kind == KindDir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
		}
		if n1.kind == KindDir {
			return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOTDIR}
		}
	}
	if n1 == n2 {
		return nil
	}
	d2.set(l2, n1)
	d1.del(l1)
	return nil
}

//verif:for os.Link
func osLink(a, b string) error {
	if err := fire("link", b); err != nil {
		return err
	}
	_, _, n1, e := walk(a, false, 0)
	if e == 0 && n1 == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	d2, l2, n2, e := walk(b, false, 0)
	if e == 0 && n2 != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	d2.set(l2, n1)
	return nil
}

//verif:for os.Symlink
func osSymlink(a, b string) error {
	if err := fire("symlink", b); err != nil {
		return err
	}
	d2, l2, n2, e := walk(b, false, 0)
	if e == 0 && n2 != nil {
		e = syscall.EEXIST
	}
	if e != 0 {
		return &os.LinkError{Op: "symlink", Old: a, New: b, Err: e}
	}
	d2.set(l2, &node{kind: KindLink, mode: 0777, link: a})
	return nil
}

//verif:for os.Readlink
func osReadlink(a string) (string, error) {
	_, _, n, e := walk(a, false, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e == 0 && n.kind != KindLink {
		e = syscall.EINVAL
	}
	if e != 0 {
		return "", perr("readlink", a, e)
	}
	return n.link, nil
}

//verif:for os.Chmod
func osChmod(path string, m os.FileMode) error {
	if err := fire("chmod", path); err != nil {
		return err
	}
	_, _, n, e := walk(path, true, 0)
	if e == 0 && n == nil {
		e = syscall.ENOENT
	}
	if e != 0 {
		return perr("chmod", path, e)
	}
	n.mode = m.Perm()
	return nil
}

//verif:for os.Chtimes
func osChtimes(path string, a, b time.Time) error { return nil }

//verif:for os.Truncate
func osTruncate(path string, size int64) error {
	if err := fire("truncate", path); err != nil {
		return err
	}
	n := get(path)
	if n == nil {
		return perr("truncate", path, syscall.ENOENT)
	}
	n.trunc(int(size))
	return nil
}

func (n *node) trunc(k int) {
	b := make([]byte, k)
	copy(b, n.data)
	n.data = b
}

//verif:for os.Executable
func osExecutable() (string, error) { return exe, nil }

//verif:for os.UserHomeDir
func osUserHomeDir() (string, error) { return osGetenv("HOME"), nil }

var envs = map[string]string{}

//verif:for os.Setenv
func osSetenv(k, v string) error { envs[k] = v; return nil }

//verif:for os.Unsetenv
func osUnsetenv(k string) error { envs[k] = ""; return nil }

//verif:for os.Getenv
func osGetenv(k string) string {
	if v, ok := envs[k]; ok {
		return v
	}
	switch k {
	case "HOME":
		return "/home/user"
	case "TERM":
		return "xterm"
	}
	return ""
}

//verif:for os.LookupEnv
func osLookupEnv(k string) (string, bool) {
	v := osGetenv(k)
	return v, v != ""
}

//verif:for os.Getwd
func osGetwd() (string, error) { return "/", nil }

//verif:for os.TempDir
func osTempDir() string { return "/tmp" }

var tmpN int

func tmpName(dir, pat string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	s := string(rune('0'+tmpN%10)) + "77"
	if i := strings.LastIndex(pat, "*"); i >= 0 {
		return dir + "/" + pat[:i] + s + pat[i+1:]
	}
	return dir + "/" + pat + s
}

//verif:for os.MkdirTemp io/ioutil.TempDir
func osMkdirTemp(dir, pat string) (string, error) {
	n := tmpName(dir, pat)
	return n, osMkdir(n, 0700)
}

//verif:for os.CreateTemp io/ioutil.TempFile
func osCreateTemp(dir, pat string) (*os.File, error) {
	return osOpenFile(tmpName(dir, pat), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

//verif:for (*os.File).Read
func fRead(f *os.File, b []byte) (int, error) {
	v := files[f]
	if v == nil {
		return 0, os.ErrInvalid
	}
	if v.closed {
		return 0, closedErr("read", v.name)
	}
	if v.in {
		if len(b) == 0 {
			return 0, nil
		}
		if len(stdin) == 0 {
			return 0, io.EOF
		}
		n := copy(b, stdin)
		stdin = stdin[n:]
		return n, nil
	}
	if v.closed {
		return 0, perr("read", v.name, syscall.EBADF)
	}
	if v.n.kind == KindDir {
		return 0, perr("read", v.name, syscall.EISDIR)
	}
	if v.flag&os.O_WRONLY != 0 {
		return 0, perr("read", v.name, syscall.EBADF)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if v.pos >= len(v.n.data) {
		return 0, io.EOF
	}
	n := copy(b, v.n.data[v.pos:])
	v.pos += n
	return n, nil
}

//verif:for (*os.File).ReadAt
func fReadAt(f *os.File, b []byte, off int64) (int, error) {
	v := files[f]
	if int(off) >= len(v.n.data) {
		return 0, io.EOF
	}
	n := copy(b, v.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

//verif:for (*os.File).Write
func fWrite(f *os.File, b []byte) (int, error) {
	v := files[f]
	if v == nil {
		return 0, os.ErrInvalid
	}
	if v.out {
		if !v.in {
			stdout = append(stdout, b...)
		}
		return len(b), nil
	}
	if v.closed {
		return 0, closedErr("write", v.name)
	}
	if v.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", v.name, syscall.EBADF)
	}
	if err := fire("write", v.name); err != nil {
		return 0, err
	}
	if v.flag&os.O_APPEND != 0 {
		v.pos = len(v.n.data)
	}
	if v.pos == len(v.n.data) {
		v.n.data = append(v.n.data[:len(v.n.data):len(v.n.data)], b...)
		v.pos += len(b)
		return len(b), nil
	}
	end := v.pos + len(b)
	if end < len(v.n.data) {
		end = len(v.n.data)
	}
	nd := make([]byte, end)
	copy(nd, v.n.data)
	copy(nd[v.pos:], b)
	v.n.data = nd
	v.pos += len(b)
	return len(b), nil
}

//verif:for (*os.File).WriteAt
func fWriteAt(f *os.File, b []byte, off int64) (int, error) {
	v := files[f]
	if v == nil {
		return 0, os.ErrInvalid
	}
	pos := v.pos
	v.pos = int(off)
	n, err := fWrite(f, b)
	v.pos = pos
	return n, err
}

//verif:for (*os.File).WriteString
func fWriteString(f *os.File, s string) (int, error) { return fWrite(f, []byte(s)) }

//verif:for (*os.File).ReadFrom
func fReadFrom(f *os.File, r io.Reader) (int64, error) { return ioCopy(onlyWriter{f}, r) }

//verif:for (*os.File).WriteTo
func fWriteTo(f *os.File, w io.Writer) (int64, error) { return ioCopy(w, onlyReader{f}) }

type onlyWriter struct{ f *os.File }

func (w onlyWriter) Write(b []byte) (int, error) { return fWrite(w.f, b) }

type onlyReader struct{ f *os.File }

func (w onlyReader) Read(b []byte) (int, error) { return fRead(w.f, b) }

//verif:for (*os.File).Close
func fClose(f *os.File) error {
	v := files[f]
	if v == nil {
		return os.ErrInvalid
	}
	if v.closed {
		return closedErr("close", v.name)
	}
	v.closed = true
	return nil
}

//verif:for (*os.File).Name
func fName(f *os.File) string { return files[f].name }

//verif:for (*os.File).Fd
func fFd(f *os.File) uintptr { return 3 }

//verif:for os.SameFile
func osSameFile(a, b os.FileInfo) bool {
	x, ok := a.(*info)
	y, ok2 := b.(*info)
	return ok && ok2 && x.n == y.n
}

//verif:for (*os.File).Sync
func fSync(f *os.File) error { return nil }

//verif:for (*os.File).Chmod
func fChmod(f *os.File, m os.FileMode) error {
	v := files[f]
	if err := fire("chmod", v.name); err != nil {
		return err
	}
	v.n.mode = m.Perm()
	return nil
}

//verif:for (*os.File).Truncate
func fTruncate(f *os.File, n int64) error {
	v := files[f]
	if err := fire("truncate", v.name); err != nil {
		return err
	}
	v.n.trunc(int(n))
	return nil
}

//verif:for (*os.File).Stat
func fStat(f *os.File) (os.FileInfo, error) {
	v := files[f]
	return &info{base(v.name), v.n}, nil
}

//verif:for (*os.File).Seek
func fSeek(f *os.File, off int64, wh int) (int64, error) {
	v := files[f]
	switch wh {
	case 0:
		v.pos = int(off)
	case 1:
		v.pos += int(off)
	case 2:
		v.pos = len(v.n.data) + int(off)
	}
	return int64(v.pos), nil
}

//verif:for io.Copy
func ioCopy(dst io.Writer, src io.Reader) (int64, error) {
	var total int64
	for {
		buf := make([]byte, 256)
		n, er := src.Read(buf)
		if n > 0 {
			w, ew := dst.Write(buf[:n])
			total += int64(w)
			if ew != nil {
				return total, ew
			}
			if w < n {
				return total, io.ErrShortWrite
			}
		}
		if er == io.EOF {
			return total, nil
		}
		if er != nil {
			return total, er
		}
	}
}

//verif:for io.CopyBuffer
func ioCopyBuffer(dst io.Writer, src io.Reader, buf []byte) (int64, error) { return ioCopy(dst, src) }

//verif:for io.ReadAll
func ioReadAll(r io.Reader) ([]byte, error) {
	out := []byte{}
	for {
		buf := make([]byte, 256)
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// ---- harness side ----

// WriteFile puts a file into the scratch file system.
func WriteFile(path string, data []byte) { WriteFileMode(path, data, 0644) }

// WriteFileMode also sets the permission bits.
func WriteFileMode(path string, data []byte, mode int) {
	k := strings.LastIndex(path, "/")
	if k > 0 {
		Mkdir(path[:k])
	}
	d, last, _, e := walk(path, true, 0)
	if e != 0 {
		panic("vm.WriteFile " + path)
	}
	b := make([]byte, len(data))
	copy(b, data)
	d.set(last, &node{kind: KindFile, mode: os.FileMode(mode), data: b})
}

// Mkdir makes a directory and its parents.
func Mkdir(path string) {
	o := onOp
	onOp = nil
	if err := osMkdirAll(path, 0755); err != nil {
		panic("vm.Mkdir " + path)
	}
	onOp = o
}

// Symlink makes a symbolic link.
func Symlink(target, path string) {
	o := onOp
	onOp = nil
	if err := osSymlink(target, path); err != nil {
		panic("vm.Symlink " + path)
	}
	onOp = o
}

// RemoveFile deletes one file or tree.
func RemoveFile(path string) {
	o := onOp
	onOp = nil
	osRemoveAll(path)
	onOp = o
}

// ReadFile gives the content of a regular file.
func ReadFile(path string) ([]byte, bool) {
	n := get(path)
	if n == nil || n.kind != KindFile {
		return nil, false
	}
	return n.data, true
}

// Kind tells what is at path (symbolic links are not followed).
func Kind(path string) int {
	_, _, n, e := walk(path, false, 0)
	if e != 0 || n == nil {
		return KindNone
	}
	return n.kind
}

// Mode gives the permission bits.
func Mode(path string) int {
	n := get(path)
	if n == nil {
		return -1
	}
	return int(n.mode)
}

// Paths lists everything in the file system, sorted.
func Paths() []string {
	var out []string
	var rec func(n *node, pre string)
	rec = func(n *node, pre string) {
		for _, x := range dirEntries(n) {
			out = append(out, pre+"/"+x.name)
			if x.n.kind == KindDir {
				rec(x.n, pre+"/"+x.name)
			}
		}
	}
	rec(root, "")
	return out
}

// OnOp is called before every operation that changes the file system; an error makes the
// operation fail without effect.
func OnOp(f func(op, path string) error) { onOp = f }

// SetExecutable sets the path of the running program.
func SetExecutable(p string) { exe = p }

// Out is everything written to the standard output so far.
func Out() string { return string(stdout) }

// SetStdin provides the standard input.
func SetStdin(s string) { stdin = []byte(s) }

var _ fs.FileMode
