//go:build vreplay
// +build vreplay

package vm

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/term"
)

func contains(s, sub string) bool { return strings.Contains(s, sub) }

var (
	outF  *os.File
	inOp  bool
	opF   func(op, path string) error
	raw   = false
	httpF func(url string) Reply
	reqs  []string
	asked int
)

func init() {
	os.MkdirAll("/verifio", 0755)
	f, err := os.Create("/verifio/stdout")
	if err != nil {
		panic(err)
	}
	outF = f
	os.Stdout = f
	g, err := os.Create("/verifio/stdin")
	if err != nil {
		panic(err)
	}
	os.Stdin = g
	os.VerifExecutable = "/bin/1pass"
	os.Setenv("HOME", "/home/user")
	net.VerifDial = func(d *net.Dialer, ctx context.Context) error { return dialed(ctx, d.Timeout, d.Deadline) }
	http.VerifDo = func(c *http.Client, req *http.Request) (*http.Response, error) {
		url := req.URL.String()
		note(c, req, url)
		reqs = append(reqs, url)
		if httpF == nil {
			return nil, ErrFault
		}
		r := httpF(url)
		if r.Err != nil {
			return nil, r.Err
		}
		if r.Status == 0 {
			r.Status = 200
		}
		st := "200 OK"
		if r.Status != 200 {
			st = "500 Error"
		}
		return &http.Response{StatusCode: r.Status, Status: st, ContentLength: -1, Body: &body{b: r.Body, err: r.ReadErr}, Request: req}, nil
	}
	term.VerifReadPassword = func(fd int) ([]byte, error) { return nil, ErrFault }
	time.Local = time.FixedZone("VRF", 9000)
	time.VerifNow = func() time.Time { return time.Unix(1600000000, 0) }
}

type body struct {
	b   []byte
	err error
}

func (r *body) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
func (r *body) Close() error { return nil }

func quiet(f func()) {
	o := inOp
	inOp = true
	defer func() { inOp = o }()
	f()
}

func WriteFile(path string, data []byte) { WriteFileMode(path, data, 0644) }
func WriteFileMode(path string, data []byte, mode int) {
	quiet(func() {
		os.MkdirAll(filepath.Dir(path), 0755)
		if err := os.WriteFile(path, data, os.FileMode(mode)); err != nil {
			panic(err)
		}
		os.Chmod(path, os.FileMode(mode))
	})
}
func Mkdir(path string) { quiet(func() { os.MkdirAll(path, 0755) }) }
func Symlink(target, path string) {
	quiet(func() {
		if err := os.Symlink(target, path); err != nil {
			panic(err)
		}
	})
}
func RemoveFile(path string) { quiet(func() { os.RemoveAll(path) }) }
func ReadFile(path string) (b []byte, ok bool) {
	quiet(func() {
		fi, err := os.Stat(path)
		if err != nil || !fi.Mode().IsRegular() {
			return
		}
		x, err := os.ReadFile(path)
		b, ok = x, err == nil
	})
	return
}
func Kind(path string) int {
	fi, err := os.Lstat(path)
	if err != nil {
		return KindNone
	}
	switch {
	case fi.IsDir():
		return KindDir
	case fi.Mode()&os.ModeSymlink != 0:
		return KindLink
	}
	return KindFile
}
func Mode(path string) int {
	fi, err := os.Stat(path)
	if err != nil {
		return -1
	}
	return int(fi.Mode().Perm())
}
func Paths() []string {
	var out []string
	var rec func(pre string)
	rec = func(pre string) {
		es, _ := os.ReadDir(pre + "/")
		var ns []string
		for _, e := range es {
			ns = append(ns, e.Name())
		}
		sort.Strings(ns)
		for _, n := range ns {
			p := pre + "/" + n
			if p == "/verifio" {
				continue
			}
			out = append(out, p)
			if Kind(p) == KindDir {
				rec(p)
			}
		}
	}
	quiet(func() { rec("") })
	return out
}
func OnOp(f func(op, path string) error) {
	opF = f
	os.VerifOp = func(op, path string) error {
		if inOp || opF == nil || strings.HasPrefix(path, "/verifio/") || strings.HasPrefix(path, "|") || strings.HasPrefix(path, "/dev/") {
			return nil
		}
		inOp = true
		defer func() { inOp = false }()
		if err := opF(op, path); err != nil {
			return &os.PathError{Op: op, Path: path, Err: err}
		}
		return nil
	}
}
func SetExecutable(p string) { os.VerifExecutable = p }
func Out() string {
	b, _ := os.ReadFile("/verifio/stdout")
	return string(b)
}
func SetStdin(s string) {
	quiet(func() {
		os.WriteFile("/verifio/stdin", []byte(s), 0644)
		f, err := os.Open("/verifio/stdin")
		if err != nil {
			panic(err)
		}
		os.Stdin = f
	})
}
func SetNow(sec int64)                 { time.VerifNow = func() time.Time { return time.Unix(sec, 0) } }
func SetHTTP(f func(url string) Reply) { httpF = f }
func Requests() []string               { return reqs }
func PasswordAsked() int               { return asked }
func SetPassword(b []byte, err error) {
	term.VerifReadPassword = func(fd int) ([]byte, error) {
		asked++
		return b, err
	}
}

func Archive(es []Entry, cut int) []byte {
	var buf bytes.Buffer
	z, _ := gzip.NewWriterLevel(&buf, gzip.NoCompression)
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	stop, at := -1, -1
	for i, e := range es {
		if cut < 0 && i == -1-cut {
			stop = tb.Len()
		}
		h := &tar.Header{Name: e.Name, Typeflag: e.Type, Mode: e.Mode, Linkname: e.Link, Format: tar.FormatPAX}
		if e.Type == tar.TypeReg {
			h.Size = int64(len(e.Data))
		}
		if err := tw.WriteHeader(h); err != nil {
			panic(err)
		}
		if cut > 0 && cut < 1000 && i+1 == cut%100 {
			stop = tb.Len() + cutLen(cut/100, len(e.Data))
		}
		if cut == 1000+i {
			at = tb.Len()
		}
		if e.Type == tar.TypeReg {
			tw.Write(e.Data)
		}
		tw.Flush()
	}
	if cut < 0 && -1-cut == len(es) {
		stop = tb.Len()
	}
	tw.Close()
	if stop >= 0 {
		z.Write(tb.Bytes()[:stop])
		z.Flush()
		return buf.Bytes()
	}
	z.Write(tb.Bytes())
	z.Close()
	r := buf.Bytes()
	if cut == NoTrailer {
		return r[:len(r)-8]
	}
	if at >= 0 {
		// stored blocks with one content byte changed, and the old checksum
		var other bytes.Buffer
		y, _ := gzip.NewWriterLevel(&other, gzip.NoCompression)
		b := append([]byte{}, tb.Bytes()...)
		b[at] ^= 1
		y.Write(b)
		y.Close()
		o := other.Bytes()
		copy(o[len(o)-8:], r[len(r)-8:])
		return o
	}
	return r
}
