//go:build !vreplay
// +build !vreplay

package vm

import (
	"archive/tar"
	"compress/gzip"
	"context"
	"io"
	"net"
	"net/http"
	"strings"
	"time"
)

func contains(s, sub string) bool { return strings.Contains(s, sub) }

var nowSec int64 = 1600000000

//verif:global time.Local
func gLocal() *time.Location { return time.FixedZone("VRF", 9000) }

//verif:for time.Now
func timeNow() time.Time { return time.Unix(nowSec, 0) }

// SetNow sets the clock.
func SetNow(sec int64) { nowSec = sec }

var (
	httpF    func(url string) Reply
	requests []string
)

// SetHTTP answers every request of the program.
func SetHTTP(f func(url string) Reply) { httpF = f }

// Requests lists the URLs requested so far.
func Requests() []string { return requests }

type body struct {
	b      []byte
	err    error
	closed bool
}

func (r *body) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func (r *body) Close() error { r.closed = true; return nil }

func respond(url string) (*http.Response, error) {
	requests = append(requests, url)
	if httpF == nil {
		return nil, ErrFault
	}
	r := httpF(url)
	if r.Err != nil {
		return nil, r.Err
	}
	if r.Status == 0 {
		r.Status = 200
	}
	st := "200 OK"
	if r.Status != 200 {
		st = "500 Error"
	}
	return &http.Response{StatusCode: r.Status, Status: st, ContentLength: -1, Body: &body{b: r.Body, err: r.ReadErr}}, nil
}

//verif:for (*net/http.Client).Get
func httpGet(c *http.Client, url string) (*http.Response, error) {
	note(c, nil, url)
	return respond(url)
}

//verif:for net/http.Get
func httpGet2(url string) (*http.Response, error) {
	note(nil, nil, url)
	return respond(url)
}

//verif:for (*net/http.Client).Do
func httpDo(c *http.Client, req *http.Request) (*http.Response, error) {
	note(c, req, req.Host)
	return respond(req.Host)
}

//verif:for (*net.Dialer).DialContext
func netDial(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return nil, dialed(ctx, d.Timeout, d.Deadline)
}

//verif:for net/http.NewRequest
func httpNewRequest(m, url string, b io.Reader) (*http.Request, error) {
	return &http.Request{Method: m, Host: url, Header: http.Header{}}, nil
}

//verif:for (*net/http.Client).CloseIdleConnections
func httpClose(c *http.Client) {}

var (
	password    []byte
	passwordErr error
	asked       int
)

// SetPassword is what the user types at password prompts.
func SetPassword(b []byte, err error) { password, passwordErr = b, err }

// PasswordAsked counts the password prompts.
func PasswordAsked() int { return asked }

//verif:for golang.org/x/term.ReadPassword
func readPassword(fd int) ([]byte, error) {
	asked++
	return password, passwordErr
}

var env = map[string]string{"HOME": "/home"}

//verif:for syscall.Getenv
func sysGetenv(key string) (string, bool) { v, ok := env[key]; return v, ok }

//verif:for syscall.Setenv
func sysSetenv(key, value string) error { env[key] = value; return nil }

// ---- archives ----

type archive struct {
	es      []Entry
	cut     int
	end     bool // the tar reader is at the end
	drained bool // the compressed stream was read past the tar reader
}

type arcReader struct {
	a    *archive
	i    int
	data []byte
	err  error
}

var (
	gzs  = map[*gzip.Reader]*archive{}
	tars = map[*tar.Reader]*arcReader{}
)

// Archive builds a tar.gz; with cut > 0 the stream breaks off after half of the content of
// entry cut-1; CutBefore, Flip and NoTrailer are further kinds of damage.
func Archive(es []Entry, cut int) []byte { return token("targz", &archive{es: es, cut: cut}) }

//verif:for compress/gzip.NewReader
func gzipNewReader(r io.Reader) (*gzip.Reader, error) {
	b, err := ioReadAll(r)
	if err != nil {
		return nil, err
	}
	o := tokenOf("targz", b)
	if o == nil {
		if len(b) == 0 {
			return nil, io.EOF
		}
		return nil, gzip.ErrHeader
	}
	z := &gzip.Reader{}
	gzs[z] = o.(*archive)
	return z, nil
}

//verif:for (*compress/gzip.Reader).Close
func gzipClose(z *gzip.Reader) error { return nil }

//verif:for (*compress/gzip.Reader).Read
func gzipRead(z *gzip.Reader, b []byte) (int, error) {
	a := gzs[z]
	if !a.end {
		a.drained = true // the content itself is not modelled as bytes
	}
	switch {
	case a.cut < 0 || a.cut > 0 && a.cut < 1000:
		return 0, io.ErrUnexpectedEOF
	case a.cut == NoTrailer:
		return 0, io.ErrUnexpectedEOF
	case a.cut >= 1000:
		return 0, gzip.ErrChecksum
	}
	return 0, io.EOF
}

//verif:for archive/tar.NewReader
func tarNewReader(r io.Reader) *tar.Reader {
	t := &tar.Reader{}
	z, ok := r.(*gzip.Reader)
	if !ok {
		panic("vm: tar over an unmodelled reader")
	}
	tars[t] = &arcReader{a: gzs[z]}
	return t
}

//verif:for (*archive/tar.Reader).Next
func tarNext(t *tar.Reader) (*tar.Header, error) {
	a := tars[t]
	if a.err != nil {
		return nil, a.err
	}
	if a.a.drained {
		a.err = io.EOF
		return nil, a.err
	}
	if a.a.cut > 0 && a.i >= a.a.cut%100 && a.a.cut < 1000 || a.a.cut < 0 && a.i >= -1-a.a.cut {
		a.err = io.ErrUnexpectedEOF
		return nil, a.err
	}
	if a.i >= len(a.a.es) {
		a.err = io.EOF
		a.data = nil
		a.a.end = true
		return nil, io.EOF
	}
	e := a.a.es[a.i]
	a.i++
	a.data = e.Data
	if a.a.cut > 0 && a.a.cut < 1000 && a.a.cut%100 == a.i {
		a.data = e.Data[:cutLen(a.a.cut/100, len(e.Data))]
	}
	if a.a.cut == 1000+a.i-1 {
		a.data = append([]byte{e.Data[0] ^ 1}, e.Data[1:]...)
	}
	ty := e.Type
	size := int64(len(e.Data))
	if ty != tar.TypeReg {
		size = 0
		a.data = nil
	}
	return &tar.Header{Name: e.Name, Typeflag: ty, Size: size, Mode: e.Mode, Linkname: e.Link}, nil
}

//verif:for (*archive/tar.Reader).Read
func tarRead(t *tar.Reader, b []byte) (int, error) {
	a := tars[t]
	if a.err != nil {
		return 0, a.err
	}
	if len(a.data) == 0 {
		if a.a.cut > 0 && a.a.cut < 1000 && a.a.cut%100 == a.i && a.i > 0 && cutLen(a.a.cut/100, len(a.a.es[a.i-1].Data)) < len(a.a.es[a.i-1].Data) {
			a.err = io.ErrUnexpectedEOF
			return 0, a.err
		}
		return 0, io.EOF
	}
	n := copy(b, a.data)
	a.data = a.data[n:]
	return n, nil
}
