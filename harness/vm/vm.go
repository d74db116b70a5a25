// Package vm is the environment of the program under test. In the engine it is an in-memory
// model of the file system, clock, network, terminal and cryptographic primitives that the
// standard library calls of the real code are redirected to (the "verif:for" directives); in
// the native replay the same interface drives the real ones inside a scratch root.
package vm

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"syscall"
	"time"
)

// CutBefore as damage of an Archive: the stream breaks off before the header of entry k (the
// number of entries: before the end of the archive).
func CutBefore(k int) int { return -1 - k }

// Flip as damage of an Archive: the first byte of the content of entry k is changed, the
// checksum of the archive is not.
func Flip(k int) int { return 1000 + k }

// NoTrailer as damage of an Archive: the checksum of the archive is cut off.
const NoTrailer = 9999

// Entry is one archive member.
type Entry struct {
	Name string
	Type byte // tar type flag
	Data []byte
	Link string
	Mode int64
}

// Reply is an answer of the simulated server.
type Reply struct {
	Status  int
	Body    []byte
	Err     error // the request itself fails
	ReadErr error // reading the body fails after Body was delivered
}

// CutIn breaks an archive off in an entry's content: at its half, before it, after a byte of it,
// before its last byte, after it.
func CutIn(entry, where int) int { return entry + 1 + 100*where }

func cutLen(where, n int) int {
	k := []int{n / 2, 0, 1, n - 1, n}[where]
	if k < 0 || k > n {
		k = 0
	}
	return k
}

// ErrFault is the error used for injected faults.
var ErrFault = errors.New("injected fault")

// Faults are errors of several kinds that file system operations can give.
var Faults = []error{ErrFault, syscall.EACCES, syscall.ENOENT, syscall.EEXIST, syscall.EXDEV, syscall.ENOSPC, syscall.ETXTBSY, syscall.EPERM}

const (
	KindNone = iota
	KindFile
	KindDir
	KindLink
)

// Has reports whether sub occurs in s (both may be symbolic; does not fork on the position).
func Has(s, sub string) bool { return contains(s, sub) }

var (
	tracking bool
	limits   []time.Duration
	limit    time.Duration
)

// TrackLimits makes every request try to connect first, noting how long it would wait.
func TrackLimits() { tracking = true }

// Limits gives, per request, after what time it gives up connecting (0: never).
func Limits() []time.Duration { return limits }

func less(d time.Duration) {
	if d != 0 && (limit == 0 || d < limit) {
		limit = d
	}
}

// hostPort gives the scheme and the address a connection for a request goes to.
func hostPort(url string) (string, string) {
	scheme, rest := "http", url
	if i := strings.Index(url, "://"); i >= 0 {
		scheme, rest = url[:i], url[i+3:]
	}
	if i := strings.IndexByte(rest, '/'); i >= 0 {
		rest = rest[:i]
	}
	if i := strings.LastIndexByte(rest, ':'); i >= 0 && i > strings.LastIndexByte(rest, ']') {
		return scheme, rest
	}
	if scheme == "https" {
		return scheme, rest + ":443"
	}
	return scheme, rest + ":80"
}

func note(c *http.Client, req *http.Request, url string) {
	if !tracking {
		return
	}
	limit = 0
	if req != nil {
		if t, ok := req.Context().Deadline(); ok {
			less(t.Sub(time.Now()))
		}
	}
	if c != nil {
		less(c.Timeout)
		if t, ok := c.Transport.(*http.Transport); ok && t != nil {
			scheme, addr := hostPort(url)
			waited, endless = 0, false
			switch {
			case scheme == "https" && t.DialTLSContext != nil:
				t.DialTLSContext(context.Background(), "tcp", addr)
			case scheme == "https" && t.DialTLS != nil:
				t.DialTLS("tcp", addr)
			case t.DialContext != nil:
				t.DialContext(context.Background(), "tcp", addr)
			case t.Dial != nil:
				t.Dial("tcp", addr)
			}
			if !endless {
				less(waited)
			}
		}
	}
	limits = append(limits, limit)
}

// waited is how long all attempts to connect for one request take when no answer comes.
var (
	waited  time.Duration
	endless bool
)

func dialed(ctx context.Context, timeout time.Duration, deadline time.Time) error {
	all := limit
	limit = 0
	less(timeout)
	if !deadline.IsZero() {
		less(deadline.Sub(time.Now()))
	}
	if t, ok := ctx.Deadline(); ok {
		less(t.Sub(time.Now()))
	}
	if limit == 0 {
		endless = true
	}
	waited += limit
	limit = all
	return ErrFault
}
