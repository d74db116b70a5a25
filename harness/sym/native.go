//go:build vreplay
// +build vreplay

package sym

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

type result struct {
	Failed  []string          `json:"failed"`
	Panic   string            `json:"panic"`
	Assume  string            `json:"assume"`
	Covers  []string          `json:"covers"`
	Obs     map[string]string `json:"observations"`
	Done    bool              `json:"done"`
	Exit    string            `json:"exit"`
	Missing []string          `json:"missing"`
}

type exitSignal struct{ code int }
type stopSignal struct{}

var (
	inputs   map[string]interface{}
	thorough bool
	names    = map[string]int{}
	res      = result{Obs: map[string]string{}}
	nobs     int
	orders   = 1
)

// Main runs one harness on one assignment.
func Main(hs map[string]func()) {
	in, out := os.Args[1], os.Args[2]
	b, err := os.ReadFile(in)
	if err != nil {
		panic(err)
	}
	var req struct {
		Harness  string
		Inputs   map[string]interface{}
		Thorough bool
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&req); err != nil {
		panic(err)
	}
	inputs, thorough = req.Inputs, req.Thorough
	f := hs[req.Harness]
	if f == nil {
		panic("no harness " + req.Harness)
	}
	of, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	realOut := os.Stderr
	os.VerifExit = func(code int) { panic(exitSignal{code}) }
	func() {
		defer func() {
			switch x := recover().(type) {
			case nil:
				res.Done = true
			case stopSignal:
			case exitSignal:
				res.Done = true
				res.Exit = strconv.Itoa(x.code)
			default:
				res.Panic = fmt.Sprint(x)
				buf := make([]byte, 4000)
				realOut.Write(buf[:runtime.Stack(buf, false)])
			}
		}()
		f()
	}()
	os.VerifExit = nil
	os.VerifOp = nil
	time.VerifNow = nil
	j, _ := json.Marshal(res)
	of.Write(j)
	of.Close()
	os.Exit(0)
}

func Symbolic() bool { return false }
func Thorough() bool { return thorough }

func name(n string) string {
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func num(n string, dflt int64) int64 {
	n = name(n)
	switch x := inputs[n].(type) {
	case json.Number:
		v, err := x.Int64()
		if err == nil {
			return v
		}
	}
	res.Missing = append(res.Missing, n)
	return dflt
}

func Byte(n string) byte { return Bytes(n, 1)[0] }
func Bytes(n string, k int) []byte {
	n = name(n)
	o := make([]byte, k)
	if s, ok := inputs[n].(string); ok {
		b, _ := hex.DecodeString(s)
		copy(o, b)
		return o
	}
	if k > 0 {
		res.Missing = append(res.Missing, n)
	}
	for i := range o {
		o[i] = 'a'
	}
	return o
}
func Str(n string, k int) string  { return string(Bytes(n, k)) }
func Text(n string, k int) string { return string(Bytes(n, k)) }
func In(n string, k int, lo, hi byte) string {
	b := Bytes(n, k)
	for i := range b {
		if b[i] == 0 {
			b[i] = lo
		}
		Assume(b[i] >= lo && b[i] <= hi)
	}
	return string(b)
}
func Int(n string, lo, hi int) int { return int(num(n, int64(lo))) }
func Bool(n string) bool           { return num(n, 0) != 0 }
func Choose(n string, k int) int   { return int(num(n, 0)) }

// Yield lets the other goroutines go on until they wait.
func Yield()             { time.Sleep(40 * time.Millisecond) }
func Fork(c bool) bool   { return c }
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func MapOrders(n int)    {}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func Assume(c bool) {
	if !c {
		_, file, line, _ := runtime.Caller(1)
		res.Assume = fmt.Sprintf("%s:%d", file, line)
		panic(stopSignal{})
	}
}

func Assert(c bool, label string) {
	if !c {
		res.Failed = append(res.Failed, label)
		panic(stopSignal{})
	}
}

func Cover(label string) { res.Covers = append(res.Covers, label) }

func Observe(label string, v interface{}) {
	var s string
	switch x := v.(type) {
	case string:
		s = fmt.Sprintf("%q", x)
	case []byte:
		s = fmt.Sprintf("%q", string(x))
	default:
		s = fmt.Sprint(v)
	}
	res.Obs[fmt.Sprintf("%d:%s", nobs, label)] = s
	nobs++
}

// Goid identifies the current goroutine.
func Goid() int {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	f := strings.Fields(string(buf))
	n, _ := strconv.Atoi(f[1])
	return n
}

func catch(f func()) (kind, code int, m string) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case stopSignal:
			panic(x)
		case exitSignal:
			kind, code = Exited, x.code
		default:
			kind, m = Panicked, fmt.Sprint(x)
			buf := make([]byte, 4000)
			os.Stderr.Write(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return
}
