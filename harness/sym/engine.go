//go:build !vreplay
// +build !vreplay

package sym

// Symbolic tells the engine from the native replay.
func Symbolic() bool                            { panic("engine") }
func Thorough() bool                            { panic("engine") }
func Byte(name string) byte                     { panic("engine") }
func Bytes(name string, n int) []byte           { panic("engine") }
func Str(name string, n int) string             { panic("engine") }
func Text(name string, n int) string            { panic("engine") }
func In(name string, n int, lo, hi byte) string { panic("engine") }
func Int(name string, lo, hi int) int           { panic("engine") }
func Bool(name string) bool                     { panic("engine") }
func Choose(name string, n int) int             { panic("engine") }
func Assume(c bool)                             { panic("engine") }
func Assert(c bool, label string)               { panic("engine") }
func Cover(label string)                        { panic("engine") }
func Observe(label string, v interface{})       { panic("engine") }
func MapOrders(n int)                           { panic("engine") }
func Yield()                                    { panic("engine") }
func Goid() int                                 { panic("engine") }
func Fork(c bool) bool                          { panic("engine") }
func And(a, b bool) bool                        { panic("engine") }
func Or(a, b bool) bool                         { panic("engine") }
func IteInt(c bool, a, b int) int               { panic("engine") }
func catch(f func()) (kind, code int, m string) { panic("engine") }
