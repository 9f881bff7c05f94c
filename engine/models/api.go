// Package vmodels holds the environment models and the analysis entry points. It is never compiled into or run
// with the driver: the analysis reads it like the driver's own source.
package vmodels

import (
	"net"
	"time"
)

// The functions below are transfer functions built into the analysis.

// Choose is a non-deterministic choice of 0..n-1.
func Choose(n int) int { panic("model") }

// Violate reports a violation of the properties (comma separated) and ends the path.
func Violate(props, msg string) { panic("model") }

// Check is an obligation.
func Check(props string, ok bool, msg string) { panic("model") }

// Expect is an obligation after which the path goes on even if it fails.
func Expect(props string, ok bool, msg string) { panic("model") }

// Note adds a line to the path description.
func Note(msg string) { panic("model") }

// NoteI adds a line with a number to the path description.
func NoteI(msg string, n int) { panic("model") }

// Assume drops paths on which ok does not hold.
func Assume(ok bool) { panic("model") }

// Stop ends the path.
func Stop() { panic("model") }

// PanicProps names the properties a panic in the following code violates.
func PanicProps(props string) { panic("model") }

// BlockProps names the properties that blocking for ever violates ("": it may wait).
func BlockProps(props string) { panic("model") }

// Held: a lock is held.
func Held() bool { panic("model") }

// Phase names what the harness is doing, for the lock discipline.
func Phase(p string) { panic("model") }

// Covered marks a point that must be reached for the analysis to count.
func Covered(name string) { panic("model") }

// Tick lets an unknown amount of time pass.
func Tick() { panic("model") }

// IsNowPlus tells whether t is the current time plus d.
func IsNowPlus(t time.Time, d time.Duration) bool { panic("model") }

// IsNowUpTo tells whether t is later than the current time, by at most d.
func IsNowUpTo(t time.Time, d time.Duration) bool { panic("model") }

// SymInt is any integer from lo to hi.
func SymInt(name string, lo, hi int64) int64 { panic("model") }

// SymUint is any unsigned integer up to hi.
func SymUint(name string, lo, hi uint64) uint64 { panic("model") }

// SymBool is any boolean.
func SymBool(name string) bool { panic("model") }

// SymFloat is any float.
func SymFloat(name string) float64 { panic("model") }

// SymFloat32 is any float32.
func SymFloat32(name string) float32 { panic("model") }

// SymStr is any string of lo to hi bytes.
func SymStr(name string, lo, hi int64) string { panic("model") }

// SymText is any non-empty string of letters and digits that does not look like a number or a boolean.
func SymText(name string) string { panic("model") }

// SymDec is the decimal notation of n.
func SymDec(n int64) string { panic("model") }

// SymBytes is any byte slice of lo to hi bytes.
func SymBytes(name string, lo, hi int64) []byte { panic("model") }

// Token is the opaque encoding of v.
func Token(v interface{}) []byte { panic("model") }

// Untoken gives back what b encodes.
func Untoken(b []byte) (interface{}, bool) { panic("model") }

// WriterOf gives the writer an encoder writes to.
func WriterOf(enc interface{}) interface{} { panic("model") }

// ReaderOf gives the reader a decoder reads from.
func ReaderOf(dec interface{}) interface{} { panic("model") }

// NetOf gives the network connection the connection uses, nil if there is none.
func NetOf(conn interface{}) *Net { panic("model") }

// Mark labels the object p points to as shared, for the lock discipline.
func Mark(p interface{}, label string) { panic("model") }

// Text formats like Sprintf, given the texts of those arguments that format themselves.
func Text(format string, args []interface{}, own []string, ln bool) string { panic("model") }

// IsFmtFull tells whether texts are kept.
func IsFmtFull() bool { panic("model") }

// Contains tells whether the text contains sub anywhere.
func Contains(s, sub string) bool { panic("model") }

// Same tells whether both are the same value, without forking: false if unknown.
func Same(a, b interface{}) bool { panic("model") }

// AllocBound sets the bound of C05 on allocations: n elements.
func AllocBound(n int, props string) { panic("model") }

// NilList is a list of n nils.
func NilList(n int) []interface{} { panic("model") }

// NilMap is a map of n entries with nil values.
func NilMap(n int) map[string]interface{} { panic("model") }

// FirstDiff describes where the bytes differ.
func FirstDiff(a, b []byte) string { panic("model") }

// PutNum gives the n byte big-endian (or little-endian) form of v, a fixed size number.
func PutNum(v interface{}, little bool) []byte { panic("model") }

// NumSize gives the size of the number v or v points to, -1 if it has none.
func NumSize(v interface{}) int { panic("model") }

// SetNum stores the number b encodes to where p points.
func SetNum(p interface{}, b []byte, little bool) { panic("model") }

// IsLittle tells whether the byte order is little-endian.
func IsLittle(order interface{}) bool { panic("model") }

// OnceDone tells whether a sync.Once fired, and makes it fire.
func OnceDone(o interface{}) bool { panic("model") }

// MapRune applies f.
func runes(s string) []rune { return []rune(s) }

// Cmp compares two values: 1 equal, 0 different for some values of the unknowns, -1 unknown.
func Cmp(a, b interface{}) int { panic("model") }

// Undecided ends the path without a verdict.
func Undecided(msg string) { panic("model") }

// Describe is a text for reports.
func Describe(v interface{}) string { panic("model") }

// Repeat is pat, which is known, n times.
func Repeat(pat []byte, n int) []byte { panic("model") }

// NotOwn tells whether argument i of the format is printed with %# or %T.
func NotOwn(format string, i int) bool { panic("model") }

// Kept gives what is kept in a library object (sync.Pool, sync.Map, atomic.Value).
func Kept(o interface{}) interface{} { panic("model") }

// Keep keeps v in a library object.
func Keep(o interface{}, v interface{}) { panic("model") }

// RecorderMaker gives the function of the driver that makes recorders.
func RecorderMaker() func(name, str string) interface{} { panic("model") }

// AsConn is the recorder as a network connection.
func AsConn(rec interface{}) net.Conn { panic("model") }

// SetRecorder sets the recorder of a driver.
func SetRecorder(d interface{}, rec net.Conn) { panic("model") }

// CopyEvents makes to hold the events from recorded.
func CopyEvents(to, from net.Conn) { panic("model") }

// ForgetEvents drops what was recorded.
func ForgetEvents(rec net.Conn) { panic("model") }
