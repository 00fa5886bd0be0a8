//go:build go1.21 && !verifnative

package vs

// The environment as the engine sees it: every function here is given its meaning there.

import "time"

func finish(code int, msg string) { panic(msg) }

// Inject delivers a datagram to the open socket.
func Inject(data []byte, ip [4]byte, port int) {}

// InjectErr makes the next read fail with a system call's errno (0: a timeout).
func InjectErr(errno int) {}

// FailWrites makes the next n writes fail with a system call's errno (0: a timeout).
func FailWrites(n, errno int) {}

// FailListen makes opening sockets fail (or not).
func FailListen(b bool) {}

// Sent returns the datagrams written so far (since ClearSent).
func Sent() []Packet { return nil }

func ClearSent() {}

// Listens returns the sockets opened so far.
func Listens() []Bind { return nil }

// Settle waits until every other goroutine is blocked.
func Settle() {}

// Advance lets virtual time pass.
func Advance(d time.Duration) { time.Sleep(d) }

// Clock is the virtual time since the start, in nanoseconds.
func Clock() int64 { return 0 }

// Goroutines counts the live goroutines the code under test started.
func Goroutines() int { return 0 }

// OpenSockets counts the sockets not closed.
func OpenSockets() int { return 0 }

// Schedule turns on exploration of interleavings: up to delays preemptions or delays,
// selects forks over the ready cases of the first n contested selects.
func Schedule(delays, selects int) {}

// Starve lets one of the goroutines the code under test has started, or none, run only
// when nothing else can.
func Starve() {}

// Coincide lets the next n sets of timers due at the same instant fire in either order.
func Coincide(n int) {}

// MapOrder makes the next n steps of iteration over maps of several entries fork.
func MapOrder(n int) {}

// RaceDetect turns on the happens-before race detector.
func RaceDetect() {}

// Lock and Unlock protect the harness's own bookkeeping in native runs; in symbolic runs
// they are nothing, so that they neither order nor interleave the code under test.
func Lock()   {}
func Unlock() {}
