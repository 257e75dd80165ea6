// Package simyield is the seam the instrumented library calls before each of
// its statements. Outside a simulated run it only counts.
package simyield

import _ "unsafe"

// Cov marks the statements reached in this process.
var Cov [1 << 15]uint8

// Steps left until Slow is called. Every statement of the library costs one.
var Left int64 = 1 << 62

// Slow decides what happens when Left runs out (preemption, step budget).
var Slow func(id int)

// Y is called before every statement of the library.
func Y(id int) {
	Cov[id&(1<<15-1)] = 1
	Left--
	if Left < 0 {
		slow(id)
	}
}

//go:noinline
func slow(id int) {
	if Slow == nil {
		Left = 1 << 62
		return
	}
	Slow(id)
}

func setRand(seed uint64, on bool)

// The maps of package variables take part as well.
func init() { setRand(1, true) }

// SetRand makes map iteration order a function of seed.
func SetRand(seed uint64) { setRand(seed, true) }

// Block parks the caller until cond holds.
var Block func(cond func() bool)

// Spawn starts a task of the simulated run.
var Spawn func(f func())

// Go stands in for the go statement of the library.
func Go(f func()) {
	if Spawn == nil {
		go f()
		return
	}
	Spawn(f)
}

// Gen is the number of the simulated run.
var Gen uint64
