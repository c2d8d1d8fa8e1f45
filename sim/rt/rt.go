// Package rt is the deterministic scheduler. The instrumented copy of lyraproj/dgo calls Y before every statement.
// Exactly one simulated thread runs at any time; at every Y the scheduler decides, from its own seeded PRNG (or from a
// recorded schedule), which thread continues. All functions that touch scheduler state are excluded from race
// instrumentation and the hand-over of the baton is hidden from the race detector, so that the only happens-before
// edges it sees are those that the program under test creates itself.
package rt

import (
	"sync"
	"unsafe"
)

// MaxThreads is the largest number of simulated threads in one run.
const MaxThreads = 8

// MaxSites bounds the yield site ids (used for the reach measure).
const MaxSites = 1 << 16

const maxSched = 1 << 16

// Strategy names a way of picking the next thread.
type Strategy int

const (
	// Random switches with probability 1/Den at every yield.
	Random Strategy = iota
	// PCT runs the runnable thread with the highest priority and lowers priorities at Depth random steps.
	PCT
	// HotSites switches with probability 1/2 at a random subset of yield sites and rarely elsewhere.
	HotSites
	// Stall is Random, but one thread (the victim) is suspended at a random step until no other can run.
	Stall
	// Replay follows a recorded list of switches.
	Replay
	// Serial never preempts
	Serial
)

// Switch is one entry of a schedule: at step Step thread T was given the baton.
type Switch struct {
	Step uint32 `json:"s"`
	T    uint8  `json:"t"`
}

// Config controls one simulated execution.
type Config struct {
	Seed     uint64   `json:"seed"`
	Strategy Strategy `json:"strategy"`
	Den      uint32   `json:"den"`
	Depth    int      `json:"depth"`
	EstSteps uint32   `json:"est"`
	MaxSteps uint32   `json:"max"`
	Sched    []Switch `json:"sched,omitempty"`
}

// Outcome of one simulated execution.
type Outcome struct {
	Steps       uint32
	Switches    int
	Preempt     int
	Sched       []Switch
	Interleave  uint64 // hash over (thread, site) at each switch
	Deadlock    bool
	StepLimit   bool
	Fatal       string
	SchedTrunc  bool
	BlockedInfo string
}

// OK is true when the run ended by all threads finishing.
func (o *Outcome) OK() bool { return !o.Deadlock && !o.StepLimit && o.Fatal == `` }

const (
	stIdle = iota
	stRunnable
	stBlocked
	stDone
)

type thread struct {
	id      int
	state   int
	wake    chan struct{}
	waitOn  unsafe.Pointer
	prio    int
	site    int
	stalled bool
	fn      func()
	wg      *sync.WaitGroup
}

var (
	active   bool
	aborted  bool
	cur      *thread
	threads  [MaxThreads]*thread
	nThreads int
	nAlive   int

	rng      uint64
	envRng   uint64
	cfg      Config
	step     uint32
	sched    [maxSched]Switch
	nSched   int
	trunc    bool
	preempt  int
	ihash    uint64
	replayIx int
	hotSalt  uint64
	changeAt [16]uint32
	nChange  int
	victim   int
	stallAt  uint32
	fatalMsg string
	done     chan int

	siteHits [MaxSites]uint8
	totSteps uint64
	wg       *sync.WaitGroup
)

//go:norace
func next(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// EnvSeed seeds the source of environment nondeterminism (such as the iteration order of a sync.Map)
//
//go:norace
func EnvSeed(s uint64) { envRng = s }

// EnvRand draws from the source of environment nondeterminism
//
//go:norace
func EnvRand(n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(&envRng) % uint64(n))
}

// Active is true while a simulation runs
//
//go:norace
func Active() bool { return active }

// Now is the global event sequence number.
//
//go:norace
func Now() uint32 { return step }

// Cur is the id of the running simulated thread or -1
//
//go:norace
func Cur() int {
	if !active {
		return -1
	}
	return cur.id
}

// Tick advances the event sequence number without scheduling, so that every stamp is unique.
//
//go:norace
func Tick() uint32 { step++; return step }

// Y is a yield point.
//
//go:norace
func Y(site int) {
	if !active {
		return
	}
	if siteHits[site&(MaxSites-1)] == 0 {
		siteHits[site&(MaxSites-1)] = 1
	}
	cur.site = site
	yield(site)
}

//go:norace
func yield(site int) {
	if aborted {
		parkForever()
	}
	step++
	if step > cfg.MaxSteps {
		abort(2)
		parkForever()
	}
	if nAlive == 1 {
		return
	}
	n := pick(site)
	if n != cur {
		preempt++
		handTo(n, true)
	}
}

//go:norace
func abort(code int) {
	aborted = true
	raceDisable()
	done <- code
	raceEnable()
}

//go:norace
func parkForever() {
	raceDisable()
	select {}
}

// Fatal ends the run as a fatal error of the runtime would.
//
//go:norace
func Fatal(msg string) {
	if !active {
		panic(`fatal error: ` + msg)
	}
	fatalMsg = msg
	abort(3)
	parkForever()
}

//go:norace
func handTo(n *thread, park bool) {
	me := cur
	if nSched < maxSched {
		sched[nSched].Step = step
		sched[nSched].T = uint8(n.id)
		nSched++
	} else {
		trunc = true
	}
	ihash = (ihash ^ (uint64(n.id)<<32 | uint64(uint32(me.site)))) * 0x100000001b3
	ihash ^= ihash >> 29
	cur = n
	raceDisable()
	n.wake <- struct{}{}
	if park {
		<-me.wake
	}
	raceEnable()
}

//go:norace
func nthRunnable(k int, except *thread) *thread {
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stRunnable && t != except && !t.stalled {
			if k == 0 {
				return t
			}
			k--
		}
	}
	return nil
}

//go:norace
func nRunnable(except *thread) int {
	c := 0
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stRunnable && t != except && !t.stalled {
			c++
		}
	}
	return c
}

// pick chooses who runs after this (non blocking) yield
//
//go:norace
func pick(site int) *thread {
	me := cur
	strategy, den := cfg.Strategy, uint64(cfg.Den)
	if step > cfg.MaxSteps/2 && strategy != Replay {
		// Whatever the strategy, the second half of the budget is scheduled fairly: someone who polls for the progress of
		// another is not mistaken for someone who hangs.
		for i := 0; i < nThreads; i++ {
			threads[i].stalled = false
		}
		strategy, den = Random, 64
	}
	switch strategy {
	case Serial:
		return me
	case Replay:
		for replayIx < len(cfg.Sched) && cfg.Sched[replayIx].Step < step {
			replayIx++
		}
		if replayIx < len(cfg.Sched) && cfg.Sched[replayIx].Step == step {
			t := int(cfg.Sched[replayIx].T)
			replayIx++
			if t < nThreads && threads[t].state == stRunnable {
				return threads[t]
			}
		}
		return me
	case PCT:
		for i := 0; i < nChange; i++ {
			if changeAt[i] == step {
				me.prio = -1 - i
			}
		}
		return highest()
	case Stall:
		if step >= stallAt && me.id == victim && !me.stalled {
			if nRunnable(me) > 0 {
				me.stalled = true
				return nthRunnable(int(next(&rng)%uint64(nRunnable(me))), me)
			}
		}
		if next(&rng)%den != 0 {
			return me
		}
	case HotSites:
		d := den * 16
		h := (uint64(site) + hotSalt) * 0x9e3779b97f4a7c15
		if (h>>40)%den == 0 {
			d = 2
		}
		if next(&rng)%d != 0 {
			return me
		}
	default:
		if next(&rng)%den != 0 {
			return me
		}
	}
	c := nRunnable(me)
	if c == 0 {
		return me
	}
	return nthRunnable(int(next(&rng)%uint64(c)), me)
}

//go:norace
func highest() *thread {
	var b *thread
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stRunnable && (b == nil || t.prio > b.prio) {
			b = t
		}
	}
	return b
}

// pickForced chooses who runs when the current thread cannot
//
//go:norace
func pickForced() *thread {
	c := nRunnable(nil)
	if c == 0 {
		for i := 0; i < nThreads; i++ {
			threads[i].stalled = false
		}
		c = nRunnable(nil)
		if c == 0 {
			return nil
		}
	}
	switch cfg.Strategy {
	case Serial:
		return nthRunnable(0, nil)
	case PCT:
		return highest()
	case Replay:
		for replayIx < len(cfg.Sched) && cfg.Sched[replayIx].Step < step {
			replayIx++
		}
		if replayIx < len(cfg.Sched) && cfg.Sched[replayIx].Step == step {
			t := int(cfg.Sched[replayIx].T)
			replayIx++
			if t < nThreads && threads[t].state == stRunnable {
				return threads[t]
			}
		}
		return nthRunnable(0, nil)
	}
	return nthRunnable(int(next(&rng)%uint64(c)), nil)
}

// Block suspends the current thread until Wake is called with the same address. Outside of a simulation it is a fatal
// error, since nobody can ever wake the caller.
//
//go:norace
func Block(on unsafe.Pointer) {
	if !active {
		panic(`fatal error: all goroutines are asleep - deadlock!`)
	}
	if aborted {
		parkForever()
	}
	step++
	if step > cfg.MaxSteps {
		abort(2)
		parkForever()
	}
	me := cur
	me.state = stBlocked
	me.waitOn = on
	n := pickForced()
	if n == nil {
		abort(1)
		parkForever()
	}
	handTo(n, true)
}

// Wake makes all threads that are blocked on the given address runnable.
//
//go:norace
func Wake(on unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < nThreads; i++ {
		t := threads[i]
		if t.state == stBlocked && t.waitOn == on {
			t.state = stRunnable
			t.waitOn = nil
		}
	}
}

var counters [256]int

// Count increments a counter and returns its previous value. The race detector sees nothing of it.
//
//go:norace
func Count(ix int) int {
	c := counters[ix&255]
	counters[ix&255] = c + 1
	return c
}

// ResetCounters sets all counters to zero
//
//go:norace
func ResetCounters() {
	for i := range counters {
		counters[i] = 0
	}
}

// SyncPoint is a yield at a synchronisation operation.
//
//go:norace
func SyncPoint() {
	if active {
		yield(MaxSites - 1)
	}
}

//go:norace
func finish(t *thread) {
	if aborted {
		parkForever()
	}
	t.state = stDone
	nAlive--
	step++
	if nAlive == 0 {
		raceDisable()
		done <- 0
		raceEnable()
		return
	}
	n := pickForced()
	if n == nil {
		abort(1)
		return
	}
	handTo(n, false)
}

//go:norace
func await(t *thread) {
	raceDisable()
	<-t.wake
	raceEnable()
}

func body(t *thread) {
	await(t)
	t.fn()
	t.wg.Done()
	finish(t)
}

// Go starts another simulated thread (used for go statements in the code under test).
func Go(fn func()) {
	if !Active() {
		go fn()
		return
	}
	t := addThread(fn)
	if t == nil {
		Fatal(`simulator: too many threads`)
	}
	go body(t)
	SyncPoint()
}

//go:norace
func addThread(fn func()) *thread {
	if nThreads == MaxThreads {
		return nil
	}
	t := &thread{id: nThreads, state: stRunnable, wake: make(chan struct{}, 1), fn: fn, wg: wg}
	t.prio = int(next(&rng) % 1000)
	threads[nThreads] = t
	nThreads++
	nAlive++
	wg.Add(1)
	return t
}

//go:norace
func setup(c Config) {
	cfg = c
	if cfg.Den == 0 {
		cfg.Den = 4
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 1 << 22
	}
	if cfg.EstSteps == 0 {
		cfg.EstSteps = 1000
	}
	rng = cfg.Seed
	nThreads, nAlive, step, nSched, preempt, replayIx = 0, 0, 0, 0, 0, 0
	ihash = 0xcbf29ce484222325
	trunc, aborted = false, false
	fatalMsg = ``
	done = make(chan int, 4)
	wg = &sync.WaitGroup{} // threads of an aborted run never end
	hotSalt = next(&rng)
	nChange = cfg.Depth
	if nChange > len(changeAt) {
		nChange = len(changeAt)
	}
	for i := 0; i < nChange; i++ {
		changeAt[i] = 1 + uint32(next(&rng)%uint64(cfg.EstSteps))
	}
	stallAt = 1 + uint32(next(&rng)%uint64(cfg.EstSteps))
}

//go:norace
func start() int {
	victim = int(next(&rng) % uint64(nThreads))
	var n *thread
	if cfg.Strategy == Replay || cfg.Strategy == Serial {
		n = threads[0]
		if cfg.Strategy == Replay && len(cfg.Sched) > 0 && cfg.Sched[0].Step == 0 && int(cfg.Sched[0].T) < nThreads {
			n = threads[cfg.Sched[0].T]
			replayIx = 1
		}
	} else {
		n = pickForced()
	}
	sched[0].Step = 0
	sched[0].T = uint8(n.id)
	nSched = 1
	cur = n
	active = true
	raceDisable()
	n.wake <- struct{}{}
	code := <-done
	raceEnable()
	active = false
	return code
}

var epoch uint32

// Epoch identifies the time since the last call of Abandon
//
//go:norace
func Epoch() uint32 { return epoch }

// Abandon declares that the locks held by the threads of the last run, which was ended by the step limit, are free
//
//go:norace
func Abandon() { epoch++ }

// Run executes the given functions as simulated threads until all are done, none can run, or the step limit is hit.
func Run(c Config, fns ...func()) *Outcome {
	setup(c)
	for _, f := range fns {
		addThread(f)
	}
	for i := 0; i < len(fns); i++ {
		go body(threads[i])
	}
	code := start()
	if code == 0 {
		wg.Wait()
	}
	return outcome(code)
}

//go:norace
func outcome(code int) *Outcome {
	o := &Outcome{Steps: step, Preempt: preempt, Switches: nSched, Interleave: ihash, SchedTrunc: trunc}
	o.Sched = make([]Switch, nSched)
	for i := 0; i < nSched; i++ {
		o.Sched[i] = sched[i]
	}
	switch code {
	case 1:
		o.Deadlock = true
	case 2:
		o.StepLimit = true
	case 3:
		o.Fatal = fatalMsg
	}
	totSteps += uint64(step)
	return o
}

// SitesHit counts the distinct yield sites reached by this process and TotalSteps the simulated steps.
//
//go:norace
func SitesHit() []int {
	r := make([]int, 0, 4096)
	for i := 0; i < MaxSites; i++ {
		if siteHits[i] != 0 {
			r = append(r, i)
		}
	}
	return r
}

// TotalSteps counts the simulated steps of this process.
//
//go:norace
func TotalSteps() uint64 { return totSteps }
