// Package mcrt is a runtime for the systematic exploration of concurrent Go code.
//
// The code under test is rewritten (see cmd/instr) so that all of its goroutines, channels, locks, timers and map iterations
// go through this package. Exactly one goroutine runs at a time and every operation is a point at which the explorer (see
// explore.go) decides which goroutine goes on. Time is virtual: a sleeping goroutine may be woken at any point, which moves
// the clock to its deadline.
//
// In a build with the race detector this package itself is compiled without instrumentation, its own hand-overs are hidden
// from the detector and only the happens-before edges of the modelled operations are announced. So the detector judges the
// memory accesses of each explored schedule as if the goroutines were not synchronised by the explorer.
package mcrt

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"
)

// Duration of the virtual clock (nanoseconds).
type Duration = int64

type abortToken struct{}

// goroutine is a goroutine of the explored program.
type goroutine struct {
	id      int
	gate    chan struct{}
	op      op
	site    string
	system  bool // timers of the runtime itself: they are neither leaks nor preferred
	started bool
	done    bool
	woken   bool // a partner has completed the pending operation
	// Set by the partner
	recvVal interface{}
	recvOk  bool
	fired   int // the case of the select which was completed by a partner
}

// op is a pending operation.
type op interface {
	ready(ex *exec, g *goroutine) bool
	kind() string
}

type exec struct {
	gs      []*goroutine
	cur     *goroutine
	now     int64
	chans   chanTable
	keep    []interface{} // channels whose addresses must not be used again
	aborted bool
	doneCh  chan struct{}
	live    int

	ctl      *control
	steps    int
	maxSteps int
	streak   int // points in a row at which the same goroutine went on although others could have
	crash    string
	deadlock string
	spin     string
	leaks    []string
	mainDone bool
	over     bool
	quiet    int
	hungry   int // steps during which time has not passed although somebody sleeps
	drained  int
	events   []Event
	hb       [16]byte
}

// Event is something which happened in an execution, at a virtual time.
type Event struct {
	At   int64
	What string
	G    int
}

var ex *exec

// Active tells whether the calling code runs under the explorer.
func Active() bool { return ex != nil }

type opStart struct{}

func (opStart) ready(*exec, *goroutine) bool { return true }
func (opStart) kind() string                 { return "start" }

type opYield struct{}

func (opYield) ready(*exec, *goroutine) bool { return true }
func (opYield) kind() string                 { return "yield" }

type opNever struct{}

func (opNever) ready(*exec, *goroutine) bool { return false }
func (opNever) kind() string                 { return "blocked forever" }

type opSleep struct {
	deadline  int64
	cancelled bool
}

func (o *opSleep) ready(e *exec, _ *goroutine) bool { return o.cancelled || o.deadline <= e.now }
func (o *opSleep) kind() string                     { return "sleep" }

// opWait waits until the condition holds.
type opWait struct {
	name string
	cond func() bool
}

func (o *opWait) ready(*exec, *goroutine) bool { return o.cond() }
func (o *opWait) kind() string                 { return o.name }

func site() string {
	var pcs [16]uintptr
	n := runtime.Callers(3, pcs[:])
	frames := runtime.CallersFrames(pcs[:n])
	for {
		f, more := frames.Next()
		if !strings.Contains(f.Function, "verif/mcrt") && !strings.Contains(f.Function, "mcrt.") {
			i := strings.LastIndexByte(f.Function, '/')
			return fmt.Sprintf("%s:%d", f.Function[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// enter gets the running goroutine. All operations of goroutines which are being aborted end them.
func enter() *goroutine {
	if ex.aborted {
		runtime.Goexit()
	}
	return ex.cur
}

// point makes the operation pending and returns when the explorer has chosen this goroutine while the operation is ready.
func point(g *goroutine, o op) {
	g.op, g.woken = o, false
	e := ex
	next := e.choose(g)
	if next == nil {
		// the execution is over, for whatever reason
		e.finish()
		syncOff()
		<-g.gate
		syncOn()
	} else if next != g {
		e.cur = next
		syncOff()
		next.gate <- struct{}{}
		<-g.gate
		syncOn()
	}
	if e.aborted {
		runtime.Goexit()
	}
	e.cur = g
	if s, ok := o.(*opSleep); ok && !s.cancelled && s.deadline > e.now {
		e.now = s.deadline
	}
}

// ended hands the control over when the current goroutine has ended.
func (e *exec) ended(g *goroutine) {
	g.done, g.op = true, opNever{}
	hbRelease(unsafe.Pointer(&e.hb[0]))
	e.live--
	if e.aborted || e.over {
		syncOff()
		e.doneCh <- struct{}{}
		syncOn()
		return
	}
	next := e.choose(nil)
	if next == nil {
		e.over = true
		syncOff()
		e.doneCh <- struct{}{}
		syncOn()
		return
	}
	e.cur = next
	syncOff()
	next.gate <- struct{}{}
	syncOn()
}

// finish tells the driver that nothing can go on.
func (e *exec) finish() {
	e.over = true
	syncOff()
	e.doneCh <- struct{}{}
	syncOn()
}

// runnable gets whether the goroutine can be chosen at the moment and whether this means that time has to pass.
func (e *exec) runnable(g *goroutine) (ok bool, later bool) {
	if g.done {
		return false, false
	}
	if g.woken || g.op.ready(e, g) {
		return true, false
	}
	if s, isSleep := g.op.(*opSleep); isSleep {
		_ = s
		return true, true
	}
	return false, false
}

// choose picks the next goroutine; nil if there is none or the execution has to be ended.
func (e *exec) choose(cur *goroutine) *goroutine {
	if e.crash != "" || e.spin != "" {
		return nil
	}
	e.steps++
	if e.steps > e.maxSteps {
		e.spin = fmt.Sprintf("still running after %d steps", e.steps-1)
		return nil
	}
	cands := make([]*goroutine, 0, len(e.gs))
	var sleepers []*goroutine
	curOk := false
	for _, g := range e.gs {
		ok, later := e.runnable(g)
		switch {
		case ok && later:
			sleepers = append(sleepers, g)
		case ok && g == cur:
			curOk = true
		case ok:
			cands = append(cands, g)
		}
	}
	// the earliest sleeper comes first
	for i := 1; i < len(sleepers); i++ {
		for j := i; j > 0 && sleepers[j].op.(*opSleep).deadline < sleepers[j-1].op.(*opSleep).deadline; j-- {
			sleepers[j], sleepers[j-1] = sleepers[j-1], sleepers[j]
		}
	}
	if cur != nil && len(cands) > 1 {
		// round robin from the current goroutine on
		k := 0
		for k < len(cands) && cands[k].id < cur.id {
			k++
		}
		cands = append(append([]*goroutine{}, cands[k:]...), cands[:k]...)
	}
	if ExactTime {
		// only those which are due next
		n := 0
		for n < len(sleepers) && sleepers[n].op.(*opSleep).deadline == sleepers[0].op.(*opSleep).deadline {
			n++
		}
		sleepers = sleepers[:n]
	}
	if !LateTimers || len(cands) == 0 && !curOk || e.streak >= fairness {
		cands = append(cands, sleepers...)
	}
	if curOk {
		if e.streak < fairness || len(cands) == 0 {
			cands = append([]*goroutine{cur}, cands...)
		} else {
			// the others must not starve
			if len(cands) > 0 {
				cands = append(cands[:1:1], append([]*goroutine{cur}, cands[1:]...)...)
			}
		}
	}
	if ExactTime {
		// whoever has slept for long enough comes first, and goroutines start at once
		k := 0
		for i, g := range cands {
			o, ok := g.op.(*opSleep)
			_, start := g.op.(opStart)
			if start || ok && o.deadline <= e.now {
				copy(cands[k+1:i+1], cands[k:i])
				cands[k] = g
				k++
			}
		}
	}
	if e.hungry++; len(sleepers) > 0 && len(cands) > 1 && e.hungry > 3*fairness {
		// time must go on, too, even if several goroutines spin
		rest := make([]*goroutine, 0, len(cands)+1)
		rest = append(rest, sleepers[0])
		for _, g := range cands {
			if g != sleepers[0] {
				rest = append(rest, g)
			}
		}
		cands = rest
	}
	if len(cands) == 0 {
		if !e.mainDone {
			var b []string
			for _, g := range e.gs {
				if !g.done {
					b = append(b, fmt.Sprintf("goroutine %d: %s at %s", g.id, g.op.kind(), g.site))
				}
			}
			e.deadlock = strings.Join(b, "; ")
		} else {
			for _, g := range e.gs {
				if !g.done && !g.system {
					e.leaks = append(e.leaks, fmt.Sprintf("%s at %s", g.op.kind(), g.site))
				}
			}
		}
		return nil
	}
	i := 0
	if e.mainDone && cands[0].system {
		// a ticker which nobody stops would go on forever
		if e.drained++; e.drained > 100 {
			return nil
		}
	}
	if !e.mainDone {
		// what is left is only run to its end by default
		i = e.ctl.decide(len(cands))
	}
	next := cands[i]
	if ok, later := e.runnable(next); ok && later || len(sleepers) == 0 {
		e.hungry = 0
	}
	if next == cur && (len(cands) > 1 || len(sleepers) > 0) {
		e.streak++
	} else if next != cur {
		e.streak = 0
	}
	return next
}

// QuietPolls makes polls which find nothing no scheduling points.
var QuietPolls bool

// LateTimers lets time pass only if nothing else can go on (or the same goroutine has gone on for long).
var LateTimers bool

// ExactTime lets nobody sleep for longer than asked for: the clock never passes the time at which somebody has to wake up.
// (Without it any sleeper may be the next one, as if those who are due earlier were not scheduled in time.)
var ExactTime bool

// Tick is the time each poll takes.
var Tick int64

// the number of points after which a goroutine which could go on has to let the others run by default
const fairness = 400

// Choose is a decision of the environment or the runtime which has n outcomes; outcome 0 is the default.
func Choose(n int) int {
	if !Active() || n <= 1 {
		return 0
	}
	if ex.aborted {
		runtime.Goexit()
	}
	return ex.ctl.decide(n)
}

// Yield is a point at which other goroutines may run.
func Yield() {
	if !Active() {
		return
	}
	g := enter()
	g.site = site()
	point(g, opYield{})
}

// Go starts a goroutine.
func Go(f func()) { goStart(f, false) }

func goStart(f func(), system bool) *goroutine {
	if !Active() {
		go f()
		return nil
	}
	cur := enter()
	e := ex
	g := &goroutine{id: len(e.gs), gate: make(chan struct{}), op: opStart{}, system: system}
	if !system {
		g.site = site()
	}
	e.gs = append(e.gs, g)
	e.live++
	go e.body(g, f)
	if !system {
		point(cur, opYield{})
	}
	return g
}

func (e *exec) body(g *goroutine, f func()) {
	syncOff()
	<-g.gate
	syncOn()
	defer func() {
		if p := recover(); p != nil && !e.aborted {
			e.crash = fmt.Sprintf("goroutine %d panics: %v", g.id, p)
			if g.id == 0 {
				e.crash = fmt.Sprintf("panic: %v", p)
			}
			if Verbose {
				e.crash += "\n" + string(debug.Stack())
			}
		}
		if g.id == 0 {
			e.mainDone = true
		}
		e.ended(g)
	}()
	if e.aborted {
		return
	}
	g.started = true
	e.cur = g
	if s, ok := g.op.(*opSleep); ok && !s.cancelled && s.deadline > e.now {
		e.now = s.deadline
	}
	f()
}

// Verbose adds stacks to the crashes.
var Verbose bool

// Now gets the virtual time since the start of the execution, in nanoseconds.
func Now() int64 {
	if ex == nil {
		return 0
	}
	return ex.now
}

// Sleep blocks the goroutine until the virtual time has passed.
func Sleep(d int64) {
	g := enter()
	g.site = site()
	if d <= 0 {
		point(g, opYield{})
		return
	}
	point(g, &opSleep{deadline: ex.now + d})
}

// Log records an event of the execution.
func Log(what string) {
	if Active() {
		ex.events = append(ex.events, Event{ex.now, what, ex.cur.id})
	}
}

// Block blocks the goroutine forever.
func Block() {
	if !Active() {
		select {}
	}
	g := enter()
	g.site = site()
	point(g, opNever{})
}

// WaitFor blocks until the condition holds. The condition must only depend on state which changes within operations.
func WaitFor(name string, cond func() bool) {
	g := enter()
	g.site = site()
	point(g, &opWait{name, cond})
}

// Acquire and Release announce happens-before edges to the race detector.
func Acquire(p unsafe.Pointer) { hbAcquire(p) }
func Release(p unsafe.Pointer) { hbRelease(p) }

// Timer calls f in a goroutine of its own when the time has come. The result stops it: it tells whether it was still waiting.
func Timer(d int64, f func()) (stop func() bool) {
	if d < 0 {
		d = 0
	}
	o := &opSleep{deadline: ex.now + d}
	fired := false
	g := goStart(func() {
		if o.cancelled {
			return
		}
		fired = true
		f()
	}, true)
	// it sleeps from the start on
	g.op = o
	stop = func() bool {
		if fired || o.cancelled {
			return false
		}
		o.cancelled = true
		return true
	}
	return stop
}

// ----- channels -----

type item struct {
	v  interface{}
	hb *[16]byte
}

type channel struct {
	addr   uintptr
	cap    int
	buf    []item
	closed bool
	hb     [16]byte
	slots  [][16]byte // for the edges from the kth receive to the send which follows it
	sent   int
	recvd  int
}

type chanEntry struct {
	addr uintptr
	c    *channel
}

// chanTable is a hash table. (Built-in maps tell the race detector about their accesses.)
type chanTable struct {
	entries []chanEntry
	n       int
}

func (t *chanTable) get(addr uintptr) *channel {
	if len(t.entries) == 0 {
		return nil
	}
	for i := int(addr>>4) % len(t.entries); ; i = (i + 1) % len(t.entries) {
		if t.entries[i].addr == addr {
			return t.entries[i].c
		}
		if t.entries[i].addr == 0 {
			return nil
		}
	}
}

func (t *chanTable) put(c *channel) {
	if 2*(t.n+1) >= len(t.entries) {
		old := t.entries
		t.entries = make([]chanEntry, 2*len(old)+32)
		t.n = 0
		for _, e := range old {
			if e.addr != 0 {
				t.put(e.c)
			}
		}
	}
	i := int(c.addr>>4) % len(t.entries)
	for t.entries[i].addr != 0 {
		i = (i + 1) % len(t.entries)
	}
	t.entries[i] = chanEntry{c.addr, c}
	t.n++
}

// chanOf gets the state of a channel; nil for a nil channel.
func chanOf(ch interface{}) *channel {
	v := reflect.ValueOf(ch)
	addr := v.Pointer()
	if addr == 0 {
		return nil
	}
	c := ex.chans.get(addr)
	if c == nil {
		c = &channel{addr: addr, cap: v.Cap()}
		n := c.cap
		if n == 0 {
			n = 1
		}
		if n > 64 {
			n = 64
		}
		c.slots = make([][16]byte, n)
		ex.chans.put(c)
		ex.keep = append(ex.keep, ch)
	}
	return c
}

type opSelect struct {
	cases  []*selCase
	def    bool
	chosen int
	name   string
	// whether the goroutine has come to wait, so that operations which don't wait can find it
	arrived bool
}

type selCase struct {
	c    *channel
	send bool
	v    interface{}
	hb   *[16]byte
}

func (o *opSelect) kind() string { return o.name }

func (o *opSelect) ready(e *exec, g *goroutine) bool {
	return o.def || o.ready2(e, g)
}

// ready2 tells whether a case could go on.
func (o *opSelect) ready2(e *exec, g *goroutine) bool {
	for _, c := range o.cases {
		if c.isReady(e, g) {
			return true
		}
	}
	return false
}

// isReady tells whether the case could go on.
func (s *selCase) isReady(e *exec, g *goroutine) bool {
	c := s.c
	if c == nil {
		return false
	}
	if c.closed {
		return true
	}
	if s.send {
		return len(c.buf) < c.cap || (c.cap == 0 && e.partner(g, s) != nil)
	}
	return len(c.buf) > 0 || (c.cap == 0 && e.partner(g, s) != nil)
}

type partner struct {
	g *goroutine
	i int
}

// partner finds a goroutine which waits for the counterpart of the case on an unbuffered channel.
func (e *exec) partner(g *goroutine, s *selCase) *partner {
	ps := e.partners(g, s, true)
	if len(ps) == 0 {
		return nil
	}
	return &ps[0]
}

func (e *exec) partners(g *goroutine, s *selCase, first bool) (ps []partner) {
	for _, other := range e.gs {
		if other == g || other.done || other.woken {
			continue
		}
		o, ok := other.op.(*opSelect)
		if !ok || o.def {
			continue
		}
		for i, c := range o.cases {
			if c.c == s.c && c.send != s.send {
				ps = append(ps, partner{other, i})
				if first {
					return ps
				}
				break
			}
		}
	}
	return ps
}

func (c *channel) slot(n int) unsafe.Pointer { return unsafe.Pointer(&c.slots[n%len(c.slots)][0]) }

// perform does the operation of the case, which is ready.
func (s *selCase) perform(e *exec, g *goroutine) (v interface{}, ok bool) {
	c := s.c
	if s.send {
		if c.closed {
			panic(plainError("send on closed channel"))
		}
		if c.cap > 0 {
			hbAcquire(c.slot(c.sent))
			it := item{s.v, new([16]byte)}
			hbRelease(unsafe.Pointer(&it.hb[0]))
			c.buf = append(c.buf, it)
			c.sent++
			return nil, false
		}
		ps := e.partners(g, s, false)
		p := ps[e.ctl.decide(len(ps))]
		// the edge to the receiver
		p.g.recvVal, p.g.recvOk, p.g.fired, p.g.woken = s.v, true, p.i, true
		other := p.g.op.(*opSelect).cases[p.i]
		hbRelease(unsafe.Pointer(&other.hb[0]))
		hbAcquire(unsafe.Pointer(&other.hb[0]))
		return nil, false
	}
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		hbAcquire(unsafe.Pointer(&it.hb[0]))
		hbRelease(c.slot(c.recvd))
		c.recvd++
		return it.v, true
	}
	if c.closed {
		hbAcquire(unsafe.Pointer(&c.hb[0]))
		return nil, false
	}
	ps := e.partners(g, s, false)
	p := ps[e.ctl.decide(len(ps))]
	other := p.g.op.(*opSelect).cases[p.i]
	p.g.fired, p.g.woken = p.i, true
	hbAcquire(unsafe.Pointer(&other.hb[0]))
	hbRelease(unsafe.Pointer(&other.hb[0]))
	return other.v, true
}

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

// doSelect runs the operation and gets the case which was done, -1 for the default.
func doSelect(o *opSelect) (i int, v interface{}, ok bool) {
	g := enter()
	e := ex
	if o.def {
		e.now += Tick
	}
	if !o.def {
		g.site = site()
	} else if QuietPolls && !o.ready2(e, g) {
		// (now and then it is one, so that no loop runs for ever)
		if e.quiet++; e.quiet%1000 != 0 {
			return -1, nil, false
		}
	}
	for _, c := range o.cases {
		c.hb = new([16]byte)
		// what was done before must be visible to the partner which completes the operation
		hbRelease(unsafe.Pointer(&c.hb[0]))
	}
	point(g, o)
	if g.woken {
		g.woken = false
		g.op = opYield{}
		c := o.cases[g.fired]
		hbAcquire(unsafe.Pointer(&c.hb[0]))
		v, ok = g.recvVal, g.recvOk
		g.recvVal = nil
		return g.fired, v, ok
	}
	var ready []int
	for i, c := range o.cases {
		if c.isReady(e, g) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		g.op = opYield{}
		return -1, nil, false
	}
	if o.def {
		// a partner which has not come to wait yet is no partner: the default may be taken as well
		sure := false
		for _, i := range ready {
			c := o.cases[i].c
			if c.cap > 0 || c.closed {
				sure = true
			}
		}
		if !sure && e.ctl.decide(2) == 1 {
			g.op = opYield{}
			return -1, nil, false
		}
	}
	i = ready[e.ctl.decide(len(ready))]
	v, ok = o.cases[i].perform(e, g)
	g.op = opYield{}
	return i, v, ok
}

func sendAny(ch interface{}, v interface{}) {
	doSelect(&opSelect{cases: []*selCase{{c: chanOf(ch), send: true, v: v}}, name: "send"})
}

func recvAny(ch interface{}) (interface{}, bool) {
	_, v, ok := doSelect(&opSelect{cases: []*selCase{{c: chanOf(ch)}}, name: "receive"})
	return v, ok
}

func closeAny(ch interface{}) {
	g := enter()
	g.site = site()
	point(g, opYield{})
	c := chanOf(ch)
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	if c.closed {
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	hbRelease(unsafe.Pointer(&c.hb[0]))
}

func lenAny(ch interface{}) int {
	g := enter()
	g.site = site()
	point(g, opYield{})
	c := chanOf(ch)
	if c == nil {
		return 0
	}
	return len(c.buf)
}
