package main

// Goroutines, channels, select, locks, timers.

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type G struct {
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	fr      *frame
	dead    bool
	blocked string
	asleep  bool
	harness bool // started by harness code
	vc      []uint32
}

func (r *Run) newG(parent *G) *G {
	g := &G{id: len(r.gs), wake: make(chan struct{}), exited: make(chan struct{})}
	r.gs = append(r.gs, g)
	if parent != nil && r.raceOn {
		g.vc = append([]uint32{}, parent.vc...)
		r.tick(parent)
	}
	r.vcAt(g, g.id)
	g.vc[g.id]++
	return g
}

func (r *Run) spawn(fn Value, args []Value, pos token.Pos, name string, harness bool) {
	r.spawned++
	if r.spawned > r.w.X.MaxGoroutines {
		panic(pathEnd{kind: endLimit, msg: "goroutine bound"})
	}
	g := r.newG(r.cur)
	g.name = name
	g.harness = harness
	go r.gMain(g, func() {
		r.callValue(nil, fn, args, pos)
	})
	r.runq = append(r.runq, g)
	r.visible("go")
}

// switchTo gives the baton to g.
func (r *Run) switchTo(g *G) {
	r.cur = g
	g.wake <- struct{}{}
}

// next picks the next goroutine to run, advancing virtual time if all are blocked.
func (r *Run) next() *G {
	for {
		if len(r.runq) > 0 {
			if r.starved != nil && len(r.runq) > 1 {
				for j, g := range r.runq {
					if g == r.starved {
						r.runq = append(append(append([]*G{}, r.runq[:j]...), r.runq[j+1:]...), g)
						break
					}
				}
			}
			i := 0
			if r.schedMode && len(r.runq) > 1 && r.delaysUsed < r.delays {
				// a delay skips the head of the queue
				for i < len(r.runq)-1 && r.delaysUsed < r.delays {
					if r.choose(2, "delay") == 0 {
						break
					}
					r.delaysUsed++
					r.schedDep = true
					i++
				}
			}
			g := r.runq[i]
			r.runq = append(append([]*G{}, r.runq[:i]...), r.runq[i+1:]...)
			if r.schedMode {
				r.schedLog = append(r.schedLog, g.name)
			}
			r.states++
			return g
		}
		if n := len(r.settlers); n > 0 {
			// everything else is blocked: the waiting harness goroutine goes on
			g := r.settlers[n-1]
			r.settlers = r.settlers[:n-1]
			if r.raceOn {
				for _, o := range r.gs {
					r.joinVC(g, o.vc)
					r.tick(o)
				}
			}
			return g
		}
		if !r.fireNext() {
			panic(&goPanic{v: IfaceV{r.P.runtimeErr, r.mkStr("all goroutines are blocked: " + r.blockedText())}, where: r.mainWhere()})
		}
	}
}

func (r *Run) blockedText() string {
	s := ""
	for _, g := range r.gs {
		if !g.dead && g.blocked != "" {
			s += fmt.Sprintf("[%s: %s] ", g.name, g.blocked)
		}
	}
	return s
}

func (r *Run) mainWhere() string {
	c := r.cur
	r.cur = r.mainG
	w := r.where()
	r.cur = c
	return w
}

// park blocks the current goroutine until made runnable.
func (r *Run) park(why string) {
	g := r.cur
	g.blocked = why
	n := r.next()
	if n != g {
		r.switchTo(n)
		<-g.wake
		if r.killed {
			panic(pathEnd{kind: endKilled})
		}
	}
	r.cur = g
	g.blocked = ""
}

func (r *Run) ready(g *G) {
	r.runq = append(r.runq, g)
}

// yield puts the current goroutine at the end of the queue.
func (r *Run) yield() {
	r.ready(r.cur)
	r.park("yield")
}

func (r *Run) exitG(g *G) {
	defer func() {
		// next may end the path
		switch x := recover().(type) {
		case nil:
		case pathEnd:
			r.finishPath(x)
		case *goPanic:
			r.violationAt("hang", r.panicText(x), x.where)
			r.finishPath(pathEnd{kind: endViolation, msg: r.panicText(x)})
		default:
			r.finishPath(pathEnd{kind: endInternal, msg: fmt.Sprint(x)})
		}
	}()
	n := r.next()
	r.switchTo(n)
}

// visible marks an operation other goroutines can observe: a preemption point.
func (r *Run) visible(what string) {
	if r.initing > 0 {
		return
	}
	if !r.schedMode || r.delaysUsed >= r.delays || len(r.runq) == 0 {
		return
	}
	if r.choose(2, "preempt") == 1 {
		r.delaysUsed++
		r.schedDep = true
		r.yield()
	}
}

// ---- channels ----

type ChanV struct {
	cap    int
	buf    []Value
	bvc    [][]uint32
	sendq  []*waiter
	recvq  []*waiter
	closed bool
	vc     []uint32
	zero   Value
	timer  *timerObj
	id     int
}

type selState struct {
	fired bool
}

type waiter struct {
	g    *G
	sel  *selState
	idx  int
	val  Value
	ok   bool
	sent bool // woken by close: panic
	who  *waiter
	got  *int
}

func (c *ChanV) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
		}
		return w
	}
	return nil
}

func (c *ChanV) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.sel != nil {
			if w.sel.fired {
				continue
			}
			w.sel.fired = true
		}
		return w
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if w.sel == nil || !w.sel.fired {
			return true
		}
	}
	return false
}

func (c *ChanV) canRecv() bool { return len(c.buf) > 0 || live(c.sendq) || c.closed }
func (c *ChanV) canSend() bool { return c.closed || len(c.buf) < c.cap || live(c.recvq) }

// doRecv receives without blocking; the caller checked canRecv.
func (r *Run) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if r.raceOn {
			r.joinVC(r.cur, c.bvc[0])
			c.bvc = c.bvc[1:]
			r.relVC(&c.vc) // buffered: k-th receive before (k+cap)-th send (approximated)
		}
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			if r.raceOn {
				c.bvc = append(c.bvc, append([]uint32{}, w.g.vc...))
				r.tick(w.g)
			}
			w.ok = true
			if w.got != nil {
				*w.got = w.idx
			}
			r.ready(w.g)
		}
		return v, true
	}
	if w := c.popSend(); w != nil {
		v := w.val
		w.ok = true
		if w.got != nil {
			*w.got = w.idx
		}
		if r.raceOn {
			r.joinVC(r.cur, w.g.vc)
			r.joinVC(w.g, r.cur.vc)
			r.tick(w.g)
			r.tick(r.cur)
		}
		r.ready(w.g)
		return v, true
	}
	// closed
	if r.raceOn {
		r.joinVC(r.cur, c.vc)
	}
	return copyVal(c.zero), false
}

// doSend sends without blocking; the caller checked canSend.
func (r *Run) doSend(c *ChanV, v Value) {
	if c.closed {
		r.throwPlain("send on closed channel")
	}
	if w := c.popRecv(); w != nil {
		w.val = v
		w.ok = true
		if w.got != nil {
			*w.got = w.idx
		}
		if r.raceOn {
			r.joinVC(w.g, r.cur.vc)
			if c.cap == 0 {
				r.joinVC(r.cur, w.g.vc)
			}
			r.tick(r.cur)
			r.tick(w.g)
		}
		r.ready(w.g)
		return
	}
	c.buf = append(c.buf, v)
	if r.raceOn {
		r.joinVC(r.cur, c.vc)
		c.bvc = append(c.bvc, append([]uint32{}, r.cur.vc...))
		r.tick(r.cur)
	}
}

func (r *Run) throwPlain(msg string) {
	panic(&goPanic{v: IfaceV{r.P.runtimeErr, r.mkStr(msg)}, where: r.where()})
}

func (r *Run) chanSend(cv Value, v Value) {
	c, ok := cv.(*ChanV)
	if !ok {
		r.unsupported("send on %s", descr(cv))
	}
	r.visible("send")
	if c == nil {
		r.park("send on nil channel")
	}
	v = copyVal(v)
	if c.canSend() {
		r.doSend(c, v)
		return
	}
	w := &waiter{g: r.cur, val: v}
	c.sendq = append(c.sendq, w)
	r.park("chan send" + r.whereShort())
	if w.sent {
		r.throwPlain("send on closed channel")
	}
}

func (r *Run) whereShort() string {
	if r.cur.fr == nil {
		return ""
	}
	return " in " + r.cur.fr.fn.String()
}

func (r *Run) chanRecv(cv Value) (Value, bool) {
	c, ok := cv.(*ChanV)
	if !ok {
		r.unsupported("receive on %s", descr(cv))
	}
	r.visible("recv")
	if c == nil {
		r.park("receive on nil channel" + r.whereShort())
	}
	if c.canRecv() {
		return r.doRecv(c)
	}
	w := &waiter{g: r.cur}
	c.recvq = append(c.recvq, w)
	r.park("chan receive" + r.whereShort())
	if !w.ok {
		return copyVal(c.zero), false
	}
	return w.val, true
}

func (r *Run) chanClose(cv Value) {
	c, ok := cv.(*ChanV)
	if !ok {
		r.unsupported("close of %s", descr(cv))
	}
	r.visible("close")
	if c == nil {
		r.throwPlain("close of nil channel")
	}
	if c.closed {
		r.throwPlain("close of closed channel")
	}
	c.closed = true
	if r.raceOn {
		r.relVC(&c.vc)
		r.tick(r.cur)
	}
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.ok = false
		w.val = copyVal(c.zero)
		if w.got != nil {
			*w.got = w.idx
		}
		if r.raceOn {
			r.joinVC(w.g, c.vc)
		}
		r.ready(w.g)
	}
	for {
		w := c.popSend()
		if w == nil {
			break
		}
		w.sent = true
		if w.got != nil {
			*w.got = w.idx
		}
		r.ready(w.g)
	}
}

type selCase struct {
	send bool
	c    *ChanV
	v    Value
}

// selectOp returns the index of the chosen case, the received value and ok.
func (r *Run) selectOp(cases []selCase, blocking bool) (int, Value, bool) {
	r.visible("select")
	var rdy []int
	for i, cs := range cases {
		if cs.c == nil {
			continue
		}
		if cs.send && cs.c.canSend() || !cs.send && cs.c.canRecv() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[0]
		if len(rdy) > 1 {
			if r.w.selForks(r) {
				k = rdy[r.choose(len(rdy), "select")]
			}
		}
		cs := cases[k]
		if cs.send {
			r.doSend(cs.c, copyVal(cs.v))
			return k, nil, false
		}
		v, ok := r.doRecv(cs.c)
		return k, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	got := -1
	ws := make([]*waiter, len(cases))
	for i, cs := range cases {
		if cs.c == nil {
			continue
		}
		w := &waiter{g: r.cur, sel: st, idx: i, got: &got}
		ws[i] = w
		if cs.send {
			w.val = copyVal(cs.v)
			cs.c.sendq = append(cs.c.sendq, w)
		} else {
			cs.c.recvq = append(cs.c.recvq, w)
		}
	}
	r.park("select" + r.whereShort())
	for i, cs := range cases { // remove stale waiters
		if cs.c != nil {
			if cs.send {
				cs.c.sendq = without(cs.c.sendq, ws[i])
			} else {
				cs.c.recvq = without(cs.c.recvq, ws[i])
			}
		}
	}
	w := ws[got]
	if w.sent {
		r.throwPlain("send on closed channel")
	}
	if cases[got].send {
		return got, nil, false
	}
	if !w.ok {
		return got, copyVal(cases[got].c.zero), false
	}
	return got, w.val, true
}

func without(q []*waiter, w *waiter) []*waiter {
	for i, x := range q {
		if x == w {
			return append(append([]*waiter{}, q[:i]...), q[i+1:]...)
		}
	}
	return q
}

// selForks says whether a select with several ready cases forks over them.
func (w *Worker) selForks(r *Run) bool {
	n, _ := r.extra["selforks"].(int)
	if n <= 0 {
		return false
	}
	r.extra["selforks"] = n - 1
	r.schedDep = true
	return true
}

// ---- locks ----

type syncObj struct {
	locked  bool
	owner   *G
	readers int
	wq      []*lockWaiter
	vc      []uint32 // released by writers
	rvc     []uint32 // released by readers
	count   int      // WaitGroup
	waiters []*G
}

type lockWaiter struct {
	g    *G
	read bool
}

func (r *Run) sync(p Value) *syncObj {
	s, ok := p.(*Value)
	if !ok || s == nil {
		r.throw("invalid memory address or nil pointer dereference")
	}
	o := r.syncObjs[s]
	if o == nil {
		o = &syncObj{}
		r.syncObjs[s] = o
	}
	return o
}

func (r *Run) lock(p Value, read bool) {
	r.visible("lock")
	o := r.sync(p)
	if read {
		if !o.locked && !o.writerWaiting() {
			o.readers++
		} else {
			o.wq = append(o.wq, &lockWaiter{r.cur, true})
			r.park("RLock" + r.whereShort())
		}
	} else {
		if !o.locked && o.readers == 0 {
			o.locked = true
			o.owner = r.cur
		} else {
			o.wq = append(o.wq, &lockWaiter{r.cur, false})
			r.park("Lock" + r.whereShort())
		}
	}
	if r.raceOn {
		r.joinVC(r.cur, o.vc)
		if !read {
			r.joinVC(r.cur, o.rvc)
		}
	}
}

func (o *syncObj) writerWaiting() bool {
	for _, w := range o.wq {
		if !w.read {
			return true
		}
	}
	return false
}

func (r *Run) tryLock(p Value, read bool) bool {
	r.visible("trylock")
	o := r.sync(p)
	if read {
		if o.locked || o.writerWaiting() {
			return false
		}
		o.readers++
	} else {
		if o.locked || o.readers > 0 {
			return false
		}
		o.locked = true
	}
	if r.raceOn {
		r.joinVC(r.cur, o.vc)
		if !read {
			r.joinVC(r.cur, o.rvc)
		}
	}
	return true
}

func (r *Run) unlock(p Value, read bool) {
	o := r.sync(p)
	if read {
		if o.readers == 0 {
			r.throwPlain("sync: RUnlock of unlocked RWMutex")
		}
		if r.raceOn {
			r.relVC(&o.rvc)
			r.tick(r.cur)
		}
		o.readers--
	} else {
		if !o.locked {
			r.throwPlain("sync: unlock of unlocked mutex")
		}
		if r.raceOn {
			r.relVC(&o.vc)
			r.tick(r.cur)
		}
		o.locked = false
		o.owner = nil
	}
	for len(o.wq) > 0 {
		w := o.wq[0]
		if w.read {
			if o.locked {
				break
			}
			o.readers++
		} else {
			if o.locked || o.readers > 0 {
				break
			}
			o.locked = true
			o.owner = w.g
		}
		o.wq = o.wq[1:]
		r.ready(w.g)
	}
	r.visible("unlock")
}

type onceObj struct {
	done, running bool
	waiters       []*G
	vc            []uint32
}

func (r *Run) onceDo(p Value, fn func()) {
	s, ok := p.(*Value)
	if !ok || s == nil {
		r.throw("invalid memory address or nil pointer dereference")
	}
	r.visible("once")
	o := r.onces[s]
	if o == nil {
		o = &onceObj{}
		r.onces[s] = o
	}
	if o.done {
		if r.raceOn {
			r.joinVC(r.cur, o.vc)
		}
		return
	}
	if o.running {
		o.waiters = append(o.waiters, r.cur)
		r.park("Once.Do")
		if r.raceOn {
			r.joinVC(r.cur, o.vc)
		}
		return
	}
	o.running = true
	defer func() {
		o.done = true
		if r.raceOn {
			r.relVC(&o.vc)
			r.tick(r.cur)
		}
		for _, g := range o.waiters {
			r.ready(g)
		}
		o.waiters = nil
	}()
	fn()
}

func (r *Run) wgAdd(p Value, n int) {
	r.visible("wg")
	o := r.sync(p)
	o.count += n
	if o.count < 0 {
		r.throwPlain("sync: negative WaitGroup counter")
	}
	if r.raceOn && n < 0 {
		r.relVC(&o.vc)
		r.tick(r.cur)
	}
	if o.count == 0 {
		for _, g := range o.waiters {
			if r.raceOn {
				r.joinVC(g, o.vc)
			}
			r.ready(g)
		}
		o.waiters = nil
	}
}

func (r *Run) wgWait(p Value) {
	r.visible("wg")
	o := r.sync(p)
	if o.count > 0 {
		o.waiters = append(o.waiters, r.cur)
		r.park("WaitGroup.Wait" + r.whereShort())
	}
	if r.raceOn {
		r.joinVC(r.cur, o.vc)
	}
}

// ---- virtual time ----

type timerObj struct {
	when   *Term // nanoseconds on the virtual clock
	period *Term // nil: one-shot
	fire   func(r *Run)
	active bool
	seq    int
	slot   *Value // *time.Timer / *time.Ticker
	ch     *ChanV
	sleep  bool
	main   bool // the harness's own sleep
}

func (r *Run) addTimer(t *timerObj) {
	t.active = true
	t.seq = r.timerSeq
	r.timerSeq++
	r.timers = append(r.timers, t)
}

func (r *Run) delTimer(t *timerObj) bool {
	was := t.active
	t.active = false
	for i, x := range r.timers {
		if x == t {
			r.timers = append(append([]*timerObj{}, r.timers[:i]...), r.timers[i+1:]...)
			break
		}
	}
	return was
}

// fireNext advances the clock to the next timer and fires it.
func (r *Run) fireNext() bool {
	if len(r.timers) == 0 {
		return false
	}
	r.timerFires++
	if r.timerFires > r.w.X.MaxFires {
		if !r.mainG.asleep && r.mainG.blocked != "" {
			panic(&goPanic{v: IfaceV{r.P.runtimeErr, r.mkStr("main is blocked for ever: " + r.blockedText())}, where: r.mainWhere()})
		}
		panic(pathEnd{kind: endLimit, msg: "timer event bound"})
	}
	best := r.timers[0]
	for _, t := range r.timers[1:] {
		// ties: the earlier registered one fires first
		if r.branch(r.c.Slt(t.when, best.when)) {
			best = t
		}
	}
	r.clock = best.when
	// timers due at the very same instant fire together, the harness's own sleep last
	var batch, last []*timerObj
	for _, t := range r.timers {
		if t == best || r.c.Eq(t.when, best.when).IsTrue() {
			if t.main {
				last = append(last, t)
			} else {
				batch = append(batch, t)
			}
		}
	}
	if n, _ := r.extra["coincide"].(int); n > 0 && len(batch) > 1 {
		r.extra["coincide"] = n - 1
		if r.choose(2, "order") == 1 {
			r.schedDep = true
			for i, j := 0, len(batch)-1; i < j; i, j = i+1, j-1 {
				batch[i], batch[j] = batch[j], batch[i]
			}
		}
	}
	batch = append(batch, last...)
	for _, t := range batch {
		r.fireTimer(t)
	}
	return true
}

func (r *Run) fireTimer(best *timerObj) {
	if best.period != nil {
		best.when = r.c.Bin(OAdd, best.when, best.period)
		// re-armed timers go behind the ones registered meanwhile
		r.timers = append(removeTimer(r.timers, best), best)
	} else {
		r.delTimer(best)
	}
	best.fire(r)
}

func removeTimer(q []*timerObj, t *timerObj) []*timerObj {
	n := make([]*timerObj, 0, len(q))
	for _, x := range q {
		if x != t {
			n = append(n, x)
		}
	}
	return n
}

func (r *Run) sleep(d *Term) {
	g := r.cur
	if !r.branch(r.c.Slt(r.c.Int(0), d)) {
		r.yield()
		return
	}
	g.asleep = true
	r.addTimer(&timerObj{when: r.c.Bin(OAdd, r.clock, d), sleep: true, main: g == r.mainG, fire: func(r *Run) { r.ready(g) }})
	r.park("sleep")
	g.asleep = false
}

// ---- vector clocks / races ----

type raceCell struct {
	wg, wc int // last writer and its clock
	wpos   string
	reads  map[int]int
	rpos   map[int]string
}

type raceState struct {
	cells map[interface{}]*raceCell
	found map[string]bool
}

func (r *Run) vcAt(g *G, i int) {
	for len(g.vc) <= i {
		g.vc = append(g.vc, 0)
	}
}

func (r *Run) tick(g *G) {
	r.vcAt(g, g.id)
	g.vc[g.id]++
}

func (r *Run) joinVC(g *G, vc []uint32) {
	for i, x := range vc {
		r.vcAt(g, i)
		if x > g.vc[i] {
			g.vc[i] = x
		}
	}
}

func (r *Run) relVC(dst *[]uint32) {
	for i, x := range r.cur.vc {
		for len(*dst) <= i {
			*dst = append(*dst, 0)
		}
		if x > (*dst)[i] {
			(*dst)[i] = x
		}
	}
}

func (r *Run) hb(g, clk int) bool {
	return g == r.cur.id || g < len(r.cur.vc) && int(r.cur.vc[g]) >= clk
}

func (r *Run) access(loc interface{}, write bool, fr *frame) {
	if r.races == nil {
		return
	}
	c := r.races.cells[loc]
	if c == nil {
		c = &raceCell{wg: -1}
		r.races.cells[loc] = c
	}
	here := ""
	if fr != nil {
		if fr.fn.Pkg != nil && r.P.isHarness(fr.fn.Pkg.Pkg.Path()) {
			here = "harness "
		}
		here += fr.fn.String() + " " + r.P.posn(fr.pos)
	}
	if c.wg >= 0 && !r.hb(c.wg, c.wc) {
		r.raceFound(here, write, c.wpos, true)
	}
	if write {
		for g, clk := range c.reads {
			if !r.hb(g, clk) {
				r.raceFound(here, true, c.rpos[g], false)
			}
		}
		c.wg, c.wc, c.wpos = r.cur.id, int(r.cur.vc[r.cur.id]), here
		c.reads, c.rpos = nil, nil
	} else {
		if c.reads == nil {
			c.reads = map[int]int{}
			c.rpos = map[int]string{}
		}
		c.reads[r.cur.id] = int(r.cur.vc[r.cur.id])
		c.rpos[r.cur.id] = here
	}
}

func (r *Run) raceFound(here string, write bool, other string, otherWrite bool) {
	if strings.HasPrefix(here, "harness ") && strings.HasPrefix(other, "harness ") {
		return // the harness's own bookkeeping
	}
	k := here + "|" + other
	if r.races.found[k] {
		return
	}
	r.races.found[k] = true
	wd := func(b bool) string {
		if b {
			return "write"
		}
		return "read"
	}
	if len(r.dec) < len(r.prefix) {
		return // already reported when the prefix was explored
	}
	r.violationAt("race", fmt.Sprintf("data race: %s at %s / %s at %s", wd(write), here, wd(otherWrite), other), r.where())
}

var _ = ssa.NewProgram
