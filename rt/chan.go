package rt

// Chan is a channel under the control of the scheduler. The zero-pointer behaves as a nil channel.
type Chan[T any] struct {
	capa   int
	buf    []item[T]
	sendq  []*waiter[T]
	recvq  []*waiter[T]
	closed bool
	vc     VC
	slots  []VC // clocks of receives, for the k-th receive -> k+C-th send edge
	ep     Ep
}

// turn makes a channel that outlives executions usable in the next one.
func (c *Chan[T]) turn() {
	sim, exec := c.ep.Turn()
	if sim {
		c.vc, c.slots = nil, nil
		for i := range c.buf {
			c.buf[i].vc = nil
		}
	}
	if exec {
		c.sendq, c.recvq = nil, nil
		buf, closed := append([]item[T](nil), c.buf...), c.closed
		OnAbort(func() { c.buf, c.closed = buf, closed })
	}
}

type item[T any] struct {
	v  T
	vc VC
}

type waiter[T any] struct {
	v    T
	ok   bool
	sel  *selWait // shared by all cases of one select
	idx  int
	vc   VC // clock of the waiting party at enqueue
	gvc  VC // clock of the counterpart
	boom bool
}

type selWait struct {
	done bool
	idx  int
}

// MakeChan is make(chan T, n).
func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{capa: n, ep: Ep{SimNo, ExecNo}}
}

func (q *Chan[T]) purge() {
	q.turn()
	for len(q.sendq) > 0 && q.sendq[0].sel.done {
		q.sendq = q.sendq[1:]
	}
	for len(q.recvq) > 0 && q.recvq[0].sel.done {
		q.recvq = q.recvq[1:]
	}
}

func live[T any](ws []*waiter[T]) *waiter[T] {
	for _, w := range ws {
		if !w.sel.done {
			return w
		}
	}
	return nil
}

func (c *Chan[T]) canSend() bool {
	if c != nil {
		c.turn()
	}
	return c != nil && (c.closed || live(c.recvq) != nil || len(c.buf) < c.capa)
}

func (c *Chan[T]) canRecv() bool {
	if c != nil {
		c.turn()
	}
	return c != nil && (len(c.buf) > 0 || live(c.sendq) != nil || c.closed)
}

// doSend performs a send that cannot block.
func (c *Chan[T]) doSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	c.purge()
	if w := live(c.recvq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		w.v, w.ok = v, true
		w.gvc = Snapshot()
		Acquire(&w.vc) // unbuffered: the receive happens before the completion of the send
		c.purge()
		return
	}
	if len(c.slots) > 0 {
		Acquire(&c.slots[0])
		c.slots = c.slots[1:]
	}
	c.buf = append(c.buf, item[T]{v, Snapshot()})
}

func (c *Chan[T]) doRecv() (v T, ok bool) {
	c.purge()
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = append([]item[T](nil), c.buf[1:]...)
		Acquire(&it.vc)
		c.slots = append(c.slots, Snapshot())
		if w := live(c.sendq); w != nil {
			w.sel.done, w.sel.idx = true, w.idx
			c.buf = append(c.buf, item[T]{w.v, w.vc})
			w.gvc = c.slots[0] // the waiting send takes the place just freed
			c.slots = c.slots[1:]
			c.purge()
		}
		return it.v, true
	}
	if w := live(c.sendq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		Acquire(&w.vc)
		w.gvc = Snapshot()
		c.purge()
		return w.v, true
	}
	// closed
	Acquire(&c.vc)
	return v, false
}

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	Select(false, NewSend(c).With(v))
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	k := NewRecv(c)
	Select(false, k)
	return k.V
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	k := NewRecv(c)
	Select(false, k)
	return k.V, k.Ok
}

// Close is close(c).
func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if Ending() {
		return
	}
	Point("close")
	c.CloseNow()
}

// CloseNow closes without a scheduling point (used by the clock).
func (c *Chan[T]) CloseNow() {
	if c.closed {
		panic("close of closed channel")
	}
	c.turn()
	c.closed = true
	Release(&c.vc)
	c.purge()
	for _, w := range c.recvq {
		if !w.sel.done {
			w.sel.done, w.sel.idx = true, w.idx
			w.gvc = c.vc.copy()
			w.ok = false
		}
	}
	for _, w := range c.sendq {
		if !w.sel.done {
			w.sel.done, w.sel.idx = true, w.idx
			w.boom = true
		}
	}
	c.recvq, c.sendq = nil, nil
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	Point("len(chan)")
	c.turn()
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capa
}

// TrySendNow is a non-blocking send without a scheduling point, used by timers.
func (c *Chan[T]) TrySendNow(v T, vc VC) {
	c.purge()
	if w := live(c.recvq); w != nil {
		w.sel.done, w.sel.idx = true, w.idx
		w.v, w.ok = v, true
		w.gvc = vc
		c.purge()
		return
	}
	if len(c.buf) < c.capa {
		if len(c.slots) > 0 {
			c.slots = c.slots[1:]
		}
		c.buf = append(c.buf, item[T]{v, vc})
	}
}

// Drain empties the buffer (timer Reset/Stop semantics of modern Go).
func (c *Chan[T]) Drain() bool {
	had := len(c.buf) > 0
	c.buf = nil
	return had
}

// ChLen / ChCap / CloseChan are the builtins.
func ChLen[T any](c *Chan[T]) int { return c.Len() }
func ChCap[T any](c *Chan[T]) int { return c.Cap() }
func CloseChan[T any](c *Chan[T]) { c.Close() }

// Case is one case of a select statement.
type Case interface {
	ready() bool
	exec()
	enqueue(s *selWait, idx int)
	finish()
	what() string
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
	w  *waiter[T]
}

// NewRecv makes one.
func NewRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (k *RecvCase[T]) ready() bool { return k.c.canRecv() }
func (k *RecvCase[T]) exec()       { k.V, k.Ok = k.c.doRecv() }
func (k *RecvCase[T]) what() string {
	if k.c == nil {
		return "receive on nil channel"
	}
	return "channel receive"
}
func (k *RecvCase[T]) enqueue(s *selWait, idx int) {
	if k.c == nil {
		return
	}
	k.w = &waiter[T]{sel: s, idx: idx, vc: Snapshot()}
	k.c.recvq = append(k.c.recvq, k.w)
}
func (k *RecvCase[T]) finish() {
	k.V, k.Ok = k.w.v, k.w.ok
	Acquire(&k.w.gvc)
}

// SendCase is a send case.
type SendCase[T any] struct {
	c *Chan[T]
	v T
	w *waiter[T]
}

// NewSend makes one.
func NewSend[T any](c *Chan[T]) *SendCase[T] { return &SendCase[T]{c: c} }

// With sets the value.
func (k *SendCase[T]) With(v T) *SendCase[T] { k.v = v; return k }

func (k *SendCase[T]) ready() bool  { return k.c.canSend() }
func (k *SendCase[T]) exec()        { k.c.doSend(k.v) }
func (k *SendCase[T]) what() string { return "channel send" }
func (k *SendCase[T]) enqueue(s *selWait, idx int) {
	if k.c == nil {
		return
	}
	k.w = &waiter[T]{sel: s, idx: idx, v: k.v, vc: Snapshot()}
	k.c.sendq = append(k.c.sendq, k.w)
}
func (k *SendCase[T]) finish() {
	if k.w.boom {
		panic("send on closed channel")
	}
	Acquire(&k.w.gvc)
}

// Select is the select statement; the result is the index of the case taken, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if Ending() {
		panic(killPanic{})
	}
	what := "select"
	if len(cases) == 1 {
		what = cases[0].what()
	}
	Point(what)
	var ready []int
	for i, k := range cases {
		if k.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if len(ready) > 1 {
			i = ready[Deviate(len(ready))]
		}
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	sw := &selWait{}
	for i, k := range cases {
		k.enqueue(sw, i)
	}
	Block("blocked in "+what, func() bool { return sw.done })
	cases[sw.idx].finish()
	return sw.idx
}

// RangeChan starts a range over a channel.
func RangeChan[T any](c *Chan[T]) (*Chan[T], T, bool) {
	v, ok := c.Recv2()
	return c, v, ok
}

// Gosched stands for runtime.Gosched.
func Gosched(f func()) {
	if InSim() {
		Yield()
		return
	}
	f()
}
