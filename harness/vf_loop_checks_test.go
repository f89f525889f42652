package termemu

// Checks of C15: the lock discipline of callbacks and of the read loop, and
// concurrent use of the API while the loop runs. Built with the race detector.

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// vfProbe is a frontend that, in every callback, makes sure the lock is held and
// uses the read accessors.
type vfProbe struct {
	f    *vfFront
	tty  *TTYFrontend // forwarded to, if set
	slow map[int]bool // callbacks that take longer than the mutex's starvation limit
	n    int
	bad  string
	deep bool // read the screen in every callback
}

func (p *vfProbe) enter(name string) {
	p.n++
	t := p.f.w.t
	if t == nil {
		return
	}
	if t.TryLock() {
		t.Unlock()
		if p.bad == "" {
			p.bad = "the terminal is not locked in " + name
		}
	}
	if p.deep && p.bad == "" {
		if msg := vfReadAll(t, p.f.w.mode); msg != "" {
			p.bad = fmt.Sprintf("in %s: %s", name, msg)
		}
	}
	if p.slow[p.n] {
		time.Sleep(1200 * time.Microsecond)
	}
}

// vfReadAll uses the read accessors on the whole screen. The terminal is locked.
func vfReadAll(t *terminal, mode TextReadMode) string {
	w, h := t.Size()
	if w < 1 || h < 1 {
		return fmt.Sprintf("the size is %dx%d", w, h)
	}
	lines := t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
	if len(lines) != h {
		return fmt.Sprintf("StyledLines of the whole screen returned %d of %d rows", len(lines), h)
	}
	for y := 0; y < h; y++ {
		row, err := vfLineCells(t.StyledLine(0, w, y), mode)
		if err == nil && len(row) != w {
			err = fmt.Errorf("runs sum to %d cells of %d", len(row), w)
		}
		if err != nil {
			return fmt.Sprintf("row %d: %v", y, err)
		}
		if all, err := vfLineCells(lines[y], mode); err != nil || len(all) != w {
			return fmt.Sprintf("row %d of StyledLines: %d cells, %v", y, len(all), err)
		}
		_ = t.Line(y)
		_ = t.ANSILine(y)
	}
	return ""
}

func (p *vfProbe) Bell() {
	p.enter("Bell")
	p.f.Bell()
	if p.tty != nil {
		p.tty.Bell()
	}
}
func (p *vfProbe) RegionChanged(r Region, c ChangeReason) {
	p.enter("RegionChanged")
	p.f.RegionChanged(r, c)
	if p.tty != nil {
		p.tty.RegionChanged(r, c)
	}
}
func (p *vfProbe) ScrollLines(n int) {
	p.enter("ScrollLines")
	p.f.ScrollLines(n)
	if p.tty != nil {
		p.tty.ScrollLines(n)
	}
}
func (p *vfProbe) CursorMoved(x, y int) {
	p.enter("CursorMoved")
	p.f.CursorMoved(x, y)
	if p.tty != nil {
		p.tty.CursorMoved(x, y)
	}
}
func (p *vfProbe) StyleChanged(s Style) {
	p.enter("StyleChanged")
	p.f.StyleChanged(s)
	if p.tty != nil {
		p.tty.StyleChanged(s)
	}
}
func (p *vfProbe) ViewFlagChanged(v ViewFlag, b bool) {
	p.enter("ViewFlagChanged")
	p.f.ViewFlagChanged(v, b)
	if p.tty != nil {
		p.tty.ViewFlagChanged(v, b)
	}
}
func (p *vfProbe) ViewIntChanged(v ViewInt, n int) {
	p.enter("ViewIntChanged")
	p.f.ViewIntChanged(v, n)
	if p.tty != nil {
		p.tty.ViewIntChanged(v, n)
	}
}
func (p *vfProbe) ViewStringChanged(v ViewString, s string) {
	p.enter("ViewStringChanged")
	p.f.ViewStringChanged(v, s)
	if p.tty != nil {
		p.tty.ViewStringChanged(v, s)
	}
}

// vfLoopWorld makes a terminal with a probing frontend and no read loop.
func vfLoopWorld(cfg vfCfg, be Backend) (*vfWorld, *vfProbe) {
	w := &vfWorld{cfg: cfg, mode: cfg.mode(), src: &vfSrc{}}
	w.f = &vfFront{w: w, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
	p := &vfProbe{f: w.f, deep: true}
	if be == nil {
		w.be = &vfBackend{src: w.src}
		be = w.be
	}
	w.t = vfNewTerminal(p, be, cfg)
	w.gr = NewGraphemeReaderWithMode(w.src, w.mode)
	if err := w.t.Resize(cfg.W, cfg.H); err != nil {
		panic(err)
	}
	w.f.reset()
	return w, p
}

// vfRunCallbacks runs a history without a loop: every callback must be made with
// the lock held, every read without it, and nothing of a control sequence may
// show before it is complete.
func vfRunCallbacks(pr vfProg, rep *vfRep) string {
	w, p := vfLoopWorld(pr.Cfg, nil)
	bad := ""
	var before *vfSnap // at the start of an operation; nil if unknown
	mid := 0
	w.src.probe = func() {
		if bad != "" {
			return
		}
		if !w.t.TryLock() {
			bad = "the terminal is locked while the loop waits for more input"
			return
		}
		defer w.t.Unlock()
		if before == nil {
			return
		}
		mid++
		now, err := w.snap()
		if err != nil {
			bad = "while more input is awaited: " + err.Error()
		} else if d := vfDiffSnap(before, now); d != "" {
			bad = "part of a control sequence took effect before its end: " + d
		}
	}
	w.onResize = func(op vfOp) error {
		if bad != "" {
			return nil
		}
		before = nil
		return w.t.Resize(op.W, op.H)
	}
	for i, op := range pr.Ops {
		before = nil
		switch op.K {
		case "csi", "esc", "osc", "dcs":
			if len(w.late) == 0 && w.gr.Buffered() == 0 {
				before, _ = w.snap()
			}
		}
		late := len(w.late) > 0
		n := p.n
		err := w.do(op)
		if bad != "" {
			return fmt.Sprintf("op %d (%v): %s", i, op, bad)
		}
		if p.bad != "" {
			return fmt.Sprintf("op %d (%v): %s", i, op, p.bad)
		}
		if err != nil {
			return "" // another property's business
		}
		if !w.t.TryLock() {
			return fmt.Sprintf("op %d (%v): the terminal stays locked", i, op)
		}
		w.t.Unlock()
		if p.n > n {
			rep.hit("callbacks")
			rep.labels["callbacks"] += p.n - n - 1
		}
		if late && op.K != "resize" {
			rep.hit("resize while the parser waits")
		}
	}
	if mid > 0 {
		rep.hit("reads within a control sequence")
		rep.labels["reads within a control sequence"] += mid - 1
	}
	return ""
}

// ---------------------------------------------------------------- the loop

// vfAct is something an API user does while the loop runs.
type vfAct struct {
	K  string // read write key mouse resize tee attach detach focus blur pause
	At int    `json:",omitempty"` // boundaries: before which read
	W  int    `json:",omitempty"`
	H  int    `json:",omitempty"`
}

type vfLoop struct {
	Cfg   vfCfg
	Ops   []vfOp
	Reads []int     // sizes of the reads, in turn
	Acts  [][]vfAct // one list for each goroutine
	Slow  []int     `json:",omitempty"` // numbers of slow callbacks
	TTY   bool      `json:",omitempty"` // a TTYFrontend is attached
	Block bool      `json:",omitempty"` // the application takes no input before all its output is read
}

func (c *vfLoop) stream() []byte {
	var b []byte
	for _, o := range c.Ops {
		b = append(b, o.bytes()...)
	}
	return b
}

// vfLoopBackend hands out a stream in reads of given sizes.
type vfLoopBackend struct {
	data   []byte
	pos    int
	sizes  []int
	n      int
	before func(i, pos int) // runs in Read number i, at offset pos
	pause  bool             // let others run in between
	ended  chan struct{}    // if set, writes of the API users wait for the end of the stream
	users  sync.Map         // ids of the goroutines that use the API
	once   sync.Once

	mu    sync.Mutex
	out   []byte
	size  Pos
	sizeN int
}

func (b *vfLoopBackend) Read(p []byte) (int, error) {
	i := b.n
	b.n++
	if b.before != nil {
		b.before(i, b.pos)
	}
	if b.pause {
		runtime.Gosched()
	}
	if b.pos >= len(b.data) {
		if b.ended != nil {
			b.once.Do(func() { close(b.ended) })
		}
		return 0, io.EOF
	}
	n := len(b.data)
	if len(b.sizes) > 0 {
		n = b.sizes[i%len(b.sizes)]
	}
	n = copy(p, b.data[b.pos:min(b.pos+n, len(b.data))])
	b.pos += n
	return n, nil
}

// vfGoroutine returns the id of the goroutine.
func vfGoroutine() string {
	b := make([]byte, 40)
	f := strings.Fields(string(b[:runtime.Stack(b, false)]))
	return f[1]
}

func (b *vfLoopBackend) Write(p []byte) (int, error) {
	if b.ended != nil {
		if _, ok := b.users.Load(vfGoroutine()); ok {
			<-b.ended
		}
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.out = append(b.out, p...)
	return len(p), nil
}

func (b *vfLoopBackend) SetSize(w, h int) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.size = Pos{X: w, Y: h}
	b.sizeN++
	return nil
}

// vfSyncWriter is a writer for several goroutines.
type vfSyncWriter struct {
	mu sync.Mutex
	b  []byte
}

func (w *vfSyncWriter) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b = append(w.b, p...)
	return len(p), nil
}

func vfHashSnap(s *vfSnap) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, s.Act, s.Flags, s.Ints)
	for _, v := range s.Strs {
		fmt.Fprintf(h, "%q", v)
	}
	for _, c := range s.Scr {
		fmt.Fprint(h, c.W, c.H, c.X, c.Y, c.Top, c.Bot, c.Wrap, c.St)
		for _, row := range c.C {
			for _, x := range row {
				_, _ = h.Write([]byte(x.T))
				fmt.Fprint(h, x.W, x.S)
			}
		}
	}
	return h.Sum64()
}

// vfPrefixStates runs the stream byte by byte, without a loop, and returns for
// every state at which lengths it occurs.
func vfPrefixStates(cfg vfCfg, b []byte) (map[uint64][]int, *vfSnap, error) {
	w := vfNewWorld(cfg, false)
	at := map[uint64][]int{}
	var bad error
	add := func(k int) *vfSnap {
		s, err := w.snap()
		if err != nil {
			bad = err
			return nil
		}
		h := vfHashSnap(s)
		at[h] = append(at[h], k)
		return s
	}
	w.src.probe = func() {
		if bad == nil && w.src.left > 0 {
			add(len(b) - w.src.left)
		}
	}
	cuts := make([]int, len(b))
	for i := range cuts {
		cuts[i] = i
	}
	if err := w.feed(b, cuts); err != nil {
		return nil, nil, err
	}
	w.src.probe = nil
	last := add(len(b))
	return at, last, bad
}

// vfStuck describes where the goroutines of the code under test are.
func vfStuck() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		var fr []string
		for _, l := range strings.Split(g, "\n") {
			if strings.HasPrefix(l, "\t") && strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "vf_") && !strings.Contains(l, "/testing/") && !strings.Contains(l, "rapid@") && !strings.Contains(l, "/sync/") {
				fr = append(fr, strings.TrimSpace(l))
			}
		}
		if len(fr) > 0 {
			out = append(out, strings.Join(fr, " < "))
		}
	}
	return strings.Join(out, "\n")
}

var vfPatience = time.Duration(vfEnvInt("VF_PATIENCE", 40)) * time.Second

// vfAwait waits for done; it fails after a long time.
func vfAwait(done <-chan struct{}, what string) string {
	tm := time.NewTimer(vfPatience)
	defer tm.Stop()
	select {
	case <-done:
		return ""
	case <-tm.C:
		return fmt.Sprintf("%s is stuck:\n%s", what, vfStuck())
	}
}

// vfLoopRun is a running case.
type vfLoopRun struct {
	c       *vfLoop
	w       *vfWorld
	p       *vfProbe
	be      *vfLoopBackend
	tee     *TeeBackend
	tees    [2]vfSyncWriter
	tty     *TTYFrontend
	ttyOut  bytes.Buffer     // the TTYFrontend writes only under its lock
	states  map[uint64][]int // nil when the size changes
	sizes   map[Pos]bool
	wrote   [16]atomic.Int64

	mu    sync.Mutex
	msg   string
	lines []Line // returned by a locked read before
	was   []Line // a copy of them
}

func (r *vfLoopRun) fail(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.msg == "" {
		r.msg = fmt.Sprintf(format, args...)
	}
}

func (r *vfLoopRun) failed() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.msg
}

func vfCopyLines(lines []Line) []Line {
	out := make([]Line, len(lines))
	for i, l := range lines {
		out[i] = l
		out[i].Spans = append([]Span(nil), l.Spans...)
	}
	return out
}

// keep keeps the result of a locked read until the next one, and returns whether
// that of the one before is still the same.
func (r *vfLoopRun) keep(lines, was []Line) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	ok := reflect.DeepEqual(vfCopyLines(r.lines), vfCopyLines(r.was))
	r.lines, r.was = lines, was
	return ok
}

// read takes the lock and looks at everything. last is the least length of the
// stream that explains what this reader saw before.
func (r *vfLoopRun) read(last int) int {
	t := r.w.t
	var snap *vfSnap
	var err error
	msg := ""
	var lines, was []Line
	t.WithLock(func() {
		if snap, err = r.w.snap(); err == nil {
			msg = vfReadAll(t, r.w.mode)
		}
		if err == nil && msg == "" {
			w, h := t.Size()
			lines = t.StyledLines(Region{X: 0, Y: 0, X2: w, Y2: h})
			for y := 0; y < h; y++ {
				lines = append(lines, t.StyledLine(0, w, y))
			}
			was = vfCopyLines(lines)
		}
	})
	if !r.keep(lines, was) {
		r.fail("the lines which a locked read returned changed afterwards")
		return last
	}
	if err != nil {
		r.fail("a reader holding the lock sees a broken state: %v", err)
		return last
	}
	if msg != "" {
		r.fail("a reader holding the lock sees a broken state: %s", msg)
		return last
	}
	a, b := snap.Scr[0], snap.Scr[1]
	if a.W != b.W || a.H != b.H || !r.sizes[Pos{X: a.W, Y: a.H}] {
		r.fail("a reader holding the lock sees a half-done Resize: main screen %dx%d, alternate screen %dx%d", a.W, a.H, b.W, b.H)
		return last
	}
	if r.states == nil {
		return last
	}
	for _, k := range r.states[vfHashSnap(snap)] {
		if k >= last {
			return k
		}
	}
	r.fail("a reader holding the lock sees a state which no prefix of the stream of at least %d bytes has:\n%s", last, snap.act().dump())
	return last
}

func (r *vfLoopRun) act(g int, a vfAct, last int) int {
	t := r.w.t
	switch a.K {
	case "read":
		return r.read(last)
	case "write":
		// each goroutine writes a byte of its own
		b := make([]byte, a.W)
		for i := range b {
			b[i] = byte(0xf0 + g)
		}
		n, err := t.Write(b)
		if n != len(b) || err != nil {
			r.fail("Write of %d bytes: %d, %v", len(b), n, err)
		}
		r.wrote[g].Add(int64(len(b)))
	case "key":
		evs := []KeyEvent{{Code: KeyUp}, {Code: KeyRune, Rune: 'a', Mod: ModCtrl}, {Code: KeyEnter}, {Code: KeyRune, Rune: 'x'}, {Code: KeyF1, Mod: ModShift}}
		if _, err := t.SendKey(evs[a.W%len(evs)]); err != nil {
			r.fail("SendKey: %v", err)
		}
	case "mouse":
		if err := t.SendMouseRaw(MouseBtn(a.W%3), a.H%2 == 0, 0, 1+a.W, 1+a.H); err != nil {
			r.fail("SendMouseRaw: %v", err)
		}
	case "resize":
		if err := t.Resize(a.W, a.H); err != nil {
			r.fail("Resize: %v", err)
		}
	case "tee":
		if r.tee != nil {
			r.tee.SetTee(&r.tees[a.W%2])
		}
	case "attach":
		if r.tty != nil {
			r.tty.Attach(Region{X: 0, Y: 0, X2: 1 + a.W, Y2: 1 + a.H})
		}
	case "detach":
		if r.tty != nil {
			r.tty.Detach()
		}
	case "focus":
		if r.tty != nil {
			r.tty.SetFocus(true)
		}
	case "blur":
		if r.tty != nil {
			r.tty.SetFocus(false)
		}
	case "pause":
		if a.W > 3 {
			time.Sleep(time.Duration(a.W) * 10 * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
	return last
}

func vfNewLoopRun(c *vfLoop) (*vfLoopRun, bool) {
	r := &vfLoopRun{c: c, sizes: map[Pos]bool{{X: c.Cfg.W, Y: c.Cfg.H}: true}}
	fixed := true
	teed := false
	for _, l := range c.Acts {
		for _, a := range l {
			if a.K == "resize" {
				r.sizes[Pos{X: a.W, Y: a.H}] = true
				fixed = false
			}
			teed = teed || a.K == "tee"
		}
	}
	data := c.stream()
	if fixed {
		var err error
		if r.states, _, err = vfPrefixStates(c.Cfg, data); err != nil {
			return nil, false // another property's business
		}
	}
	r.be = &vfLoopBackend{data: data, sizes: c.Reads}
	var be Backend = r.be
	if teed {
		r.tee = NewTeeBackend(r.be)
		be = r.tee
	}
	if c.Block {
		// The loop itself would wait if it had to reply.
		dry := vfNewWorld(c.Cfg, false)
		if err := dry.feed(data, nil); err != nil {
			return nil, false
		}
		if dry.take() == "" {
			r.be.ended = make(chan struct{})
		}
	}
	r.w, r.p = vfLoopWorld(c.Cfg, be)
	r.p.n = 0
	r.p.slow = map[int]bool{}
	for _, n := range c.Slow {
		r.p.slow[n] = true
	}
	if c.TTY {
		r.tty = NewTTYFrontend(r.w.t, &r.ttyOut)
		r.p.tty = r.tty
	}
	return r, true
}

// finish checks the state after the loop ended.
func (r *vfLoopRun) finish() string {
	if msg := r.failed(); msg != "" {
		return msg
	}
	if !r.w.t.TryLock() {
		return "the terminal stays locked after the loop has ended"
	}
	r.w.t.Unlock()
	if r.p.bad != "" {
		return r.p.bad
	}
	if r.be.pos != len(r.be.data) {
		return fmt.Sprintf("the loop ended after %d of %d bytes", r.be.pos, len(r.be.data))
	}
	r.read(len(r.be.data))
	if msg := r.failed(); msg != "" {
		return "after the loop has ended: " + msg
	}
	var n [16]int64
	for _, b := range r.be.out {
		if b >= 0xf0 {
			n[b-0xf0]++
		}
	}
	for g := range r.wrote {
		if n[g] != r.wrote[g].Load() {
			return fmt.Sprintf("%d of the %d bytes goroutine %d wrote arrived", n[g], r.wrote[g].Load(), g)
		}
	}
	return ""
}

// vfRunBoundaries lets other goroutines use the API at every read of the loop,
// to completion.
func vfRunBoundaries(cc any, rep *vfRep) string {
	c := cc.(vfLoop)
	r, ok := vfNewLoopRun(&c)
	if !ok {
		return ""
	}
	acts := c.Acts[0]
	last := 0
	r.be.before = func(i, pos int) {
		if r.failed() != "" {
			return
		}
		if !r.w.t.TryLock() {
			r.fail("the terminal is locked while the loop reads at byte %d", pos)
			return
		}
		r.w.t.Unlock()
		done := make(chan struct{})
		go func() {
			defer close(done)
			last = r.read(last)
			for len(acts) > 0 && acts[0].At <= i {
				last = r.act(0, acts[0], last)
				acts = acts[1:]
			}
		}()
		if msg := vfAwait(done, fmt.Sprintf("the API while the loop waits for byte %d", pos)); msg != "" {
			r.fail("%s", msg)
		}
	}
	r.w.t.startReadLoop()
	if msg := vfAwait(r.w.t.readLoopDone, "the read loop"); msg != "" {
		if m := r.failed(); m != "" {
			return m
		}
		return msg
	}
	for _, a := range acts { // not reached
		last = r.act(0, a, last)
	}
	rep.hit("reads")
	rep.labels["reads"] += r.be.n - 1
	for _, a := range c.Acts[0] {
		rep.label(a.K)
	}
	return r.finish()
}

// vfRunSchedules runs the loop and several API users at the same time.
func vfRunSchedules(cc any, rep *vfRep) string {
	c := cc.(vfLoop)
	r, ok := vfNewLoopRun(&c)
	if !ok {
		return ""
	}
	r.be.pause = true
	start := make(chan struct{})
	done := make(chan struct{})
	var wg sync.WaitGroup
	for g, acts := range c.Acts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			r.be.users.Store(vfGoroutine(), true)
			last := 0
			for _, a := range acts {
				if r.failed() != "" {
					return
				}
				last = r.act(g, a, last)
			}
		}()
	}
	go func() { wg.Wait(); close(done) }()
	r.w.t.startReadLoop()
	close(start)
	if msg := vfAwait(r.w.t.readLoopDone, "the read loop"); msg != "" {
		return msg
	}
	if msg := vfAwait(done, "an API user"); msg != "" {
		return msg
	}
	rep.hit("concurrent users")
	for _, l := range c.Acts {
		for _, a := range l {
			rep.label(a.K)
		}
	}
	if r.states != nil {
		rep.label("snapshots compared with the prefixes of the stream")
	}
	if len(c.Slow) > 0 {
		rep.label("slow callbacks")
	}
	if r.be.ended != nil {
		rep.label("writes that wait for the end of the output")
	}
	return r.finish()
}

func vfGenAct(t *rapid.T, kinds []vfW) vfAct {
	a := vfAct{K: vfWeighted(t, kinds)}
	switch a.K {
	case "write":
		a.W = vfPick(t, 1, 3, vfInt(t, 1, 40), vfInt(t, 1, 40))
	case "key", "tee":
		a.W = vfInt(t, 0, 9)
	case "mouse", "attach", "pause":
		a.W, a.H = vfInt(t, 0, 9), vfInt(t, 0, 9)
	case "resize":
		a.W, a.H = vfInt(t, 1, 12), vfInt(t, 1, 8)
	}
	return a
}

func vfGenLoop(t *rapid.T, p *vfProfile, users, maxOps, maxActs int) vfLoop {
	c := vfLoop{Cfg: vfCfg{W: vfInt(t, 1, 9), H: vfInt(t, 1, 5), Mode: vfInt(t, 0, 1), Grid: vfOneIn(t, 4)}}
	for i, n := 0, vfInt(t, 1, maxOps); i < n; i++ {
		o := vfGenOp(t, vfWeighted(t, p.ops), p, c.Cfg)
		o.Cut = nil
		c.Ops = append(c.Ops, o)
	}
	switch vfInt(t, 0, 3) {
	case 0:
		c.Reads = []int{1}
	case 1:
		c.Reads = []int{vfInt(t, 1, 9)}
	case 2:
		for i, n := 0, vfInt(t, 2, 6); i < n; i++ {
			c.Reads = append(c.Reads, vfInt(t, 1, 20))
		}
	}
	kinds := []vfW{{"read", 12}, {"write", 3}, {"key", 4}, {"mouse", 4}, {"pause", 4}}
	if vfOneIn(t, 2) {
		kinds = append(kinds, vfW{"resize", 4})
	}
	if vfOneIn(t, 3) {
		kinds = append(kinds, vfW{"tee", 3})
	}
	if vfOneIn(t, 3) {
		c.TTY = true
		kinds = append(kinds, vfW{"attach", 4}, vfW{"detach", 1}, vfW{"focus", 1}, vfW{"blur", 1})
	}
	for g := 0; g < users; g++ {
		var l []vfAct
		for i, n := 0, vfInt(t, 1, maxActs); i < n; i++ {
			l = append(l, vfGenAct(t, kinds))
		}
		c.Acts = append(c.Acts, l)
	}
	return c
}

func vfShrinkLoop(cc any) []any {
	c := cc.(vfLoop)
	var out []any
	with := func(f func(d *vfLoop)) {
		d := c
		d.Acts = append([][]vfAct(nil), c.Acts...)
		f(&d)
		out = append(out, d)
	}
	for i := range c.Acts {
		if len(c.Acts) > 1 {
			with(func(d *vfLoop) { d.Acts = append(d.Acts[:i:i], d.Acts[i+1:]...) })
		}
		for n := len(c.Acts[i]) / 2; n >= 1; n /= 2 {
			for j := 0; j+n <= len(c.Acts[i]); j += n {
				with(func(d *vfLoop) { d.Acts[i] = append(c.Acts[i][:j:j], c.Acts[i][j+n:]...) })
			}
		}
	}
	for _, ops := range vfShrinkOps(c.Ops) {
		if len(ops) > 0 {
			with(func(d *vfLoop) { d.Ops = ops })
		}
	}
	if len(c.Slow) > 0 {
		with(func(d *vfLoop) { d.Slow = nil })
	}
	if c.Block {
		with(func(d *vfLoop) { d.Block = false })
	}
	if c.TTY {
		with(func(d *vfLoop) { d.TTY = false })
	}
	if len(c.Reads) != 1 || c.Reads[0] != 1 {
		with(func(d *vfLoop) { d.Reads = []int{1} })
	}
	return out
}

func init() {
	all := append([]vfW{{"resize", 8}, {"char", 4}}, vfAllOps...)
	full := &vfProfile{ops: all, texts: vfTextFull, cuts: true}
	noResize := &vfProfile{ops: vfAllOps, texts: []vfW{{"ascii", 6}, {"punct", 2}, {"wide1", 4}, {"latin", 1}}, maxText: 8}
	sub := func(name string, weight int, gen func(t *rapid.T) any, run func(any, *vfRep) string, rule string) vfSub {
		return vfSub{name: name, weight: weight, gen: gen, run: run, dec: vfDec[vfLoop], shrink: vfShrinkLoop, rule: rule}
	}
	vfProps["C15"] = []vfSub{
		vfProgSub("callbacks", 100, func(t *rapid.T) vfProg { return vfGenProg(t, full, 20) }, vfRunCallbacks,
			"random histories cut into random reads, with Resize between operations and while the parser waits: the lock is held in every callback (probed with TryLock) where the read accessors give whole, well-formed rows; it is free at every read; at a read within a control sequence nothing has changed yet; non-trivial: callbacks were made, or a read fell within a control sequence"),
		sub("boundaries", 60, func(t *rapid.T) any {
			c := vfGenLoop(t, noResize, 1, 12, 12)
			n := len(c.stream())
			at := 0
			for i := range c.Acts[0] {
				at += vfInt(t, 0, max(1, n/4))
				c.Acts[0][i].At = at
			}
			return c
		}, vfRunBoundaries,
			"the real read loop over random streams: at every read of the backend the lock is free, and another goroutine runs random API calls (locked reads, Write, SendKey, mouse reports, Resize, SetTee, TTYFrontend Attach/Detach/Focus) to completion; without Resize every locked read equals the state after a prefix of the stream, in order; with it, both screens have one of the requested sizes; non-trivial: all"),
		sub("schedules", 40, func(t *rapid.T) any {
			c := vfGenLoop(t, noResize, vfInt(t, 1, 4), 16, 20)
			if vfOneIn(t, 2) {
				for i, n := 0, vfInt(t, 1, 3); i < n; i++ {
					c.Slow = append(c.Slow, vfInt(t, 1, 30))
				}
			}
			if vfOneIn(t, 3) {
				c.Block = true
				if vfOneIn(t, 2) {
					c.Ops = append([]vfOp{{K: "csi", Pre: "?", P: []string{"1003"}, F: "h"}}, c.Ops...)
				}
			}
			return c
		}, vfRunSchedules,
			"the real read loop and 1 to 4 goroutines using the API at the same time under the race detector; the same conditions on every locked read; slow callbacks make the mutex hand over at every release; lines that a read returned stay as they were; in a third of the cases the application takes input only after all its output is read, so that writes wait for the loop; no goroutine gets stuck, and all written bytes arrive; non-trivial: all"),
	}
}
