package termemu

// Harness core: operations, the driven terminal ("world"), snapshots and the
// recording frontend. Injected into /repo by overlay; see /verif/DESIGN.md.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/rivo/uniseg"
)

// vfB is a byte string that survives JSON unchanged.
type vfB string

func (b vfB) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *vfB) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return err
	}
	*b = vfB(u)
	return nil
}

// vfOp is one operation of a generated history.
type vfOp struct {
	K   string   `json:"k"`             // text ctl csi esc osc dcs raw fill resize
	S   vfB      `json:"s,omitempty"`   // text, control byte, payload, raw bytes, ESC tail
	Pre string   `json:"pre,omitempty"` // CSI private prefix
	P   []string `json:"p,omitempty"`   // CSI parameters, "" is omitted
	I   string   `json:"i,omitempty"`   // CSI intermediates; OSC: "none" leaves out the ;
	F   string   `json:"f,omitempty"`   // CSI final; OSC number
	T   vfB      `json:"t,omitempty"`   // OSC/DCS terminator
	W   int      `json:"w,omitempty"`
	H   int      `json:"h,omitempty"`
	Cut []int    `json:"cut,omitempty"` // where the bytes are split into reads

	// resize only: 0 is before the next operation; n is while the parser waits
	// for byte n-1 of the next operation
	Late int `json:"late,omitempty"`
}

func (o vfOp) bytes() []byte {
	switch o.K {
	case "text", "raw", "ctl":
		return []byte(o.S)
	case "fill":
		seed, _ := strconv.ParseUint(o.F, 10, 64)
		return []byte(vfStateFill(o.W, o.H, seed))
	case "csi":
		return []byte("\x1b[" + o.Pre + strings.Join(o.P, ";") + o.I + o.F)
	case "esc":
		return []byte("\x1b" + string(o.S))
	case "osc":
		sep := ";"
		if o.I == "none" { // no separator between the number and the rest
			sep = ""
		}
		return []byte("\x1b]" + o.F + sep + string(o.S) + string(o.T))
	case "dcs":
		return []byte("\x1bP" + string(o.S) + string(o.T))
	}
	return nil
}

func (o vfOp) String() string {
	if o.K == "resize" {
		return fmt.Sprintf("resize(%d,%d)%s", o.W, o.H, map[bool]string{true: fmt.Sprintf(" while byte %d of the next operation is awaited", o.Late-1)}[o.Late > 0])
	}
	if o.K == "fill" {
		return fmt.Sprintf("fill(%d,%d,%s)", o.W, o.H, o.F)
	}
	return fmt.Sprintf("%s %q", o.K, o.bytes())
}

// par returns CSI parameter i, or def when it is omitted. Values saturate.
func (o vfOp) par(i, def int) int {
	if i >= len(o.P) || o.P[i] == "" {
		return def
	}
	v := 0
	for _, c := range o.P[i] {
		v = v*10 + int(c-'0')
		if v > 1<<29 {
			v = 1 << 29
		}
	}
	return v
}

type vfCfg struct {
	W    int  `json:"w"`
	H    int  `json:"h"`
	Mode int  `json:"mode"` // TextReadMode
	Grid bool `json:"grid"`

	// Short is how many bytes the backend takes per write at most, if not 0.
	Short int `json:"short,omitempty"`
}

func (c vfCfg) mode() TextReadMode { return TextReadMode(c.Mode) }

type vfProg struct {
	Cfg vfCfg  `json:"cfg"`
	Ops []vfOp `json:"ops"`
}

// ---------------------------------------------------------------- reader

// vfSeg is what one or more reads return; fn runs when the first byte is asked for.
type vfSeg struct {
	b  []byte
	fn func()
}

// vfSrc is a scripted byte source: each Read returns (part of) one segment.
type vfSrc struct {
	segs []vfSeg
	left int
	max  int // at most this many bytes per read, if > 0
	dry  int // reads after the last segment

	probe func() // called at the start of every read
}

// push appends b, cut into segments. at maps an offset to a function that runs
// when the byte at that offset is asked for.
func (s *vfSrc) push(b []byte, cuts []int, at int, fn func()) {
	if fn != nil && at > 0 && at < len(b) {
		cuts = append(append([]int(nil), cuts...), at)
		vfSortInts(cuts)
	}
	prev := 0
	add := func(to int) {
		g := vfSeg{b: b[prev:to]}
		if prev == at {
			g.fn = fn
		}
		s.segs = append(s.segs, g)
		prev = to
	}
	for _, c := range cuts {
		if c > prev && c < len(b) {
			add(c)
		}
	}
	if prev < len(b) {
		add(len(b))
	}
	s.left += len(b)
}

func (s *vfSrc) Read(p []byte) (int, error) {
	if s.probe != nil {
		s.probe()
	}
	if len(s.segs) == 0 {
		s.dry++
		return 0, io.EOF
	}
	if fn := s.segs[0].fn; fn != nil {
		s.segs[0].fn = nil
		fn()
	}
	if s.max > 0 && len(p) > s.max {
		p = p[:s.max]
	}
	n := copy(p, s.segs[0].b)
	s.segs[0].b = s.segs[0].b[n:]
	if len(s.segs[0].b) == 0 {
		s.segs = s.segs[1:]
	}
	s.left -= n
	return n, nil
}

// vfBackend collects what the terminal writes.
type vfBackend struct {
	src   io.Reader
	out   bytes.Buffer
	sizes []Pos
	short int
}

func (b *vfBackend) Read(p []byte) (int, error) { return b.src.Read(p) }
func (b *vfBackend) Write(p []byte) (int, error) {
	if b.short > 0 && len(p) > b.short {
		p = p[:b.short]
	}
	return b.out.Write(p)
}
func (b *vfBackend) SetSize(w, h int) error {
	b.sizes = append(b.sizes, Pos{X: w, Y: h})
	return nil
}

// ---------------------------------------------------------------- cells

// vfCell is one cell of a screen. A continuation cell of a wide character has
// W == 0 and T == "".
type vfCell struct {
	T string
	W int
	S Style

	loose bool // model only: the style Old is acceptable as well
	any   bool // model only: any style is acceptable
	old   Style
}

func (c vfCell) same(d vfCell) bool { return c.T == d.T && c.W == d.W && c.S == d.S }

// vfChars splits text into the characters a terminal in the given mode shows.
func vfChars(text string, mode TextReadMode) (chars []string, widths []int) {
	if mode == TextReadModeRune {
		for i, r := range text {
			_ = i
			s := string(r)
			w := uniseg.StringWidth(s)
			if w < 1 {
				w = 1
			}
			chars = append(chars, s)
			widths = append(widths, w)
		}
		return
	}
	for len(text) > 0 {
		c, rest, w, _ := uniseg.FirstGraphemeClusterInString(text, -1)
		if w < 1 {
			w = 1
		}
		chars = append(chars, string([]rune(c)))
		widths = append(widths, w)
		text = rest
	}
	return
}

// vfLineCells expands a Line into cells, checking that it is well formed.
func vfLineCells(l Line, mode TextReadMode) ([]vfCell, error) {
	total := 0
	for _, sp := range l.Spans {
		total += min(max(sp.Width, 0), 1000)
	}
	out := make([]vfCell, 0, total)
	for i, sp := range l.Spans {
		if sp.Width <= 0 {
			return out, fmt.Errorf("run %d has width %d (%q)", i, sp.Width, sp.Text)
		}
		if sp.Text == "" {
			t := string(sp.Rune)
			for j := 0; j < sp.Width; j++ {
				out = append(out, vfCell{T: t, W: 1, S: sp.Style})
			}
			continue
		}
		chars, widths := vfChars(sp.Text, mode)
		sum := 0
		for _, w := range widths {
			sum += w
		}
		if sum != sp.Width {
			return out, fmt.Errorf("run %d %q occupies %d cells but has width %d", i, sp.Text, sum, sp.Width)
		}
		for j, c := range chars {
			out = append(out, vfCell{T: c, W: widths[j], S: sp.Style})
			for k := 1; k < widths[j]; k++ {
				out = append(out, vfCell{S: sp.Style})
			}
		}
	}
	return out, nil
}

func vfRowString(row []vfCell) string {
	var b strings.Builder
	for _, c := range row {
		if c.W == 0 {
			b.WriteString("·")
		} else {
			b.WriteString(c.T)
		}
	}
	return strconv.Quote(b.String())
}

// ---------------------------------------------------------------- snapshots

type vfScr struct {
	W, H     int
	C        [][]vfCell
	X, Y     int
	Top, Bot int
	Wrap     bool
	St       Style
}

func (s *vfScr) clone() *vfScr {
	c := *s
	c.C = make([][]vfCell, len(s.C))
	for i := range s.C {
		c.C[i] = append([]vfCell(nil), s.C[i]...)
	}
	return &c
}

func (s *vfScr) equalCells(o *vfScr) bool {
	if s.W != o.W || s.H != o.H {
		return false
	}
	for y := range s.C {
		for x := range s.C[y] {
			if !s.C[y][x].same(o.C[y][x]) {
				return false
			}
		}
	}
	return true
}

func (s *vfScr) equal(o *vfScr) bool {
	return s.equalCells(o) && s.X == o.X && s.Y == o.Y && s.Top == o.Top && s.Bot == o.Bot && s.Wrap == o.Wrap && s.St == o.St
}

func (s *vfScr) dump() string {
	var b strings.Builder
	for y := range s.C {
		fmt.Fprintf(&b, "  %2d %s\n", y, vfRowString(s.C[y]))
	}
	fmt.Fprintf(&b, "  cursor (%d,%d) region %d..%d wrap %v", s.X, s.Y, s.Top, s.Bot, s.Wrap)
	return b.String()
}

// vfSnapScreen reads a whole screen buffer through its read interface.
func vfSnapScreen(s screen, mode TextReadMode) (*vfScr, error) {
	size := s.Size()
	cur := s.CursorPos()
	r := &vfScr{W: size.X, H: size.Y, X: cur.X, Y: cur.Y, Top: s.TopMargin(), Bot: s.BottomMargin(), Wrap: s.AutoWrap(), St: s.Style()}
	r.C = make([][]vfCell, r.H)
	for y := 0; y < r.H; y++ {
		row, err := vfLineCells(s.StyledLine(0, r.W, y), mode)
		if err != nil {
			return nil, fmt.Errorf("row %d: %v", y, err)
		}
		if len(row) != r.W {
			return nil, fmt.Errorf("row %d: runs sum to %d cells on a screen %d wide", y, len(row), r.W)
		}
		r.C[y] = row
	}
	return r, nil
}

// vfSnap is everything observable of a terminal.
type vfSnap struct {
	Scr   [2]*vfScr // main, alt
	Act   int
	Flags []bool
	Ints  []int
	Strs  []string
}

func (s *vfSnap) act() *vfScr { return s.Scr[s.Act] }

func (w *vfWorld) active() int {
	if w.t.screen() == w.t.mainScreen {
		return 0
	}
	return 1
}

func (w *vfWorld) snap() (*vfSnap, error) {
	s := &vfSnap{Act: w.active()}
	var err error
	if s.Scr[0], err = vfSnapScreen(w.t.mainScreen, w.mode); err != nil {
		return nil, fmt.Errorf("main screen %v", err)
	}
	if s.Scr[1], err = vfSnapScreen(w.t.altScreen, w.mode); err != nil {
		return nil, fmt.Errorf("alternate screen %v", err)
	}
	s.Flags = append([]bool(nil), w.t.viewFlags...)
	s.Ints = append([]int(nil), w.t.viewInts...)
	s.Strs = append([]string(nil), w.t.viewStrings...)
	return s, nil
}

func vfDiffScr(what string, a, b *vfScr) string {
	if a.W != b.W || a.H != b.H {
		return fmt.Sprintf("%s: size %dx%d vs %dx%d", what, a.W, a.H, b.W, b.H)
	}
	for y := range a.C {
		for x := range a.C[y] {
			if !a.C[y][x].same(b.C[y][x]) {
				return fmt.Sprintf("%s: cell (%d,%d) %s vs %s; row %s vs %s", what, x, y, vfCellStr(a.C[y][x]), vfCellStr(b.C[y][x]), vfRowString(a.C[y]), vfRowString(b.C[y]))
			}
		}
	}
	if a.X != b.X || a.Y != b.Y {
		return fmt.Sprintf("%s: cursor (%d,%d) vs (%d,%d)", what, a.X, a.Y, b.X, b.Y)
	}
	if a.Top != b.Top || a.Bot != b.Bot {
		return fmt.Sprintf("%s: scroll region %d..%d vs %d..%d", what, a.Top, a.Bot, b.Top, b.Bot)
	}
	if a.Wrap != b.Wrap {
		return fmt.Sprintf("%s: autowrap %v vs %v", what, a.Wrap, b.Wrap)
	}
	if a.St != b.St {
		return fmt.Sprintf("%s: rendition %q vs %q", what, a.St.ANSIEscape(), b.St.ANSIEscape())
	}
	return ""
}

func vfCellStr(c vfCell) string {
	return fmt.Sprintf("%q/w%d/%q", c.T, c.W, c.S.ANSIEscape())
}

func vfDiffModes(a, b *vfSnap) string {
	if a.Act != b.Act {
		return fmt.Sprintf("active screen %d vs %d", a.Act, b.Act)
	}
	for i := range a.Flags {
		if a.Flags[i] != b.Flags[i] {
			return fmt.Sprintf("view flag %d: %v vs %v", i, a.Flags[i], b.Flags[i])
		}
	}
	for i := range a.Ints {
		if a.Ints[i] != b.Ints[i] {
			return fmt.Sprintf("view int %d: %v vs %v", i, a.Ints[i], b.Ints[i])
		}
	}
	for i := range a.Strs {
		if a.Strs[i] != b.Strs[i] {
			return fmt.Sprintf("view string %d: %q vs %q", i, a.Strs[i], b.Strs[i])
		}
	}
	return ""
}

func vfDiffSnap(a, b *vfSnap) string {
	if d := vfDiffModes(a, b); d != "" {
		return d
	}
	if d := vfDiffScr("main screen", a.Scr[0], b.Scr[0]); d != "" {
		return d
	}
	return vfDiffScr("alternate screen", a.Scr[1], b.Scr[1])
}

// ---------------------------------------------------------------- frontend

type vfFront struct {
	w *vfWorld

	shadow   bool // keep a shadow screen
	captures bool // capture rows announced by ScrollLines

	cells    [][]vfCell
	badRead  string
	cur      Pos
	curSet   bool
	style    Style
	styleSet bool
	flags    map[ViewFlag]bool
	ints     map[ViewInt]int
	strs     map[ViewString]string

	flagLog []string // every View*Changed since reset
	strLog  []string // every ViewStringChanged
	effects []string // View*Changed, StyleChanged and Bell in order, never reset
	regions []Region
	reasons []ChangeReason
	scrolls []int
	lost    [][]vfCell
	lostBad string
	bells   int

	callbacks int
	unlocked  []string // callbacks made without the lock
}

func (f *vfFront) enter(name string) {
	f.callbacks++
	if f.w.t == nil {
		return // during construction
	}
	if f.w.t.TryLock() {
		f.w.t.Unlock()
		f.unlocked = append(f.unlocked, name)
	}
}

func (f *vfFront) reset() {
	f.flagLog = f.flagLog[:0]
	f.regions = f.regions[:0]
	f.reasons = f.reasons[:0]
	f.scrolls = f.scrolls[:0]
	f.lost = nil
	f.lostBad = ""
}

func (f *vfFront) Bell() {
	f.enter("Bell")
	f.bells++
	f.effects = append(f.effects, "bell")
}

func (f *vfFront) RegionChanged(r Region, c ChangeReason) {
	f.enter("RegionChanged")
	f.regions = append(f.regions, r)
	f.reasons = append(f.reasons, c)
	if f.shadow && f.w.t != nil {
		f.refresh(r)
	}
}

// refresh copies the announced cells from the terminal.
func (f *vfFront) refresh(r Region) {
	w, h := f.w.t.Size()
	for len(f.cells) < h {
		f.cells = append(f.cells, nil)
	}
	f.cells = f.cells[:h]
	for y := range f.cells {
		if len(f.cells[y]) != w {
			row := make([]vfCell, w)
			for x := range row {
				row[x] = vfCell{T: "?", W: 1}
			}
			copy(row, f.cells[y])
			f.cells[y] = row
		}
	}
	for y := max(r.Y, 0); y < min(r.Y2, h); y++ {
		row, err := vfLineCells(f.w.t.StyledLine(0, w, y), f.w.mode)
		if err != nil || len(row) != w {
			f.badRead = fmt.Sprintf("row %d read in RegionChanged is malformed: %v", y, err)
			continue
		}
		for x := max(r.X, 0); x < min(r.X2, w); x++ {
			f.cells[y][x] = row[x]
		}
	}
}

func (f *vfFront) ScrollLines(n int) {
	f.enter("ScrollLines")
	f.scrolls = append(f.scrolls, n)
	if f.captures && f.w.t != nil {
		w, h := f.w.t.Size()
		for y := 0; y < n; y++ {
			if y >= h {
				f.lostBad = fmt.Sprintf("ScrollLines(%d) on a screen of %d rows", n, h)
				break
			}
			row, err := vfLineCells(f.w.t.StyledLine(0, w, y), f.w.mode)
			if err != nil {
				f.lostBad = err.Error()
			}
			f.lost = append(f.lost, row)
		}
	}
}

func (f *vfFront) CursorMoved(x, y int) {
	f.enter("CursorMoved")
	f.cur, f.curSet = Pos{X: x, Y: y}, true
}
func (f *vfFront) StyleChanged(s Style) {
	f.enter("StyleChanged")
	f.style, f.styleSet = s, true
	f.effects = append(f.effects, fmt.Sprintf("style %q", s.ANSIEscape()))
}
func (f *vfFront) ViewFlagChanged(v ViewFlag, b bool) {
	f.enter("ViewFlagChanged")
	f.flags[v] = b
	f.flagLog = append(f.flagLog, fmt.Sprintf("F%d=%v", v, b))
	f.effects = append(f.effects, fmt.Sprintf("F%d=%v", v, b))
}
func (f *vfFront) ViewIntChanged(v ViewInt, n int) {
	f.enter("ViewIntChanged")
	f.ints[v] = n
	f.flagLog = append(f.flagLog, fmt.Sprintf("I%d=%d", v, n))
	f.effects = append(f.effects, fmt.Sprintf("I%d=%d", v, n))
}
func (f *vfFront) ViewStringChanged(v ViewString, s string) {
	f.enter("ViewStringChanged")
	f.strs[v] = s
	f.strLog = append(f.strLog, fmt.Sprintf("S%d=%q", v, s))
	f.effects = append(f.effects, fmt.Sprintf("S%d=%q", v, s))
}

// ---------------------------------------------------------------- world

type vfWorld struct {
	t    *terminal
	f    *vfFront
	be   *vfBackend
	src  *vfSrc
	gr   *GraphemeReader
	mode TextReadMode
	cfg  vfCfg

	whole bool // reads end where a full buffer ends

	late   []vfOp // resizes to do while the next operation is being read
	onLate func() // called after them

	hist   []vfOp // the operations so far
	replay bool   // this is a replay of them

	onResize func(op vfOp) error // does a resize, instead of t.Resize
}

func (w *vfWorld) resize(op vfOp) error {
	if w.onResize != nil {
		return w.onResize(op)
	}
	return w.t.Resize(op.W, op.H)
}

func vfNewWorld(cfg vfCfg, shadow bool) *vfWorld {
	w := &vfWorld{cfg: cfg, mode: cfg.mode(), src: &vfSrc{}}
	w.f = &vfFront{w: w, shadow: shadow, captures: shadow, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
	w.be = &vfBackend{src: w.src, short: cfg.Short}
	w.t = vfNewTerminal(w.f, w.be, cfg)
	w.gr = NewGraphemeReaderWithMode(w.src, w.mode)
	if err := w.t.Resize(cfg.W, cfg.H); err != nil {
		panic(err)
	}
	w.f.reset()
	return w
}

// vfNewTerminal makes a terminal without a read loop over either buffer kind.
func vfNewTerminal(f Frontend, be Backend, cfg vfCfg) *terminal {
	t := newTerminal(f, be, cfg.mode())
	if cfg.Grid {
		t.mainScreen = newGridScreen(f)
		t.altScreen = newGridScreen(f)
		t.SetFrontend(f) // gives the alternate screen the frontend it should have
	}
	return t
}

// vfWedge is returned when a parser step neither consumes input nor fails.
var errVfWedge = fmt.Errorf("a parser step consumed nothing and reported no error")

// errVfShort is returned when a complete sequence is not enough for the parser: with
// a backend that blocks it would go on to take what follows as part of the sequence.
var errVfShort = fmt.Errorf("the parser asks for more input after the last byte of a complete sequence")

// swallows reports whether what follows op, after the operations so far, is
// interpreted differently if it comes in the same read.
func (w *vfWorld) swallows(op vfOp) bool {
	const tail = "xyz\x1b[6n"
	var snaps [2]*vfSnap
	var out [2]string
	for i := range snaps {
		v := vfNewWorld(w.cfg, false)
		v.replay = true
		for _, o := range w.hist {
			if v.do(o) != nil {
				return false
			}
		}
		v.take()
		b := op.bytes()
		if i == 1 {
			b = append(append([]byte(nil), b...), tail...)
		}
		if v.feed(b, nil) != nil {
			return true
		}
		if i == 0 && v.feed([]byte(tail), nil) != nil {
			return true
		}
		s, err := v.snap()
		if err != nil {
			return true
		}
		snaps[i], out[i] = s, v.take()
	}
	return out[0] != out[1] || vfDiffSnap(snaps[0], snaps[1]) != ""
}

var errVfUnread = fmt.Errorf("the parser reported the end of the input before it was read")

// feed runs the parser over b, delivered as the given segments.
func (w *vfWorld) feed(b []byte, cuts []int) error {
	if !w.whole {
		cuts = vfFillCuts(b, cuts, w.mode)
	}
	w.src.push(b, cuts, 0, nil)
	return w.drain()
}

// vfFillCuts adds cuts where the end of a full read buffer would otherwise fall
// inside a grapheme cluster, which may then be shown in parts.
func vfFillCuts(b []byte, cuts []int, mode TextReadMode) []int {
	const room = 1000
	if mode == TextReadModeRune || len(b) <= room {
		return cuts
	}
	allowed := vfAllowedCuts(b, mode)
	var out []int
	last, i := 0, 0
	fill := func(to int) {
		for to-last > room {
			best := 0
			for i < len(allowed) && allowed[i] < to && allowed[i]-last <= room {
				best = allowed[i]
				i++
			}
			if best <= last {
				return
			}
			out = append(out, best)
			last = best
		}
	}
	for _, c := range cuts {
		if c <= last || c >= len(b) {
			continue
		}
		fill(c)
		out = append(out, c)
		last = c
	}
	fill(len(b))
	return out
}

func (w *vfWorld) drain() error {
	stuck := 0
	for w.src.left > 0 || w.gr.Buffered() > 0 {
		before := w.src.left + w.gr.Buffered()
		if err := w.t.ptyReadOne(w.gr); err != nil {
			if err == io.EOF {
				if w.src.left > 0 {
					return errVfUnread
				}
				return nil
			}
			return err
		}
		if w.src.left+w.gr.Buffered() >= before {
			if stuck++; stuck > 3 {
				return errVfWedge
			}
		} else {
			stuck = 0
		}
	}
	return nil
}

// do performs one operation.
func (w *vfWorld) do(op vfOp) error {
	err := w.do1(op)
	w.hist = append(w.hist, op)
	return err
}

func (w *vfWorld) do1(op vfOp) error {
	if op.K == "resize" {
		if op.Late > 0 {
			w.late = append(w.late, op)
			return nil
		}
		if err := w.flushLate(); err != nil {
			return err
		}
		return w.resize(op)
	}
	b := op.bytes()
	dry := w.src.dry
	short := func() error {
		if w.src.dry == dry || op.K != "csi" && op.K != "esc" && op.K != "osc" && op.K != "dcs" && op.K != "ctl" {
			return nil
		}
		if !w.replay && w.swallows(op) {
			return errVfShort
		}
		return nil
	}
	if len(w.late) == 0 || len(b) == 0 {
		if err := w.feed(b, op.Cut); err != nil {
			return err
		}
		return short()
	}
	at := 0
	if op.K == "csi" || op.K == "esc" || op.K == "osc" || op.K == "dcs" {
		at = min(w.late[0].Late-1, len(b)-1)
	}
	var err error
	w.src.push(b, op.Cut, at, func() {
		err = w.flushLate()
		if w.onLate != nil {
			w.onLate()
		}
	})
	if err2 := w.drain(); err2 != nil {
		return err2
	}
	if err != nil {
		return err
	}
	return short()
}

// flushLate does the pending resizes.
func (w *vfWorld) flushLate() error {
	late := w.late
	w.late = nil
	for _, op := range late {
		if err := w.resize(op); err != nil {
			return err
		}
	}
	return nil
}

// take returns what was written to the application since the last call.
func (w *vfWorld) take() string {
	s := w.be.out.String()
	w.be.out.Reset()
	return s
}
