package termemu

// C17 (buffers and modes), C18 (resize), C20 (grid and span buffers).

import (
	"fmt"
	"sort"

	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C17

func vfIsModeOp(op vfOp) bool {
	return vfIsKeypad(op) || op.K == "csi" && op.Pre == "?" && op.I == "" && (op.F == "h" || op.F == "l") && !strings.ContainsAny(strings.Join(op.P, ""), ":<=>?")
}

func vfIsKeypad(op vfOp) bool { return op.K == "esc" && (op.S == "=" || op.S == ">") }

// vfModes applies a private-mode set/reset to the modes of a snapshot and returns
// what the frontend must be told.
func vfModes(op vfOp, s *vfSnap) (log []string) {
	on := op.F == "h"
	flag := func(v ViewFlag) {
		s.Flags[v] = on
		log = append(log, fmt.Sprintf("F%d=%v", v, on))
	}
	num := func(v ViewInt, set, reset int) {
		n := reset
		if on {
			n = set
		}
		s.Ints[v] = n
		log = append(log, fmt.Sprintf("I%d=%d", v, n))
	}
	if vfIsKeypad(op) {
		on = op.S == "="
		flag(VFAppKeypad)
		return log
	}
	for i := range op.P {
		switch op.par(i, 0) {
		case 1:
			flag(VFAppCursorKeys)
		case 7:
			s.Scr[s.Act].Wrap = on
		case 9:
			num(VIMouseMode, MMPress, MMNone)
		case 12:
			flag(VFBlinkCursor)
		case 25:
			flag(VFShowCursor)
		case 1000:
			num(VIMouseMode, MMPressRelease, MMNone)
		case 1002:
			num(VIMouseMode, MMPressReleaseMove, MMNone)
		case 1003:
			num(VIMouseMode, MMPressReleaseMoveAll, MMNone)
		case 1004:
			flag(VFReportFocus)
		case 1005, 1015:
			num(VIMouseEncoding, MEUTF8, MEX10)
		case 1006:
			num(VIMouseEncoding, MESGR, MEX10)
		case 2004:
			flag(VFBracketedPaste)
		case 1049:
			s.Act = 0
			if on {
				s.Act = 1
			}
		}
	}
	return log
}

func (s *vfSnap) clone() *vfSnap {
	c := *s
	c.Scr = [2]*vfScr{s.Scr[0].clone(), s.Scr[1].clone()}
	c.Flags = append([]bool(nil), s.Flags...)
	c.Ints = append([]int(nil), s.Ints...)
	c.Strs = append([]string(nil), s.Strs...)
	return &c
}

func vfRunC17(pr vfProg, rep *vfRep) string {
	var kbd [2]vfKbd
	var last string // the previous mode operation
	return vfDrive(pr, false, func(j *vfJudged) string {
		if j.err != nil || j.i < 0 {
			return ""
		}
		w := j.w
		if !vfKbdSpecified(j.op) {
			j.err = fmt.Errorf("outside the domain")
			return ""
		}
		if j.op.K == "resize" {
			last = ""
			if j.pre.Act != j.post.Act {
				return j.failf("the active screen changed")
			}
			return ""
		}
		if vfIsModeOp(j.op) {
			want := j.pre.clone()
			log := vfModes(j.op, want)
			if d := vfDiffSnap(want, j.post); d != "" {
				return j.failf("expected vs actual after the mode change: %s", d)
			}
			if a, b := strings.Join(log, " "), strings.Join(w.f.flagLog, " "); a != b {
				return j.failf("the frontend was told %q, expected %q", b, a)
			}
			if cur := want.act(); w.f.curSet && w.f.cur != (Pos{X: cur.X, Y: cur.Y}) {
				return j.failf("the frontend was last told cursor %v, the active screen has (%d,%d)", w.f.cur, cur.X, cur.Y)
			}
			this := strings.Join(j.op.P, ";") + j.op.F + string(j.op.S)
			if this == last && len(log) > 0 {
				rep.hit("mode repeated")
			}
			if len(j.op.P) > 1 {
				rep.label("several modes per sequence")
			}
			if j.pre.Act != j.post.Act {
				rep.hit("switch")
			}
			for i := range j.op.P {
				q := j.op.par(i, 0)
				if q == 1049 && (j.op.F == "h") == (j.pre.Act == 1) {
					rep.hit("redundant switch")
				}
				if q == 7 && j.pre.Act != j.post.Act {
					rep.hit("autowrap and switch in one sequence")
				}
			}
			last = this
		} else {
			last = ""
			if j.pre.Act != j.post.Act {
				return j.failf("the active screen changed from %d to %d", j.pre.Act, j.post.Act)
			}
			if d := vfDiffScr("inactive screen", j.pre.Scr[1-j.pre.Act], j.post.Scr[1-j.pre.Act]); d != "" {
				return j.failf("%s", d)
			}
			// no other sequence is a mode change
			if j.op.K != "raw" && !(j.op.K == "csi" && j.op.Pre == ">" && j.op.I == "" && j.op.F == "m") {
				if fmt.Sprint(j.pre.Flags, j.pre.Ints) != fmt.Sprint(j.post.Flags, j.post.Ints) {
					return j.failf("modes %v %v became %v %v", j.pre.Flags, j.pre.Ints, j.post.Flags, j.post.Ints)
				}
				if len(w.f.flagLog) > 0 && j.op.K != "osc" {
					return j.failf("the frontend was told %q", w.f.flagLog)
				}
			}
			if j.pre.Act == 1 && !j.pre.act().equalCells(j.post.act()) {
				rep.label("output on the alternate screen")
			}
			if j.kind == "C04" && j.op.K == "csi" && j.op.F == "u" {
				rep.label("cursor restored")
				if d := vfMatch(j.m.s(), j.post.act()); d != "" {
					return j.failf("restoring the cursor this screen saved: %s", d)
				}
			}
		}
		kbd[j.pre.Act].apply(j.op)
		if got, want := w.t.keyboardFlags(), kbd[j.post.Act].flags; got != want {
			return j.failf("the keyboard flags of screen %d are %d, expected %d", j.post.Act, got, want)
		}
		// the accessors show the active screen
		s := j.post.act()
		W, H := w.t.Size()
		if W != s.W || H != s.H {
			return j.failf("Size is %dx%d, the active screen has %dx%d", W, H, s.W, s.H)
		}
		if j.pre.Act != j.post.Act {
			for y := 0; y < H; y++ {
				row, err := vfLineCells(w.t.StyledLine(0, W, y), w.mode)
				if err != nil || len(row) != W {
					return j.failf("StyledLine(%d): %v", y, err)
				}
				for x := range row {
					if !row[x].same(s.C[y][x]) {
						return j.failf("StyledLine(%d) shows %s at %d, the active screen has %s", y, vfCellStr(row[x]), x, vfCellStr(s.C[y][x]))
					}
				}
			}
		}
		return ""
	})
}

func vfGenModes(t *rapid.T) vfOp {
	o := vfOp{K: "csi", Pre: "?", F: vfPick(t, "h", "l")}
	n := vfPick(t, 1, 1, 2, 3, vfInt(t, 4, 12))
	for i := 0; i < n; i++ {
		switch vfInt(t, 0, 11) {
		case 0:
			o.P = append(o.P, vfPick(t, "2", "3", "0", "", "1034", "6", "1049000", "10490", "99999999999999999999", "1001", "2026", "47", "1047", "1048"))
		case 1, 2, 3:
			o.P = append(o.P, "1049")
		case 4:
			o.P = append(o.P, "7")
		default:
			o.P = append(o.P, vfModeNum(t))
		}
	}
	return o
}

func init() {
	p := &vfProfile{ops: append([]vfW{{"mode", 8}, {"alt", 6}, {"save", 5}, {"kbd", 8}, {"wrap", 4}, {"region", 4}, {"resize", 1}, {"mok", 1}, {"keypad", 1}, {"query", 1}, {"unkesc", 1}, {"osc", 1}}, vfBaseOps...), texts: vfTextPlain, cuts: true, lead0: true}
	vfProps["C17"] = []vfSub{vfProgSub("modes", 100, func(t *rapid.T) vfProg {
		pr := vfGenProg(t, p, 24)
		for i := 0; i < len(pr.Ops); i++ {
			if pr.Ops[i].K != "resize" && vfOneIn(t, 4) {
				pr.Ops[i] = vfGenModes(t)
				if i+1 < len(pr.Ops) && vfOneIn(t, 3) && pr.Ops[i+1].K != "resize" {
					pr.Ops[i+1] = pr.Ops[i]
					i++
				}
			}
		}
		return pr
	}, vfRunC17,
		"random histories of private-mode sets and resets (several per sequence, repeated, unknown ones in between) mixed with output, margins, saved cursors and keyboard-flag operations on both buffers; after each operation: exactly the predicted modes, flags and active buffer, both buffers otherwise untouched by a mode change, the inactive buffer untouched by anything else, exactly the predicted reports to the frontend; non-trivial: a buffer switch, a redundant switch or a repeated mode")}
}

// ---------------------------------------------------------------- C18

// vfJudgeResize compares both buffers before and after a resize to w x h.
func vfJudgeResize(pre, post *vfSnap, w, h int, rep *vfRep) string {
	for k := range pre.Scr {
		o, n := pre.Scr[k], post.Scr[k]
		name := []string{"main", "alternate"}[k] + " screen"
		if n.W != w || n.H != h {
			return fmt.Sprintf("%s has size %dx%d", name, n.W, n.H)
		}
		for y := 0; y < n.H; y++ {
			for x := 0; x < n.W; x++ {
				g := n.C[y][x]
				if y < o.H && x < o.W {
					e := o.C[y][x]
					_, end := vfCharAt(o.C[y], x)
					if end > n.W { // cut by the new right edge
						rep.hit("wide character at the cut")
						if g.T != " " || g.W != 1 || g.S != e.S && g.S != o.St && g.S != NewStyle() {
							return fmt.Sprintf("%s: cell (%d,%d) of a character cut by the new edge is %s", name, x, y, vfCellStr(g))
						}
						continue
					}
					if !g.same(e) {
						return fmt.Sprintf("%s: cell (%d,%d) was %s and is %s", name, x, y, vfCellStr(e), vfCellStr(g))
					}
					continue
				}
				if g.T != " " || g.W != 1 || g.S != o.St && g.S != NewStyle() {
					return fmt.Sprintf("%s: new cell (%d,%d) is %s (rendition %q)", name, x, y, vfCellStr(g), o.St.ANSIEscape())
				}
			}
		}
		if n.X != clamp(o.X, 0, w-1) || n.Y != clamp(o.Y, 0, h-1) {
			return fmt.Sprintf("%s: cursor was (%d,%d) and is (%d,%d)", name, o.X, o.Y, n.X, n.Y)
		}
		if n.Top < 0 || n.Top > n.Bot || n.Bot >= h {
			return fmt.Sprintf("%s: scroll region %d..%d on %d rows", name, n.Top, n.Bot, h)
		}
		if o.Top == 0 && o.Bot == o.H-1 && (n.Top != 0 || n.Bot != h-1) {
			return fmt.Sprintf("%s: the scroll region was the whole screen and is %d..%d of %d rows", name, n.Top, n.Bot, h)
		}
		if n.Wrap != o.Wrap || n.St != o.St {
			return fmt.Sprintf("%s: autowrap or rendition changed", name)
		}
		if o.Y >= h || o.X >= w {
			rep.hit("cursor outside the new size")
		}
		if o.Bot >= h && o.Bot-o.Top < o.H-1 {
			rep.hit("margins outside the new size")
		}
		if w > o.W && h > o.H {
			rep.label("grow")
		} else if w < o.W && h < o.H {
			rep.label("shrink")
		}
	}
	return vfDiffModes(pre, post)
}

// vfReplica makes a terminal that shows the same as s, reached without a resize.
func vfReplica(cfg vfCfg, s *vfSnap, saved [2]Pos) (*vfWorld, error) {
	cfg.W, cfg.H = s.act().W, s.act().H
	r := vfNewWorld(cfg, false)
	feed := func(b string) error { return r.feed([]byte(b), nil) }
	for k := 1; k >= 0; k-- {
		c := s.Scr[k]
		if err := feed("\x1b[?1049" + string("lh"[k]) + "\x1b[r\x1b[?7l"); err != nil {
			return nil, err
		}
		for y := range c.C {
			for x := 0; x < c.W; x++ {
				if c.C[y][x].W == 0 {
					continue
				}
				if err := feed(fmt.Sprintf("\x1b[%d;%dH\x1b[0m%s%s", y+1, x+1, c.C[y][x].S.ANSIEscape(), c.C[y][x].T)); err != nil {
					return nil, err
				}
			}
		}
		b := fmt.Sprintf("\x1b[%d;%dr\x1b[%d;%dH\x1b[s\x1b[%d;%dH\x1b[0m%s", c.Top+1, c.Bot+1, saved[k].Y+1, saved[k].X+1, c.Y+1, c.X+1, c.St.ANSIEscape())
		if c.Wrap {
			b += "\x1b[?7h"
		}
		if err := feed(b); err != nil {
			return nil, err
		}
	}
	if s.Act == 1 {
		if err := feed("\x1b[?1049h"); err != nil {
			return nil, err
		}
	}
	r.take()
	return r, nil
}

func vfDiffScreens(a, b *vfSnap) string {
	if a.Act != b.Act {
		return "different active screens"
	}
	if d := vfDiffScr("main screen", a.Scr[0], b.Scr[0]); d != "" {
		return d
	}
	return vfDiffScr("alternate screen", a.Scr[1], b.Scr[1])
}

// vfHist is a history with operations done after it, to compare two terminals.
type vfHist struct {
	Cfg  vfCfg  `json:"cfg"`
	Ops  []vfOp `json:"ops"`
	Tail []vfOp `json:"tail"`
}

func vfRunC18(h vfHist, rep *vfRep) string {
	w := vfNewWorld(h.Cfg, false)
	msg := ""
	bad := false
	m := vfNewModel(h.Cfg)
	w.onResize = func(op vfOp) error {
		pre, err := w.snap()
		if err != nil {
			bad = true
			return nil
		}
		if err := w.t.Resize(op.W, op.H); err != nil {
			return err
		}
		m.resized(op.W, op.H)
		if gw, gh := w.t.Size(); gw != op.W || gh != op.H {
			msg = fmt.Sprintf("%v: Size returns %d,%d", op, gw, gh)
			return nil
		}
		post, err := w.snap()
		if err != nil {
			msg = fmt.Sprintf("%v on %dx%d: %v\nbefore:\n%s", op, pre.act().W, pre.act().H, err, pre.act().dump())
			return nil
		}
		rep.label("resize")
		if op.Late > 0 {
			rep.label("resize inside an operation")
		}
		if d := vfJudgeResize(pre, post, op.W, op.H, rep); d != "" {
			msg = fmt.Sprintf("%v on %dx%d: %s\nbefore:\n%s\nafter:\n%s", op, pre.act().W, pre.act().H, d, pre.act().dump(), post.act().dump())
		}
		return nil
	}
	resized := false
	for i, op := range h.Ops {
		op.Cut = vfSafeCuts(op, w.mode)
		if op.K == "resize" {
			resized = true
		}
		err := w.do(op)
		if msg != "" {
			return fmt.Sprintf("op %d: %s", i, msg)
		}
		if err != nil || bad {
			return ""
		}
		if op.K == "csi" && op.Pre == "" && op.I == "" && op.F == "s" {
			s, err := w.snap()
			if err != nil {
				return ""
			}
			m.saved[s.Act] = Pos{X: s.act().X, Y: s.act().Y}
		}
	}
	if err := w.flushLate(); err != nil || bad {
		return ""
	}
	if msg != "" {
		return msg
	}
	if !resized {
		return ""
	}
	s, err := w.snap()
	if err != nil {
		return ""
	}
	r, err := vfReplica(h.Cfg, s, m.saved)
	if err != nil {
		return ""
	}
	rs, err := r.snap()
	if err != nil || vfDiffScreens(s, rs) != "" {
		rep.label("no replica")
		return ""
	}
	rep.label("replica")
	w.onResize = nil
	w.take()
	for i, op := range h.Tail {
		op.Late = 0
		op.Cut = vfSafeCuts(op, w.mode)
		if op.K == "text" && !vfTextSpecified(string(op.S), w.mode) {
			return ""
		}
		e1, e2 := w.do(op), r.do(op)
		if e1 != nil || e2 != nil {
			return ""
		}
		a, err1 := w.snap()
		b, err2 := r.snap()
		if err2 != nil {
			return ""
		}
		if err1 != nil {
			return fmt.Sprintf("tail op %d (%v): %v, which does not happen on a terminal that always had this size", i, op, err1)
		}
		if d := vfDiffScreens(b, a); d != "" {
			return fmt.Sprintf("tail op %d (%v): always had this size vs resized: %s", i, op, d)
		}
		if x, y := r.take(), w.take(); x != y {
			return fmt.Sprintf("tail op %d (%v): replies %q, a terminal that always had this size %q", i, op, y, x)
		}
		rep.hit("tail op compared")
	}
	return ""
}

func vfShrinkHist(c any) []any {
	h := c.(vfHist)
	var out []any
	for _, ops := range vfShrinkOps(h.Ops) {
		out = append(out, vfHist{h.Cfg, ops, h.Tail})
	}
	for _, ops := range vfShrinkOps(h.Tail) {
		out = append(out, vfHist{h.Cfg, h.Ops, ops})
	}
	for _, cfg := range vfShrinkCfg(h.Cfg) {
		out = append(out, vfHist{cfg, h.Ops, h.Tail})
	}
	return out
}

func init() {
	p := &vfProfile{ops: vfBias(vfW{"resize", 30}, vfW{"text", 16}, vfW{"edge", 6}, vfW{"save", 4}, vfW{"region", 4}, vfW{"alt", 3}), texts: []vfW{{"ascii", 5}, {"wide", 6}, {"cluster", 1}, {"latin", 1}}, cuts: true}
	tail := &vfProfile{ops: append([]vfW{{"query", 4}, {"save", 4}, {"lf", 6}, {"scroll", 4}, {"edge", 4}}, vfBaseOps...), texts: vfTextPlain, cuts: true}
	vfProps["C18"] = []vfSub{{
		name: "resize", weight: 100,
		gen: func(t *rapid.T) any {
			pr := vfGenProg(t, p, 20)
			cfg := pr.Cfg
			for _, o := range pr.Ops {
				if o.K == "resize" {
					cfg.W, cfg.H = o.W, o.H
				}
			}
			if vfOneIn(t, 2) { // end in a small change of size
				o := vfOp{K: "resize", W: max(1, cfg.W+vfInt(t, -3, 3)), H: max(1, cfg.H+vfInt(t, -3, 3))}
				cfg.W, cfg.H = o.W, o.H
				pr.Ops = append(pr.Ops, o)
			}
			return vfHist{pr.Cfg, pr.Ops, vfGenOps(t, tail, cfg, 0, 10)}
		},
		run:    func(c any, rep *vfRep) string { return vfRunC18(c.(vfHist), rep) },
		dec:    vfDec[vfHist],
		shrink: vfShrinkHist,
		rule:   "random histories with many resizes (also while the parser waits inside a sequence): both buffers are compared cell by cell before and after each resize, with cursor, region, modes and Size; then a second terminal that always had the final size is brought to the same content, cursor, saved cursor and region by direct writes, and both are driven by the same random tail, comparing screens and replies after every operation; non-trivial: a wide character, cursor or margin at the cut, or a tail compared",
	}}
}

// ---------------------------------------------------------------- C20

// vfAnnounced is the set of cells announced by the regions, for a WxH screen.
func vfAnnounced(f *vfFront, w, h int) map[ChangeReason]map[Pos]bool {
	out := map[ChangeReason]map[Pos]bool{}
	for i, r := range f.regions {
		m := out[f.reasons[i]]
		if m == nil {
			m = map[Pos]bool{}
			out[f.reasons[i]] = m
		}
		for y := max(r.Y, 0); y < min(r.Y2, h); y++ {
			for x := max(r.X, 0); x < min(r.X2, w); x++ {
				m[Pos{X: x, Y: y}] = true
			}
		}
	}
	return out
}

func vfUnion(m map[ChangeReason]map[Pos]bool) map[Pos]bool {
	u := map[Pos]bool{}
	for _, s := range m {
		for p := range s {
			u[p] = true
		}
	}
	return u
}

func vfDiffSets(a, b map[Pos]bool) string {
	var d []string
	for p := range a {
		if !b[p] {
			d = append(d, fmt.Sprintf("(%d,%d) only by the span buffer", p.X, p.Y))
		}
	}
	for p := range b {
		if !a[p] {
			d = append(d, fmt.Sprintf("(%d,%d) only by the grid buffer", p.X, p.Y))
		}
	}
	sort.Strings(d)
	if len(d) > 4 {
		d = append(d[:4], "...")
	}
	return strings.Join(d, ", ")
}

func vfRunC20(pr vfProg, rep *vfRep) string {
	cfg := pr.Cfg
	cfg.Grid = false
	a := vfNewWorld(cfg, true)
	cfg.Grid = true
	b := vfNewWorld(cfg, true)
	m := vfNewModel(pr.Cfg)
	pre, err := a.snap()
	if err != nil {
		return ""
	}
	for i, op := range pr.Ops {
		op.Late = 0
		op.Cut = vfSafeCuts(op, a.mode)
		if op.K == "fill" && (op.W != pre.act().W || op.H != pre.act().H) {
			continue
		}
		if op.K == "text" {
			if !vfTextSpecified(string(op.S), a.mode) {
				continue
			}
			m.sync(pre)
			m.apply(op)
			if m.inside {
				rep.label("skipped: writes inside a wide character")
				continue
			}
		}
		a.f.reset()
		b.f.reset()
		ea, eb := a.do(op), b.do(op)
		if (ea == nil) != (eb == nil) {
			return fmt.Sprintf("op %d (%v): span %v, grid %v", i, op, ea, eb)
		}
		sa, err1 := a.snap()
		sb, err2 := b.snap()
		if ea != nil || err1 != nil && err2 != nil {
			return ""
		}
		fail := func(format string, args ...any) string {
			return fmt.Sprintf("op %d (%v) on %dx%d: ", i, op, pre.act().W, pre.act().H) + fmt.Sprintf(format, args...) + "\nbefore:\n" + pre.act().dump()
		}
		if err1 != nil || err2 != nil {
			return fail("span buffer: %v, grid buffer: %v", err1, err2)
		}
		if d := vfDiffSnap(sa, sb); d != "" {
			return fail("span vs grid: %s", d)
		}
		if x, y := a.take(), b.take(); x != y {
			return fail("replies: span %q, grid %q", x, y)
		}
		// notifications
		if x, y := strings.Join(a.f.effects, " "), strings.Join(b.f.effects, " "); x != y {
			return fail("notifications: span %q, grid %q", x, y)
		}
		a.f.effects, b.f.effects = nil, nil
		if a.f.cur != b.f.cur || a.f.curSet != b.f.curSet {
			return fail("cursor notified: span %v, grid %v", a.f.cur, b.f.cur)
		}
		na, nb := 0, 0
		for _, n := range a.f.scrolls {
			na += n
		}
		for _, n := range b.f.scrolls {
			nb += n
		}
		if na != nb {
			return fail("ScrollLines: span %v, grid %v", a.f.scrolls, b.f.scrolls)
		}
		if d := vfDiffRows("lines scrolled off, span vs grid:", a.f.lost, b.f.lost); d != "" {
			return fail("%s", d)
		}
		ra, rb := vfAnnounced(a.f, sa.act().W, sa.act().H), vfAnnounced(b.f, sa.act().W, sa.act().H)
		if d := vfDiffSets(vfUnion(ra), vfUnion(rb)); d != "" {
			return fail("announced cells differ: %s; span %v, grid %v", d, a.f.regions, b.f.regions)
		}
		for _, c := range []ChangeReason{CRText, CRClear, CRScroll, CRScreenSwitch, CRRedraw} {
			if d := vfDiffSets(ra[c], rb[c]); d != "" {
				return fail("cells announced with reason %v differ: %s; span %v %v, grid %v %v", c, d, a.f.regions, a.f.reasons, b.f.regions, b.f.reasons)
			}
		}
		if d := vfDiffRows("repainted from notifications, span vs grid:", a.f.cells, b.f.cells); d != "" {
			return fail("%s", d)
		}
		if !pre.act().equalCells(sa.act()) {
			rep.label("cells changed by " + op.K)
			if vfHasWide(pre.act()) {
				rep.hit("cells changed with wide characters")
			} else {
				rep.hit("cells changed")
			}
		}
		pre = sa
	}
	return ""
}

func init() {
	p := &vfProfile{ops: vfBias(vfW{"text", 8}, vfW{"char", 6}, vfW{"erase", 10}, vfW{"goto", 8}, vfW{"edge", 5}, vfW{"scroll", 4}, vfW{"query", 1}), texts: vfTextFull, maxText: 10, cuts: true, lead0: true}
	vfProps["C20"] = []vfSub{vfProgSub("lockstep", 100, func(t *rapid.T) vfProg { return vfGenProg(t, p, 30) }, vfRunC20,
		"random histories driven through a span-backed and a grid-backed terminal in lockstep (writes that start inside a wide character are left out, as are merge fragments); after every operation both buffers, modes, replies, the set of announced cells per reason, the scrolled-off lines and the other notifications must be the same; non-trivial: an operation that changes cells")}
}
