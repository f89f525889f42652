package termemu

// Checks of C02..C07 and C10: one operation at a time against the reference
// model, from whatever state the history reached.

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	"github.com/rivo/uniseg"
	"pgregory.net/rapid"
)

// vfJudged is one executed operation.
type vfJudged struct {
	i         int
	op        vfOp
	w         *vfWorld
	pre, post *vfSnap
	m         *vfModel // the expected state
	alt       *vfModel // another acceptable state, or nil
	kind      string   // property that specifies the operation, "" if none
	err       error    // malformed post state, or the parser failed
}

func (j *vfJudged) failf(format string, args ...any) string {
	return fmt.Sprintf("op %d (%v) on %dx%d: ", j.i, j.op, j.pre.act().W, j.pre.act().H) + fmt.Sprintf(format, args...) +
		"\nbefore:\n" + j.pre.act().dump() + vfDumpIf("\nafter:\n", j.post) + "\nexpected:\n" + j.m.s().dump()
}

func vfDumpIf(h string, s *vfSnap) string {
	if s == nil {
		return ""
	}
	return h + s.act().dump()
}

func vfIsExt(r rune) bool {
	return unicode.In(r, unicode.Mn, unicode.Me) || r == 0x200d || r >= 0xfe00 && r <= 0xfe0f || r >= 0xe0100 && r <= 0xe01ef
}

// vfTextSpecified reports whether the model says what the text does: in grapheme
// mode, text whose characters all stand alone.
func vfTextSpecified(text string, mode TextReadMode) bool {
	if mode == TextReadModeRune {
		return true
	}
	chars, _ := vfChars(string([]rune(text)), mode)
	for _, c := range chars {
		rs := []rune(c)
		all := true
		for _, r := range rs {
			if !vfIsExt(r) {
				all = false
			}
		}
		if all || len(rs) == 1 && rs[0] >= 0x1f1e6 && rs[0] <= 0x1f1ff {
			return false
		}
	}
	return true
}

// vfSpecified reports whether op is inside the domain the model specifies, in the
// given state.
func vfSpecified(op vfOp, pre *vfSnap, mode TextReadMode) bool {
	switch op.K {
	case "text":
		return vfTextSpecified(string(op.S), mode)
	case "csi":
		if op.Pre == "" && op.F == "r" && op.par(0, 1) > pre.act().H {
			return false // top below the screen
		}
	}
	return true
}

// vfZeroCount returns op with the count 1 if its count is an explicit 0, which may mean
// either.
func vfZeroCount(op vfOp) (vfOp, bool) {
	if op.K == "csi" && op.Pre == "" && op.I == "" && strings.Contains("ABCDLMSTXP", op.F) && op.par(0, 1) == 0 {
		op.P = append([]string{"1"}, op.P[1:]...)
		return op, true
	}
	return op, false
}

// match compares the active screen with the expected one.
func (j *vfJudged) match() string {
	d := vfMatch(j.m.s(), j.post.act())
	if d != "" && j.alt != nil && vfMatch(j.alt.s(), j.post.act()) == "" {
		return ""
	}
	return d
}

// vfSafeCuts drops the cuts of op that fall inside a grapheme cluster, where the
// parts may be shown as characters of their own.
func vfSafeCuts(op vfOp, mode TextReadMode) []int {
	if op.K != "text" || mode == TextReadModeRune || len(op.Cut) == 0 {
		return op.Cut
	}
	ok := map[int]bool{}
	for n, s := 0, string(op.S); len(s) > 0; {
		c, rest, _, _ := uniseg.FirstGraphemeClusterInString(s, -1)
		n += len(c)
		ok[n] = true
		s = rest
	}
	var cuts []int
	for _, c := range op.Cut {
		if ok[c] {
			cuts = append(cuts, c)
		}
	}
	return cuts
}

// vfDrive runs a history and hands every operation to judge. A state that cannot
// be read ends the history; judge sees it in err.
func vfDrive(p vfProg, shadow bool, judge func(j *vfJudged) string) string {
	w := vfNewWorld(p.Cfg, shadow)
	m := vfNewModel(p.Cfg)
	pre, err := w.snap()
	if err != nil {
		return judge(&vfJudged{i: -1, w: w, m: m, err: err, pre: &vfSnap{Scr: [2]*vfScr{{}, {}}}})
	}
	for i, op := range p.Ops {
		op.Cut = vfSafeCuts(op, w.mode)
		if op.K == "resize" && op.Late > 0 {
			_ = w.do(op)
			continue
		}
		kind := ""
		var alt *vfModel
		predict := func() {
			m.sync(pre)
			kind, alt = "", nil
			if op1, ok := vfZeroCount(op); ok {
				alt = vfNewModel(p.Cfg)
				alt.sync(pre)
				alt.apply(op1)
			}
			if vfSpecified(op, pre, w.mode) {
				kind = m.apply(op)
			}
		}
		if op.K == "resize" {
			for _, l := range w.late {
				m.resized(l.W, l.H)
			}
			m.sync(pre)
			m.resized(op.W, op.H)
		} else if len(w.late) > 0 {
			late := w.late
			var lateErr error
			w.onLate = func() {
				for _, l := range late {
					m.resized(l.W, l.H)
				}
				if pre, lateErr = w.snap(); lateErr == nil {
					w.f.reset()
					predict()
				} else {
					pre = &vfSnap{Scr: [2]*vfScr{{}, {}}}
				}
			}
			w.f.reset()
			err := w.do(op)
			w.onLate = nil
			if lateErr != nil || len(w.late) > 0 {
				return ""
			}
			j := vfJudgeOp(w, m, alt, i, op, pre, kind, err)
			if msg := judge(j); msg != "" || j.err != nil {
				return msg
			}
			pre = j.post
			continue
		} else {
			predict()
		}
		w.f.reset()
		err := w.do(op)
		j := vfJudgeOp(w, m, alt, i, op, pre, kind, err)
		if msg := judge(j); msg != "" || j.err != nil {
			return msg
		}
		pre = j.post
	}
	return ""
}

func vfJudgeOp(w *vfWorld, m, alt *vfModel, i int, op vfOp, pre *vfSnap, kind string, err error) *vfJudged {
	var post *vfSnap
	if err == nil {
		post, err = w.snap()
	}
	return &vfJudged{i: i, op: op, w: w, pre: pre, post: post, m: m, alt: alt, kind: kind, err: err}
}

// vfJudgeKind judges the operations one property specifies: the active screen is
// as the model says, and nothing else changed.
func vfJudgeKind(prop string, rep *vfRep, j *vfJudged) string {
	if j.kind != prop {
		return ""
	}
	if j.err != nil {
		return j.failf("%v", j.err)
	}
	// the model leaves modes, rendition and the other screen alone
	if d := vfDiffModes(j.pre, j.post); d != "" {
		return j.failf("%s", d)
	}
	if d := j.match(); d != "" {
		return j.failf("%s", d)
	}
	if d := vfDiffScr("inactive screen", j.pre.Scr[1-j.pre.Act], j.post.Scr[1-j.pre.Act]); d != "" {
		return j.failf("%s", d)
	}
	return ""
}

// ---------------------------------------------------------------- profiles

var vfBaseOps = []vfW{{"text", 10}, {"char", 4}, {"lf", 5}, {"cr", 3}, {"ctl", 2}, {"cup", 5}, {"goto", 4}, {"edge", 2}, {"save", 2}, {"erase", 4}, {"scroll", 3}, {"region", 4}, {"sgr", 4}, {"wrap", 3}, {"alt", 1}, {"resize", 1}, {"mode", 1}}

func vfBias(more ...vfW) []vfW { return append(more, vfBaseOps...) }

func vfScreenSub(name string, prop string, p *vfProfile, maxN, weight int, rule string, extra func(rep *vfRep, j *vfJudged)) vfSub {
	return vfProgSub(name, weight, func(t *rapid.T) vfProg { return vfGenProg(t, p, maxN) }, func(pr vfProg, rep *vfRep) string {
		return vfDrive(pr, false, func(j *vfJudged) string {
			if msg := vfJudgeKind(prop, rep, j); msg != "" {
				return msg
			}
			if j.kind == prop && j.err == nil {
				extra(rep, j)
			}
			return ""
		})
	}, rule)
}

func vfHasWide(s *vfScr) bool {
	for _, row := range s.C {
		for _, c := range row {
			if c.W > 1 {
				return true
			}
		}
	}
	return false
}

var vfJoiners = append(append([]string(nil), vfExtenders...), "\u0600", "\u1112", "\u1161", "\u11ab", "\u0e33", "\u0903", "👩", "🇩🇪", "\u20e3")

func vfGenJoin(t *rapid.T) vfProg {
	cfg := vfGenCfg(t)
	cfg.W = max(cfg.W, 36)
	var ops []vfOp
	full := &vfProfile{texts: vfTextFull}
	for n := vfInt(t, 0, 3); n > 0; n-- {
		ops = append(ops, vfOp{K: "text", S: vfB(vfText(t, cfg.mode(), full, cfg.W))})
		if vfBool(t) {
			ops = append(ops, vfOp{K: "ctl", S: vfB(vfPick(t, "\r", "\n", "\r\n", "\b"))})
		}
	}
	if vfBool(t) {
		ops = append(ops, vfSGR(t))
	}
	if vfBool(t) {
		ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: vfPick(t, "h", "l")})
	}
	ops = append(ops, vfCSI("H", fmt.Sprint(vfInt(t, 1, cfg.H)), fmt.Sprint(vfInt(t, 1, max(1, cfg.W-25)))))
	var b strings.Builder
	for n := vfInt(t, 1, 6); n > 0; n-- {
		if vfOneIn(t, 4) {
			b.WriteString(vfAtom(t, cfg.mode(), vfTextFull))
		} else {
			b.WriteString(vfPick(t, vfJoiners...))
		}
	}
	b.WriteString(rapid.StringMatching("[a-z]{2,7}").Draw(t, "s"))
	op := vfOp{K: "text", S: vfB(b.String())}
	for n := vfInt(t, 0, 3); n > 0; n-- {
		op.Cut = append(op.Cut, vfInt(t, 1, len(op.S)))
	}
	vfSortInts(op.Cut)
	return vfProg{Cfg: cfg, Ops: append(ops, op)}
}

func vfRunJoin(p vfProg, rep *vfRep) string {
	if len(p.Ops) == 0 {
		return ""
	}
	w := vfNewWorld(p.Cfg, false)
	last := len(p.Ops) - 1
	for _, op := range p.Ops[:last] {
		if op.K == "resize" {
			return ""
		}
		if w.do(op) != nil {
			return ""
		}
	}
	pre, err := w.snap()
	if err != nil || p.Ops[last].K != "text" {
		return ""
	}
	text := string(p.Ops[last].S)
	lead := strings.TrimRight(text, "abcdefghijklmnopqrstuvwxyz")
	tail := text[len(lead):]
	if s := pre.act(); s.X < s.W && s.C[s.Y][s.X].W == 0 {
		return "" // starts inside a wide character
	}
	if len(tail) < 2 || lead == "" || pre.act().X+4*len([]rune(lead))+len(tail) >= pre.act().W {
		return ""
	}
	if r := []rune(lead)[0]; vfIsExt(r) || r >= 0x1f1e6 && r <= 0x1f1ff {
		rep.hit("starts with a joining character")
	} else {
		rep.label("joins later")
	}
	tail = tail[1:] // the first letter may join what is before it
	if err := w.do(p.Ops[last]); err != nil {
		return fmt.Sprintf("%q at (%d,%d): %v", text, pre.act().X, pre.act().Y, err)
	}
	post, err := w.snap()
	if err != nil {
		return ""
	}
	s, d := pre.act(), post.act()
	fail := func(f string, a ...any) string {
		return fmt.Sprintf("%q at (%d,%d): ", text, s.X, s.Y) + fmt.Sprintf(f, a...) + "\nbefore:\n" + s.dump() + "\nafter:\n" + d.dump()
	}
	if dd := vfDiffModes(pre, post); dd != "" {
		return fail("%s", dd)
	}
	x := d.X - len(tail)
	if d.Y != s.Y || x < s.X || d.X > s.X+4*len([]rune(lead))+len(tail)+1 {
		return fail("the cursor is at (%d,%d)", d.X, d.Y)
	}
	for i, c := range tail {
		if got, want := d.C[s.Y][x+i], (vfCell{T: string(c), W: 1, S: s.St}); !got.same(want) {
			return fail("cell (%d,%d) is %s, want %s", x+i, s.Y, vfCellStr(got), vfCellStr(want))
		}
	}
	end := d.X
	for end < s.W && s.C[s.Y][end].W == 0 {
		end++
	}
	for y := range s.C {
		for i := range s.C[y] {
			if y == s.Y && i >= s.X-4 && i < end {
				continue // a joined cell, or a wide character that was cut
			}
			if !s.C[y][i].same(d.C[y][i]) {
				return fail("cell (%d,%d) changed from %s to %s", i, y, vfCellStr(s.C[y][i]), vfCellStr(d.C[y][i]))
			}
		}
	}
	if s.Top != d.Top || s.Bot != d.Bot || s.St != d.St || s.Wrap != d.Wrap {
		return fail("%s", vfDiffScr("screen", s, d))
	}
	return ""
}

func init() {
	p3 := &vfProfile{ops: vfBias(vfW{"text", 30}, vfW{"char", 20}, vfW{"edge", 14}, vfW{"corner", 3}), texts: vfTextFull, cuts: true}
	vfProps["C03"] = []vfSub{vfScreenSub("text", "C03", p3, 24, 100,
		"random histories (text of every width class, motions, margins, erases, SGR, autowrap, alternate screen, resizes) on random screen sizes, both buffers, both text modes; every text operation is compared cell by cell with the reference model started from the state before it; non-trivial: text that wraps, pins at the right edge, scrolls, or overwrites part of a wide character",
		func(rep *vfRep, j *vfJudged) {
			rep.label("text ops")
			s := j.pre.act()
			if j.m.wide2nd {
				rep.hit("cuts a wide character")
			}
			if len(j.m.scrolls) > 0 {
				rep.hit("scrolls")
			}
			if s.Wrap && j.m.s().Y != s.Y {
				rep.hit("wraps")
			}
			if _, ws := vfChars(string([]rune(string(j.op.S))), j.w.mode); !s.Wrap {
				n := 0
				for _, w := range ws {
					n += w
				}
				if s.X+n > s.W {
					rep.hit("pins at the edge")
				}
			}
			if j.w.cfg.Grid {
				rep.label("grid")
			}
		}),
		vfProgSub("after joiners", 40, vfGenJoin, vfRunJoin,
			"text in which characters join or fail to join with what is before them (combining marks, joiners, variation selectors, lone regional indicators, skin tones, jamo, prepended marks) followed by plain letters, cut anywhere: whatever cells the joining characters take, the letters after them are in the cells before the cursor in order with the current attributes, and all other rows are as before; non-trivial: text that starts with a joining character")}

	p4 := &vfProfile{ops: vfBias(vfW{"cup", 30}, vfW{"lf", 24}, vfW{"ctl", 14}, vfW{"cr", 8}, vfW{"save", 10}, vfW{"region", 6}), texts: vfTextPlain, cuts: true, lead0: true}
	vfProps["C04"] = []vfSub{vfScreenSub("motion", "C04", p4, 24, 100,
		"random histories on random screens; every cursor-motion control (BS HT CR LF FF IND RI CUU CUD CUF CUB CHA VPA CUP HVP SCP RCP, omitted and huge parameters) is compared with the reference model: cursor, all cells, margins, modes; non-trivial: a motion that clamps at an edge, scrolls, or restores a saved cursor",
		func(rep *vfRep, j *vfJudged) {
			rep.label("motions")
			s, d := j.pre.act(), j.post.act()
			if len(j.m.scrolls) > 0 {
				rep.hit("scrolls")
			}
			if j.op.K == "csi" {
				rep.label("CSI " + j.op.F)
				switch j.op.F {
				case "u":
					rep.hit("restores the cursor")
				case "s":
				default:
					if d.X == d.W-1 || d.Y == d.H-1 || d.X == 0 && s.X > 0 || d.Y == 0 && s.Y > 0 {
						rep.hit("reaches an edge")
					}
					for _, q := range j.op.P {
						if q == "" {
							rep.label("omitted parameter")
						}
					}
				}
			} else {
				rep.label(fmt.Sprintf("%s %q", j.op.K, string(j.op.S)))
			}
			if s.Top > 0 || s.Bot < s.H-1 {
				rep.label("with margins")
			}
		})}

	p5 := &vfProfile{ops: vfBias(vfW{"erase", 60}, vfW{"text", 20}, vfW{"goto", 20}, vfW{"sgr", 10}), texts: []vfW{{"ascii", 6}, {"wide", 6}, {"cluster", 1}}, maxText: 12, cuts: true, lead0: true}
	vfProps["C05"] = []vfSub{vfScreenSub("erase", "C05", p5, 24, 100,
		"random histories on random screens; every ED EL ECH DCH is compared with the reference model: all cells with attributes, cursor, margins, modes; non-trivial: an erase that changes at least one cell while leaving another non-blank",
		func(rep *vfRep, j *vfJudged) {
			if strings.Contains("JK", j.op.F) {
				rep.label(fmt.Sprintf("CSI %d %s", j.op.par(0, 0), j.op.F))
			} else {
				rep.label("CSI " + j.op.F)
			}
			s, d := j.pre.act(), j.post.act()
			changed, kept := false, false
			for y := range s.C {
				for x := range s.C[y] {
					if !s.C[y][x].same(d.C[y][x]) {
						changed = true
					} else if s.C[y][x].T != " " {
						kept = true
					}
				}
			}
			if changed && kept {
				rep.hit("partial erase")
			}
			for y := range j.m.s().C {
				for _, c := range j.m.s().C[y] {
					if c.loose {
						rep.hit("cuts a wide character")
						return
					}
				}
			}
		})}

	p6 := &vfProfile{ops: vfBias(vfW{"scroll", 50}, vfW{"corner", 5}, vfW{"edge", 8}, vfW{"char", 6}, vfW{"lf", 20}, vfW{"region", 12}, vfW{"text", 14}, vfW{"goto", 12}), texts: vfTextPlain, maxText: 12, cuts: true, lead0: true}
	vfProps["C06"] = []vfSub{vfProgSub("scroll", 100, func(t *rapid.T) vfProg { return vfGenProg(t, p6, 24) }, func(pr vfProg, rep *vfRep) string {
		return vfDrive(pr, false, func(j *vfJudged) string {
			ascii := j.op.K == "text" && len(j.op.S) == 1 && j.op.S[0] >= 32 && j.op.S[0] < 127
			own := j.kind == "C06" || j.kind == "C04" && len(j.m.scrolls) > 0
			if !own && !(ascii && j.kind == "C03" && len(j.m.scrolls) > 0) {
				return ""
			}
			if j.err != nil {
				return j.failf("%v", j.err)
			}
			exp, got := j.m.s(), j.post.act()
			if ascii {
				// the written row is not this property's business
				exp, got = exp.clone(), got.clone()
				y := j.pre.act().Bot - 1
				if y >= j.pre.act().Top {
					exp.C[y] = got.C[y]
				}
				exp.X, exp.Y = got.X, got.Y
				rep.hit("scroll by autowrap")
			}
			if d := vfMatch(exp, got); d != "" && (ascii || j.match() != "") {
				return j.failf("%s", d)
			}
			if d := vfDiffScr("inactive screen", j.pre.Scr[1-j.pre.Act], j.post.Scr[1-j.pre.Act]); d != "" {
				return j.failf("%s", d)
			}
			if j.op.K == "csi" {
				rep.label("CSI " + j.op.F)
				if j.op.F == "r" {
					return ""
				}
			}
			for _, e := range j.m.scrolls {
				if e.dy != 0 && e.y1 < e.y2 {
					rep.hit("shifts rows")
				}
				if e.dy > e.y2-e.y1 || -e.dy > e.y2-e.y1 {
					rep.hit("clears the region")
				}
				if e.y1 > 0 || e.y2 < j.pre.act().H-1 {
					rep.hit("inside margins")
				}
				if vfHasWide(e.pre) {
					rep.label("with wide characters")
				}
			}
			return ""
		})
	}, "random histories on random screens with margins; every SU SD IL DL DECSTBM and every LF FF IND RI that scrolls, and every single-character autowrap that scrolls, is compared with the reference model (all rows, attributes, margins, cursor); non-trivial: rows are actually shifted or the region cleared")}
}

// ---------------------------------------------------------------- C02

var vfReSGR = regexp.MustCompile("\x1b\\[[0-9;:]*m")

// vfWellFormed checks one state of the terminal: both buffers, the accessors of
// the active one, and the cursor reports.
func vfWellFormed(w *vfWorld) string {
	for k, s := range []screen{w.t.mainScreen, w.t.altScreen} {
		name := []string{"main", "alternate"}[k]
		size := s.Size()
		cur := s.CursorPos()
		if cur.X < 0 || cur.Y < 0 || cur.X >= size.X || cur.Y >= size.Y {
			return fmt.Sprintf("%s screen: cursor (%d,%d) on %dx%d", name, cur.X, cur.Y, size.X, size.Y)
		}
		if s.TopMargin() < 0 || s.TopMargin() > s.BottomMargin() || s.BottomMargin() >= size.Y {
			return fmt.Sprintf("%s screen: scroll region %d..%d on %d rows", name, s.TopMargin(), s.BottomMargin(), size.Y)
		}
		for y := 0; y < size.Y; y++ {
			l := s.StyledLine(0, size.X, y)
			sum := 0
			for i, sp := range l.Spans {
				if sp.Width <= 0 {
					return fmt.Sprintf("%s screen row %d: run %d has width %d (%q)", name, y, i, sp.Width, sp.Text)
				}
				sum += sp.Width
			}
			if sum != size.X || l.Width != size.X {
				return fmt.Sprintf("%s screen row %d: runs sum to %d, line width %d, screen width %d: %q", name, y, sum, l.Width, size.X, l.PlainTextString())
			}
			if _, err := vfLineCells(l, w.mode); err != nil {
				return fmt.Sprintf("%s screen row %d: %v", name, y, err)
			}
			if a := vfReSGR.ReplaceAllString(s.renderLineANSI(y), ""); a != l.PlainTextString() {
				return fmt.Sprintf("%s screen row %d: ANSI rendering has text %q, styled line %q", name, y, a, l.PlainTextString())
			}
		}
	}
	W, H := w.t.Size()
	for y := 0; y < H; y++ {
		styled := w.t.StyledLine(0, W, y).PlainTextString()
		if l := w.t.Line(y); l != styled {
			return fmt.Sprintf("row %d: Line %q, StyledLine %q", y, l, styled)
		}
		if a := vfReSGR.ReplaceAllString(w.t.ANSILine(y), ""); a != styled {
			return fmt.Sprintf("row %d: ANSILine has text %q, StyledLine %q", y, a, styled)
		}
		if ls := w.t.StyledLines(Region{X: 0, Y: y, X2: W, Y2: y + 1}); len(ls) != 1 || ls[0].PlainTextString() != styled {
			return fmt.Sprintf("row %d: StyledLines differs from StyledLine %q", y, styled)
		}
	}
	if w.f.curSet && (w.f.cur.X < 0 || w.f.cur.Y < 0 || w.f.cur.X >= W || w.f.cur.Y >= H) {
		return fmt.Sprintf("frontend told the cursor is at (%d,%d) on %dx%d", w.f.cur.X, w.f.cur.Y, W, H)
	}
	return ""
}

// vfCPR asks for the cursor position.
func vfCPR(w *vfWorld) (x, y int, err error) {
	w.take()
	if err := w.feed([]byte("\x1b[6n"), nil); err != nil {
		return 0, 0, err
	}
	out := w.take()
	var row, col int
	if n, _ := fmt.Sscanf(out, "\x1b[%d;%dR", &row, &col); n != 2 {
		return 0, 0, fmt.Errorf("cursor position report %q", out)
	}
	return col - 1, row - 1, nil
}

func init() {
	p := &vfProfile{ops: vfBias(vfW{"text", 12}, vfW{"char", 8}, vfW{"goto", 6}, vfW{"erase", 6}, vfW{"resize", 4}, vfW{"alt", 2}, vfW{"unkcsi", 1}), texts: vfTextWild, cuts: true}
	vfProps["C02"] = []vfSub{vfProgSub("wellformed", 100, func(t *rapid.T) vfProg { return vfGenProg(t, p, 24) }, func(pr vfProg, rep *vfRep) string {
		w := vfNewWorld(pr.Cfg, false)
		wide := false
		for i, op := range pr.Ops {
			if err := w.do(op); err != nil {
				return ""
			}
			if msg := vfWellFormed(w); msg != "" {
				return fmt.Sprintf("after op %d (%v): %s", i, op, msg)
			}
			if i%4 == 3 || i == len(pr.Ops)-1 {
				if w.gr.Buffered() > 0 {
					continue
				}
				x, y, err := vfCPR(w)
				W, H := w.t.Size()
				if err != nil || x < 0 || y < 0 || x >= W || y >= H {
					return fmt.Sprintf("after op %d (%v): cursor report (%d,%d) %v on %dx%d", i, op, x, y, err, W, H)
				}
			}
			if op.K == "text" {
				for _, r := range string(op.S) {
					if r > 0x2e00 {
						wide = true
					}
				}
			}
			if wide {
				switch {
				case op.K == "resize":
					rep.hit("resize with wide text before")
				case op.K == "csi" && strings.Contains("JKXPLMST", op.F):
					rep.hit("erase or scroll with wide text before")
				case op.K == "text":
					rep.hit("wide text")
				}
			}
		}
		if pr.Cfg.Grid {
			rep.label("grid")
		}
		return ""
	}, "random histories (incl. combining marks, invalid UTF-8, resizes) on random screens, both buffers and text modes; after every operation the structure of every row of both buffers, Line/StyledLine/ANSILine agreement, cursor, margins and the cursor report are checked; non-trivial: involves wide text")}
}

// ---------------------------------------------------------------- C07

type vfCol struct {
	Kind string // default index bright rgb
	V    int
}

type vfRend struct {
	FG, BG vfCol
	M      Mode
}

func vfDefaultRend() vfRend {
	return vfRend{FG: vfCol{Kind: "default"}, BG: vfCol{Kind: "default"}}
}

var vfSetModes = map[int]Mode{1: ModeBold, 2: ModeDim, 3: ModeItalic, 4: ModeUnderline, 5: ModeBlink, 6: ModeRapidBlink, 7: ModeReverse, 8: ModeInvisible, 9: ModeStrike, 21: ModeDoubleUnderline, 51: ModeFramed, 52: ModeEncircled, 53: ModeOverline}
var vfResetModes = map[int]Mode{22: ModeBold | ModeDim, 23: ModeItalic, 24: ModeUnderline | ModeDoubleUnderline, 25: ModeBlink | ModeRapidBlink, 27: ModeReverse, 28: ModeInvisible, 29: ModeStrike, 54: ModeFramed | ModeEncircled, 55: ModeOverline}

// sgr folds SGR parameters; ok is false for parameters outside the property.
func (r *vfRend) sgr(op vfOp) (ok bool) {
	n := len(op.P)
	if n == 0 {
		*r = vfDefaultRend()
		return true
	}
	for i := 0; i < n; i++ {
		p := op.par(i, 0)
		if m := vfSetModes[p]; m != 0 {
			r.M |= m
			continue
		}
		if m := vfResetModes[p]; m != 0 {
			r.M &^= m
			continue
		}
		c := &r.FG
		if p >= 40 && p <= 49 || p >= 100 {
			c = &r.BG
		}
		switch {
		case p == 0:
			*r = vfDefaultRend()
		case p >= 30 && p <= 37 || p >= 40 && p <= 47:
			*c = vfCol{"index", p % 10}
		case p >= 90 && p <= 97 || p >= 100 && p <= 107:
			*c = vfCol{"bright", p % 10}
		case p == 39 || p == 49:
			*c = vfCol{Kind: "default"}
		case p == 38 || p == 48:
			if i+1 >= n {
				return true // truncated: nothing more to apply
			}
			switch op.par(i+1, 0) {
			case 5:
				if i+2 >= n {
					return true
				}
				if op.par(i+2, 0) > 255 {
					return false
				}
				*c = vfCol{"index", op.par(i+2, 0)}
				i += 2
			case 2:
				if i+4 >= n {
					return true
				}
				v := 0
				for k := 2; k <= 4; k++ {
					if op.par(i+k, 0) > 255 {
						return false
					}
					v = v<<8 | op.par(i+k, 0)
				}
				*c = vfCol{"rgb", v}
				i += 4
			default:
				return false
			}
		}
	}
	return true
}

var vfReParams = regexp.MustCompile("\x1b\\[([0-9;]*)m")

// vfDecodeStyle reads a Style through its public methods.
func vfDecodeStyle(s Style) (vfRend, error) {
	r := vfDefaultRend()
	esc := string(s.ANSIEscape())
	rest := vfReParams.ReplaceAllStringFunc(esc, func(m string) string {
		sub := vfReParams.FindStringSubmatch(m)[1]
		op := vfOp{K: "csi", F: "m"}
		if sub != "" {
			op.P = strings.Split(sub, ";")
		}
		r.sgr(op)
		return ""
	})
	if rest != "" {
		return r, fmt.Errorf("ANSIEscape %q has something else than SGR", esc)
	}
	var m Mode
	for i := 0; i < 13; i++ {
		if s.TestMode(1 << i) {
			m |= 1 << i
		}
	}
	var m2 Mode
	for _, x := range s.Modes() {
		m2 |= x
	}
	if m != r.M || m2 != r.M {
		return r, fmt.Errorf("modes: TestMode %b, Modes %b, ANSIEscape %q", m, m2, esc)
	}
	for i, c := range []vfCol{r.FG, r.BG} {
		v, rgb, err := s.GetColor(ColorComponent(i))
		if err != nil || rgb != (c.Kind == "rgb") || c.Kind != "default" && v != c.V && !(c.Kind == "bright" && v&7 == c.V) {
			return r, fmt.Errorf("color %d: GetColor (%d,%v,%v), ANSIEscape %q", i, v, rgb, err, esc)
		}
	}
	return r, nil
}

func init() {
	p := &vfProfile{ops: vfBias(vfW{"sgr", 60}, vfW{"char", 10}, vfW{"erase", 5}, vfW{"goto", 5}, vfW{"lf", 3}), texts: vfTextPlain, cuts: true, lead0: true}
	vfProps["C07"] = []vfSub{vfProgSub("sgr", 100, func(t *rapid.T) vfProg { return vfGenProg(t, p, 24) }, func(pr vfProg, rep *vfRep) string {
		rend := [2]vfRend{vfDefaultRend(), vfDefaultRend()}
		return vfDrive(pr, false, func(j *vfJudged) string {
			if j.err != nil {
				return ""
			}
			if j.op.K == "fill" { // resets the rendition in the end
				rend[j.pre.Act] = vfDefaultRend()
			}
			if j.op.K == "csi" && j.op.Pre == "" && j.op.I == "" && j.op.F == "m" && !strings.ContainsAny(strings.Join(j.op.P, ""), ":<=>?") {
				r := rend[j.pre.Act]
				if !r.sgr(j.op) {
					// not specified: go on from what the terminal made of it
					var err error
					if r, err = vfDecodeStyle(j.post.act().St); err != nil {
						return j.failf("%v", err)
					}
				}
				rend[j.pre.Act] = r
				if !j.w.f.styleSet {
					return j.failf("the frontend was not told a style")
				}
				if told, err := vfDecodeStyle(j.w.f.style); err != nil || told != r {
					return j.failf("the frontend was told style %+v (%v), the rendition is %+v", told, err, r)
				}
				rep.hit("SGR")
				for i := range j.op.P {
					if q := j.op.par(i, 0); q == 38 || q == 48 {
						rep.label("extended colour")
						break
					}
				}
				if len(j.op.P) > 8 {
					rep.label("more than 8 parameters")
				}
				if d := vfDiffScr("screen", func() *vfScr { c := j.pre.act().clone(); c.St = j.post.act().St; return c }(), j.post.act()); d != "" {
					return j.failf("%s", d)
				}
			}
			for k := range rend {
				if got, err := vfDecodeStyle(j.post.Scr[k].St); err != nil || got != rend[k] {
					return j.failf("rendition of screen %d is %+v (%v), expected %+v", k, got, err, rend[k])
				}
			}
			switch j.kind {
			case "C03", "C05", "C06", "C04":
			default:
				return ""
			}
			m, s := j.m.s(), j.post.act()
			if m.W != s.W || m.H != s.H {
				return ""
			}
			for y := range m.C {
				for x, e := range m.C[y] {
					g := s.C[y][x]
					if e.any || e.T != g.T || e.W != g.W || e.S == g.S || e.loose && e.old == g.S {
						continue
					}
					return j.failf("cell (%d,%d) %q has style %q, expected %q", x, y, g.T, g.S.ANSIEscape(), e.S.ANSIEscape())
				}
			}
			if rend[j.pre.Act] != vfDefaultRend() {
				rep.hit("op with attributes")
			}
			return ""
		})
	}, "random histories rich in SGR (all 13 modes and resets, default/indexed/bright/RGB colours, truncated and unknown parameters, more than 8 parameters); an abstract fold predicts the rendition, which is compared with the frontend's style, the screen's style decoded through TestMode/Modes/GetColor/ANSIEscape, and every cell's style against the reference model; non-trivial: an SGR or a drawing operation under non-default attributes")}
}
