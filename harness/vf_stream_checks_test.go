package termemu

// C01, C08, C09, C10, C14: properties of whole streams.

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/rivo/uniseg"
	"pgregory.net/rapid"
)

var vfAllOps = []vfW{{"text", 12}, {"char", 3}, {"lf", 5}, {"cr", 3}, {"ctl", 3}, {"badctl", 1}, {"cup", 5}, {"goto", 3}, {"edge", 4}, {"save", 3}, {"erase", 6}, {"scroll", 6}, {"region", 5}, {"sgr", 4}, {"wrap", 4}, {"alt", 3}, {"mode", 3}, {"mok", 1}, {"keypad", 1}, {"kbd", 2}, {"query", 2}, {"osc", 2}, {"oscodd", 1}, {"dcs", 1}, {"unkcsi", 4}, {"unkesc", 2}}

// ---------------------------------------------------------------- C01

// vfSweep calls every read accessor with in-range arguments.
func vfSweep(w *vfWorld, all bool) string {
	W, H := w.t.Size()
	if W < 1 || H < 1 {
		return fmt.Sprintf("Size reports %dx%d", W, H)
	}
	ys := []int{0, H - 1, H / 2}
	if all {
		ys = nil
		for y := 0; y < H; y++ {
			ys = append(ys, y)
		}
	}
	for _, y := range ys {
		_ = w.t.Line(y)
		_ = w.t.ANSILine(y)
		for x := 0; x <= W; x++ {
			if W <= 12 && all {
				for n := 0; x+n <= W; n++ {
					_ = w.t.StyledLine(x, n, y)
				}
			} else {
				for _, n := range []int{0, 1, 2, W - x} {
					if n <= W-x {
						_ = w.t.StyledLine(x, n, y)
					}
				}
			}
		}
	}
	for _, r := range []Region{{0, 0, W, H}, {0, 0, 1, 1}, {W - 1, H - 1, W, H}, {W / 2, H / 2, W, H}, {W / 3, 0, W/3 + 1, H}, {0, H / 2, W, H/2 + 1}} {
		_ = w.t.StyledLines(r)
	}
	return ""
}

// vfMutate damages the bytes of a valid sequence.
func vfMutate(t *rapid.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, vfInt(t, 1, 3); i < n && len(b) > 0; i++ {
		k := vfInt(t, 0, len(b)-1)
		switch vfInt(t, 0, 4) {
		case 0:
			b = append(b[:k], b[k+1:]...)
		case 1:
			b[k] = byte(vfInt(t, 0, 255))
		case 2:
			b = append(b[:k+1], b[k:]...)
		case 3:
			b = b[:k]
		case 4:
			b = append(b[:k], append([]byte(vfPick(t, "\x1b", ";", "?", "99999999999", "\x00", "-1", ":", "\x80", "\x1b[", "18446744073709551615", "9223372036854775808", "00000000000000000000005")), b[k:]...)...)
		}
	}
	return b
}

func vfSizeAny(t *rapid.T) (int, int) {
	switch vfInt(t, 0, 11) {
	case 0, 1:
		return vfInt(t, 1, 2), vfInt(t, 1, 2)
	case 2:
		return vfInt(t, 1, 3), vfInt(t, 1, 60)
	case 3:
		return vfInt(t, 1, 300), vfInt(t, 1, 3)
	case 4:
		return vfPick(t, 80, 132, 255, 256, 257), vfPick(t, 24, 50, 25)
	case 5:
		return vfInt(t, 1, 12), vfInt(t, 1, 12)
	}
	return vfSize(t)
}

func vfGenStream(t *rapid.T, p *vfProfile, maxN int) vfProg {
	cfg := vfGenCfg(t)
	cfg.W, cfg.H = vfSizeAny(t)
	n := vfInt(t, 1, maxN)
	pr := vfProg{Cfg: cfg}
	if vfOneIn(t, 2) {
		pr.Ops = vfSetup(t, p, cfg)
	}
	for i := 0; i < n; i++ {
		o := vfGenOp(t, vfWeighted(t, p.ops), p, cfg)
		if o.K == "resize" {
			o.W, o.H = vfSizeAny(t)
			cfg.W, cfg.H = o.W, o.H
		} else if vfOneIn(t, 8) {
			o = vfOp{K: "raw", S: vfB(vfMutate(t, o.bytes())), Cut: o.Cut}
			if o.S == "" {
				continue
			}
		}
		pr.Ops = append(pr.Ops, o)
	}
	return pr
}

func vfRunC01(pr vfProg, rep *vfRep) string {
	w := vfNewWorld(pr.Cfg, true) // reads the screen back in every RegionChanged
	w.whole = true
	malformed := false
	for i, op := range pr.Ops {
		if err := w.do(op); err != nil {
			return fmt.Sprintf("op %d (%v): %v", i, op, err)
		}
		if i%3 == 2 || i == len(pr.Ops)-1 {
			if msg := vfSweep(w, i == len(pr.Ops)-1); msg != "" {
				return fmt.Sprintf("after op %d (%v): %s", i, op, msg)
			}
		}
		switch {
		case op.K == "raw":
			malformed = true
			rep.hit("raw or damaged bytes")
		case op.K == "resize" && i > 0:
			rep.hit("resize")
			if op.Late > 0 {
				rep.label("resize while the parser waits")
			}
		case op.K == "csi" && len(op.P) > 0 && len(op.P[0]) > 3:
			rep.hit("huge parameter")
		}
	}
	if err := w.flushLate(); err != nil {
		return fmt.Sprintf("Resize: %v", err)
	}
	// whatever state the parser is in, the terminal still works afterwards
	if err := w.feed([]byte("\x1b\\\x18\a\x1b\\x\r\n"), nil); err != nil {
		return fmt.Sprintf("after the stream: %v", err)
	}
	if msg := vfSweep(w, true); msg != "" {
		return msg
	}
	W, H := w.t.Size()
	if W == 1 || H == 1 {
		rep.hit("single row or column")
	}
	if malformed {
		rep.label("malformed streams")
	}
	if pr.Cfg.Grid {
		rep.label("grid")
	}
	return ""
}

func init() {
	p := &vfProfile{ops: append([]vfW{{"raw", 40}, {"resize", 10}, {"char", 5}}, vfAllOps...), texts: vfTextWild, cuts: true, lead0: true}
	long := vfProgSub("long", 2, func(t *rapid.T) vfProg {
		cfg := vfGenCfg(t)
		pr := vfProg{Cfg: cfg}
		for i, n := 0, vfInt(t, 1, 3); i < n; i++ {
			o := vfOp{K: "raw"}
			unit := vfPick(t, "abc", "世", "é\u0301", "👍🏽", "\u0301", "\u200d", "🇦", "\xff", "\xe4\xb8", "a\x1b[31mb", "\x1b]0;t\a", "\x1b[5;5H世", "\x1b[1;2;3;4;5;6;7;8;9;10;11;12m", "\n", "1;", "\x1bP")
			reps := vfInt(t, 1, 5200/len(unit))
			o.S = vfB(vfPick(t, "", "", "\x1b[", "\x1b]0;", "\x1bP", "\x1b[?7h", "e") + strings.Repeat(unit, reps))
			if vfOneIn(t, 2) {
				for k := 0; k < 4; k++ {
					o.Cut = append(o.Cut, vfInt(t, 1, len(o.S)))
				}
				vfSortInts(o.Cut)
			}
			pr.Ops = append(pr.Ops, o)
			if vfOneIn(t, 3) {
				pr.Ops = append(pr.Ops, vfGenOp(t, "resize", p, cfg))
			}
		}
		return pr
	}, func(pr vfProg, rep *vfRep) string {
		for _, o := range pr.Ops {
			if len(o.S) > 4096 {
				rep.hit("longer than the read buffer")
			}
		}
		return vfRunC01(pr, rep)
	}, "streams of up to 5200 repetitions of one unit, across the read-buffer boundary; non-trivial: longer than 4096 bytes")
	vfProps["C01"] = []vfSub{
		vfProgSub("stream", 100, func(t *rapid.T) vfProg { return vfGenStream(t, p, 40) }, vfRunC01,
			"random streams of valid, damaged and raw byte sequences (parameters beyond int64, malformed UTF-8, truncated sequences) cut into random reads, at sizes from 1x1, both text modes and buffers, with Resize between operations and while the parser waits; every parser step must consume input, nothing may panic, and the read accessors are swept; non-trivial: raw bytes, a huge parameter, a resize, or a single row/column"),
		long,
	}
}

// ---------------------------------------------------------------- C08

// vfSplit is one stream with several segmentations.
type vfSplit struct {
	Cfg    vfCfg   `json:"cfg"`
	Ops    []vfOp  `json:"ops"`
	Cuts   [][]int `json:"cuts"` // besides one read and byte by byte
	Every  bool    `json:"every,omitempty"`
	Single bool    `json:"single,omitempty"` // every single cut
}

func (c *vfSplit) stream() []byte {
	var b []byte
	for _, o := range c.Ops {
		b = append(b, o.bytes()...)
	}
	return b
}

// vfAllowedCuts returns the offsets at which the stream may be cut.
func vfAllowedCuts(b []byte, mode TextReadMode) []int {
	var ok []int
	if mode == TextReadModeRune {
		for i := 1; i < len(b); i++ {
			ok = append(ok, i)
		}
		return ok
	}
	bounds := func(from, to int) map[int]bool {
		m := map[int]bool{}
		n, state := from, -1
		for rest := b[from:]; len(rest) > 0 && n < to; {
			var c []byte
			c, rest, _, state = uniseg.FirstGraphemeCluster(rest, state)
			n += len(c)
			m[n] = true
		}
		return m
	}
	all := bounds(0, len(b))
	// A sequence that is left unfinished may take the first bytes of the text
	// after it, and a string may end inside it: a cut has to lie between two
	// clusters whichever byte the text is read from.
	for i := 0; i < len(b); {
		if b[i] < 0x80 {
			i++
			continue
		}
		end := i
		for end < len(b) && b[end] >= 0x80 {
			end++
		}
		for s := i + 1; s < end; s++ {
			if s > i+4 && b[s-1] != 0x9c {
				continue
			}
			m := bounds(s, end)
			for k := s + 1; k <= end; k++ {
				if !m[k] {
					delete(all, k)
				}
			}
		}
		i = end
	}
	for i := 1; i < len(b); i++ {
		if all[i] {
			ok = append(ok, i)
		}
	}
	return ok
}

// vfOutcome is everything the segmentation must not influence.
type vfOutcome struct {
	snap    *vfSnap
	replies string
	effects []string
	cur     Pos
	cells   [][]vfCell
	lost    [][]vfCell
	bad     string
}

func vfRunSegments(cfg vfCfg, b []byte, cuts []int) (*vfOutcome, error) {
	w := vfNewWorld(cfg, true)
	if err := w.feed(b, cuts); err != nil {
		return nil, err
	}
	// whatever is unfinished is finished the same way
	if err := w.feed([]byte("\x1b\\x\x1b[u\x1b[6n\x1b[?u"), nil); err != nil {
		return nil, err
	}
	s, err := w.snap()
	if err != nil {
		return nil, err
	}
	return &vfOutcome{snap: s, replies: w.take(), effects: w.f.effects, cur: w.f.cur, cells: w.f.cells, lost: w.f.lost, bad: w.f.badRead + w.f.lostBad}, nil
}

func vfDiffRows(what string, a, b [][]vfCell) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%s: %d rows vs %d", what, len(a), len(b))
	}
	for y := range a {
		if len(a[y]) != len(b[y]) {
			return fmt.Sprintf("%s row %d: %d cells vs %d", what, y, len(a[y]), len(b[y]))
		}
		for x := range a[y] {
			if !a[y][x].same(b[y][x]) {
				return fmt.Sprintf("%s cell (%d,%d): %s vs %s", what, x, y, vfCellStr(a[y][x]), vfCellStr(b[y][x]))
			}
		}
	}
	return ""
}

func vfDiffOutcome(a, b *vfOutcome) string {
	if d := vfDiffSnap(a.snap, b.snap); d != "" {
		return d
	}
	if a.replies != b.replies {
		return fmt.Sprintf("replies %q vs %q", a.replies, b.replies)
	}
	if x, y := strings.Join(a.effects, " "), strings.Join(b.effects, " "); x != y {
		return fmt.Sprintf("frontend calls %s vs %s", x, y)
	}
	if a.cur != b.cur {
		return fmt.Sprintf("frontend's cursor %v vs %v", a.cur, b.cur)
	}
	if a.bad != b.bad {
		return fmt.Sprintf("reads in callbacks: %q vs %q", a.bad, b.bad)
	}
	if d := vfDiffRows("frontend's copy", a.cells, b.cells); d != "" {
		return d
	}
	return vfDiffRows("scrollback", a.lost, b.lost)
}

func vfRunC08(c vfSplit, rep *vfRep) string {
	b := c.stream()
	if len(b) == 0 {
		return ""
	}
	mode := c.Cfg.mode()
	ok := vfAllowedCuts(b, mode)
	allowed := map[int]bool{}
	for _, k := range ok {
		allowed[k] = true
	}
	base, err := vfRunSegments(c.Cfg, b, nil)
	if err != nil {
		return "" // not this property's
	}
	n := 0
	check := func(cuts []int) string {
		var use []int
		for _, k := range cuts {
			if allowed[k] && (len(use) == 0 || k > use[len(use)-1]) {
				use = append(use, k)
			}
		}
		n++
		o, err := vfRunSegments(c.Cfg, b, use)
		if err != nil {
			return fmt.Sprintf("stream %q cut at %v: %v", b, use, err)
		}
		if d := vfDiffOutcome(base, o); d != "" {
			return fmt.Sprintf("stream %q in one read vs cut at %v: %s", b, use, d)
		}
		return ""
	}
	if msg := check(ok); msg != "" {
		return msg
	}
	for _, cuts := range c.Cuts {
		if msg := check(cuts); msg != "" {
			return msg
		}
	}
	if c.Single {
		for _, k := range ok {
			if msg := check([]int{k}); msg != "" {
				return msg
			}
		}
	}
	if c.Every && len(ok) <= 9 {
		for m := 0; m < 1<<len(ok); m++ {
			var cuts []int
			for i, k := range ok {
				if m>>i&1 == 1 {
					cuts = append(cuts, k)
				}
			}
			if msg := check(cuts); msg != "" {
				return msg
			}
		}
	}
	for i := 0; i < n; i++ {
		rep.label("segmentations")
	}
	if len(ok) > 0 {
		multi := false
		for _, x := range b {
			if x >= 0x80 || x == 27 {
				multi = true
			}
		}
		if multi {
			rep.hit("multi-byte characters or sequences cut")
		}
	}
	if len(b) > 4096 {
		rep.hit("longer than the read buffer")
	}
	if len(base.lost) > 0 {
		rep.label("with scrollback")
	}
	return ""
}

func vfC08Sub(name string, weight int, gen func(t *rapid.T) vfSplit, rule string) vfSub {
	return vfSub{
		name: name, weight: weight, rule: rule,
		gen: func(t *rapid.T) any { return gen(t) },
		run: func(c any, rep *vfRep) string { return vfRunC08(c.(vfSplit), rep) },
		dec: vfDec[vfSplit],
		shrink: func(c any) []any {
			x := c.(vfSplit)
			var out []any
			for i := range x.Cuts {
				d := x
				d.Cuts = append(append([][]int(nil), x.Cuts[:i]...), x.Cuts[i+1:]...)
				out = append(out, d)
				for j := range x.Cuts[i] {
					d := x
					d.Cuts = append([][]int(nil), x.Cuts...)
					d.Cuts[i] = append(append([]int(nil), x.Cuts[i][:j]...), x.Cuts[i][j+1:]...)
					out = append(out, d)
				}
			}
			if !x.Single {
				d := x
				d.Single, d.Cuts = true, nil
				out = append(out, d)
			}
			for _, ops := range vfShrinkOps(x.Ops) {
				d := x
				d.Ops = ops
				out = append(out, d)
			}
			for _, k := range vfShrinkCfg(x.Cfg) {
				d := x
				d.Cfg = k
				out = append(out, d)
			}
			return out
		},
	}
}

func init() {
	p := &vfProfile{ops: append([]vfW{{"raw", 3}, {"text", 14}, {"char", 4}}, vfAllOps...), texts: vfTextWild}
	short := &vfProfile{ops: append([]vfW{{"raw", 6}, {"char", 40}}, vfAllOps...), texts: vfTextWild, maxText: 2}
	cuts := func(t *rapid.T, n int) []int {
		var c []int
		for i, k := 0, vfInt(t, 1, 6); i < k && n > 1; i++ {
			c = append(c, vfInt(t, 1, n-1))
		}
		vfSortInts(c)
		return c
	}
	vfProps["C08"] = []vfSub{
		vfC08Sub("stream", 100, func(t *rapid.T) vfSplit {
			cfg := vfGenCfg(t)
			c := vfSplit{Cfg: cfg, Ops: append(vfSetup(t, p, cfg), vfGenOps(t, p, cfg, 1, 16)...)}
			n := len(c.stream())
			for i := 0; i < 3; i++ {
				c.Cuts = append(c.Cuts, cuts(t, n))
			}
			c.Single = n <= 24 || vfOneIn(t, 20)
			return c
		}, "random streams delivered in one read, byte by byte (in grapheme mode: cluster by cluster), with three random multi-cuts and, for some, with every single cut; final screens, modes, replies, frontend effects, the frontend's copy and the scrollback must be equal; non-trivial: multi-byte characters or escape sequences are cut"),
		vfC08Sub("every", 40, func(t *rapid.T) vfSplit {
			cfg := vfGenCfg(t)
			cfg.W, cfg.H = vfInt(t, 1, 6), vfInt(t, 1, 4)
			c := vfSplit{Cfg: cfg, Every: true}
			if vfOneIn(t, 2) {
				c.Ops = append(c.Ops, vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: "h"})
				c.Every = false
				c.Single = true
			}
			for len(c.stream()) < 9 && len(c.Ops) < 6 {
				o := vfGenOp(t, vfWeighted(t, short.ops), short, cfg)
				if len(c.stream())+len(o.bytes()) > 24 {
					continue
				}
				c.Ops = append(c.Ops, o)
			}
			c.Cuts = [][]int{cuts(t, len(c.stream()))}
			return c
		}, "short streams with every segmentation (up to 9 cut points) or every single cut"),
		vfC08Sub("long", 1, func(t *rapid.T) vfSplit {
			cfg := vfGenCfg(t)
			plain := &vfProfile{ops: []vfW{{"text", 20}, {"lf", 3}, {"sgr", 3}, {"cup", 2}, {"osc", 2}, {"dcs", 1}, {"query", 1}}, texts: []vfW{{"ascii", 4}, {"wide", 4}, {"latin", 4}}, maxText: 60}
			if cfg.mode() == TextReadModeGrapheme {
				plain.texts = []vfW{{"ascii", 6}, {"latin", 3}}
			}
			c := vfSplit{Cfg: cfg}
			if vfOneIn(t, 2) { // a boundary at a chosen byte of an operation
				c.Ops = append(c.Ops, vfOp{K: "text", S: vfB(strings.Repeat("x", 4080+vfInt(t, 0, 16)))})
			}
			for n := 0; n < 4600; {
				o := vfGenOp(t, vfWeighted(t, plain.ops), plain, cfg)
				n += len(o.bytes())
				c.Ops = append(c.Ops, o)
				if len(c.Ops) == 1 && vfOneIn(t, 2) {
					n = 4600 - 300
				}
				if len(c.Ops[0].S) > 4000 && len(c.Ops) > 12 {
					break
				}
			}
			n := len(c.stream())
			for i := 0; i < 3; i++ {
				c.Cuts = append(c.Cuts, cuts(t, n))
			}
			c.Cuts = append(c.Cuts, []int{4095}, []int{4096}, []int{4097}, []int{1, 4097})
			return c
		}, "streams longer than the 4096-byte read buffer, cut at and around the boundary"),
	}
}

// ---------------------------------------------------------------- C09

// vfInsert is a history with sequences to insert.
type vfInsert struct {
	Cfg vfCfg  `json:"cfg"`
	Ops []vfOp `json:"ops"`
	Ins []vfOp `json:"ins"`
	At  []int  `json:"at"` // Ins[i] goes before Ops[At[i]]
}

// vfIgnorable reports whether op is a sequence that must not change anything.
func vfIgnorable(op vfOp) bool {
	switch op.K {
	case "csi":
		key := op.Pre + op.F
		if op.I != "" {
			return true
		}
		if strings.ContainsAny(strings.Join(op.P, ""), ":<=>?") {
			return true
		}
		switch key {
		case "A", "B", "C", "D", "G", "d", "H", "f", "s", "u", "J", "K", "X", "P", "S", "T", "L", "M", "r", "m", "c", "n", ">c", ">m", "?u", "=u", ">u", "<u":
			return false
		case "h", "l":
			return true // no ANSI mode is implemented
		case "?h", "?l":
			for i := range op.P {
				switch op.par(i, 0) {
				case 1, 7, 9, 12, 25, 1000, 1002, 1003, 1004, 1005, 1006, 1015, 1034, 1049, 2004:
					return false
				}
			}
		}
		return true
	case "esc":
		switch string(op.S) {
		case "D", "M", "=", ">":
			return false
		}
		return true
	case "osc":
		if op.I == "none" && op.S != "" {
			return op.S[0] != ';' && (op.S[0] < '0' || op.S[0] > '9')
		}
		switch op.F {
		case "", "0", "2", "6", "7":
			return false
		}
		return true
	case "dcs":
		return true
	case "ctl":
		return len(op.S) == 1 && (op.S[0] < 5 || op.S[0] == 6 || op.S[0] >= 14 && op.S[0] != 27 && op.S[0] != 127)
	}
	return false
}

// vfNoDraw reports whether op is a complete sequence that draws nothing and moves
// nothing.
func vfNoDraw(op vfOp) bool {
	if vfIgnorable(op) || op.K == "osc" {
		return true
	}
	if op.K == "csi" {
		switch op.Pre + op.F {
		case "m", "c", "n", ">c", ">m", "?u", "=u", ">u", "<u", "?h", "?l", "r", "s":
			return true
		}
	}
	return op.K == "esc" && (op.S == "=" || op.S == ">")
}

// vfMovesOnly reports whether op is a sequence that draws nothing but moves the cursor.
func vfMovesOnly(op vfOp) bool {
	return op.K == "csi" && op.Pre == "" && op.I == "" && strings.Contains("ABCDGHdfu", op.F)
}

// vfC09Enum enumerates the ECMA-48 syntax space of CSI and ESC sequences.
func vfC09Enum() vfSub {
	s := vfSub{name: "syntax", dec: vfDec[vfInsert],
		run:  func(c any, rep *vfRep) string { return vfRunC09(c.(vfInsert), rep) },
		rule: "enumerated: every CSI prefix x parameter form (none, 1, empty, 9, 20, sub-parameters) x intermediate x final byte, and every ESC intermediate x final, that has no function, between two characters of text; the result equals that of the text alone"}
	s.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		n := 0
		try := func(mode int, grid bool, o vfOp) bool {
			if !vfIgnorable(o) {
				return true
			}
			n++
			if n%shards != shard {
				return true
			}
			return yield(vfInsert{Cfg: vfCfg{W: 6, H: 3, Mode: mode, Grid: grid}, Ops: []vfOp{{K: "text", S: "ab"}, {K: "text", S: "世c"}, {K: "ctl", S: "\n"}}, Ins: []vfOp{o}, At: []int{1}})
		}
		many := func(k int) []string {
			var p []string
			for i := 0; i < k; i++ {
				p = append(p, "1")
			}
			return p
		}
		inter := []string{""}
		for c := 0x20; c <= 0x2f; c++ {
			inter = append(inter, string(rune(c)))
		}
		inter = append(inter, "  ", "$%", "!\"#$%&'()*+,-./ ")
		form := 0
		for _, pre := range []string{"", "?", ">", "<", "="} {
			for _, p := range [][]string{nil, {"1"}, {"", "2"}, {"3", "", "25"}, many(9), many(20), {"4:3"}, {"38", "2:1", "7"}, {"99999999999999999999"}, {"1?5"}} {
				form++
				for k, in := range inter {
					for f := 0x40; f <= 0x7e; f++ {
						if !thorough && len(in) > 0 && (k+f+form)%4 != 0 {
							continue
						}
						if !try((k+f)&1, (k+f)%5 == 0, vfOp{K: "csi", Pre: pre, P: p, I: in, F: string(rune(f))}) {
							return
						}
					}
				}
			}
		}
		for k, in := range inter {
			for f := 0x30; f <= 0x7e; f++ {
				if in == "" && strings.ContainsRune("P[]X^_", rune(f)) {
					continue
				}
				if !try((k+f)&1, (k+f)%5 == 0, vfOp{K: "esc", S: vfB(in + string(rune(f)))}) {
					return
				}
			}
		}
		// two and three intermediates
		for c := 0; c < 256; c++ {
			for f := 0x30; f <= 0x7e; f++ {
				if !thorough && (c+f)%8 != 0 {
					continue
				}
				in := string(rune(0x20+c>>4)) + string(rune(0x20+c&15))
				if f%3 == 0 {
					in += string(rune(0x20 + f&15))
				}
				if !try(f&1, (c+f)%5 == 0, vfOp{K: "esc", S: vfB(in + string(rune(f)))}) {
					return
				}
				if f >= 0x40 && !try(f&1, (c+f)%5 == 0, vfOp{K: "csi", P: []string{"2", "3"}[:f%3], I: in, F: string(rune(f))}) {
					return
				}
			}
		}
	}
	return s
}

// vfC09Strings enumerates pairs of bytes in the payload of OSC and DCS strings.
func vfC09Strings() vfSub {
	s := vfSub{name: "strings", dec: vfDec[vfProg],
		run:  func(c any, rep *vfRep) string { return vfRunC09Drive(c.(vfProg), rep) },
		rule: "enumerated: every pair of payload bytes, alone and after ESC, in an OSC with and without a function and in a DCS, with every terminator, followed by text: consumed in its entirety, the payload delivered exactly"}
	s.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		var alpha []byte
		for c := 0; c < 256; c++ {
			if c == 7 || c == 0x18 || c == 0x1a || c == 0x1b || c == 0x9c {
				continue
			}
			if !thorough && c >= 0x20 && c%5 != 0 && !strings.ContainsRune(" 09:;?@AP[\\]^_`m~\x7f", rune(c)) {
				continue
			}
			alpha = append(alpha, byte(c))
		}
		n := 0
		for i, b1 := range alpha {
			for j, b2 := range alpha {
				if n++; n%shards != shard {
					continue
				}
				terms := []vfB{"\a", "\x1b\\"}
				if b2 < 0x80 {
					terms = append(terms, "\x9c")
				}
				for k, pay := range []string{string([]byte{b1, b2}), string([]byte{27, b1, b2}), string([]byte{'1', 27, b1, b2, ';'}), string([]byte{b1, ';', b2, 'z'})} {
					if strings.Contains(pay, "\x1b\\") {
						continue
					}
					var ops []vfOp
					term := terms[(i+j+k)%len(terms)]
					for _, f := range []string{"2", "0", "6", "7", "9"} {
						if f == "2" || f == "9" || thorough {
							ops = append(ops, vfOp{K: "osc", F: f, S: vfB(pay), T: term})
						}
					}
					if term == "\a" {
						term = "\x1b\\"
					}
					ops = append(ops, vfOp{K: "dcs", S: vfB(pay), T: term})
					ops = append(ops, vfOp{K: "text", S: "x"})
					if !yield(vfProg{Cfg: vfCfg{W: 6, H: 1, Mode: (i + j) & 1}, Ops: ops}) {
						return
					}
				}
			}
		}
		// characters with 0x9c, which on its own ends a string, in their encoding
		for lead := 0xc2; lead <= 0xf4; lead++ {
			if n++; n%shards != shard {
				continue
			}
			size := 1
			if lead >= 0xe0 {
				size++
			}
			if lead >= 0xf0 {
				size++
			}
			for at := 0; at < size; at++ {
				for _, fill := range []byte{0x80, 0x9f, 0xa0, 0xbf, 0x9c} {
					c := []byte{byte(lead), fill, fill, fill}[:size+1]
					c[1+at] = 0x9c
					if !utf8.Valid(c) {
						continue
					}
					for _, term := range []vfB{"\a", "\x1b\\", "\x9c"} {
						dt := term
						if term == "\a" {
							dt = "\x1b\\"
						}
						for _, pay := range []string{string(c), "a" + string(c) + "z", string(c) + string(c)} {
							if !yield(vfProg{Cfg: vfCfg{W: 6, H: 1, Mode: lead & 1}, Ops: []vfOp{{K: "osc", F: "2", S: vfB(pay), T: term}, {K: "osc", F: "9", S: vfB(pay), T: term}, {K: "dcs", S: vfB(pay), T: dt}, {K: "text", S: "x"}}}) {
								return
							}
						}
					}
				}
			}
		}
	}
	s.shrink = func(c any) []any { return vfShrinkProg(c.(vfProg)) }
	return s
}

func vfRunOps(cfg vfCfg, ops []vfOp) (*vfOutcome, error) {
	w := vfNewWorld(cfg, true)
	for _, o := range ops {
		if err := w.do(o); err != nil {
			return nil, err
		}
	}
	if err := w.feed([]byte("x\x1b[u\x1b[6n\x1b[?u"), nil); err != nil {
		return nil, err
	}
	s, err := w.snap()
	if err != nil {
		return nil, err
	}
	return &vfOutcome{snap: s, replies: w.take(), effects: w.f.effects, cur: w.f.cur, cells: w.f.cells, lost: w.f.lost, bad: w.f.badRead + w.f.lostBad}, nil
}

func vfRunC09(c vfInsert, rep *vfRep) string {
	for _, o := range c.Ins {
		if !vfIgnorable(o) {
			return ""
		}
	}
	// text that could combine across an inserted sequence is not used
	for _, o := range c.Ops {
		if o.K == "text" && !vfTextSpecified(string(o.S), c.Cfg.mode()) {
			return ""
		}
	}
	base, err := vfRunOps(c.Cfg, c.Ops)
	if err != nil {
		return ""
	}
	var with []vfOp
	for i := 0; i <= len(c.Ops); i++ {
		for k, at := range c.At {
			if at == i || i == len(c.Ops) && at > i {
				with = append(with, c.Ins[k])
				rep.hit("inserted " + c.Ins[k].K)
			}
		}
		if i < len(c.Ops) {
			with = append(with, c.Ops[i])
		}
	}
	got, err := vfRunOps(c.Cfg, with)
	if err != nil {
		return fmt.Sprintf("with %v: %v", c.Ins, err)
	}
	if d := vfDiffOutcome(base, got); d != "" {
		return fmt.Sprintf("inserting %v before %v changes the result: without vs with: %s", c.Ins, c.At, d)
	}
	return ""
}

// vfRunC09Drive checks single sequences: no residue on the screen, exact strings.
func vfRunC09Drive(pr vfProg, rep *vfRep) string {
	w := vfNewWorld(pr.Cfg, false)
	pre, err := w.snap()
	if err != nil {
		return ""
	}
	for i, op := range pr.Ops {
		w.f.reset()
		w.f.strLog = nil
		bells := w.f.bells
		w.take()
		if err := w.do(op); err != nil {
			if vfNoDraw(op) || err == errVfShort {
				return fmt.Sprintf("op %d (%v): %v", i, op, err)
			}
			return ""
		}
		post, err := w.snap()
		if err != nil {
			return ""
		}
		where := fmt.Sprintf("op %d (%v)", i, op)
		if vfMovesOnly(op) && len(w.late) == 0 {
			for k := range pre.Scr {
				if !pre.Scr[k].equalCells(post.Scr[k]) {
					return where + ": " + vfDiffScr("cells", pre.Scr[k], post.Scr[k])
				}
			}
		}
		if !vfNoDraw(op) {
			pre = post
			continue
		}
		for k := range pre.Scr {
			a, b := pre.Scr[k], post.Scr[k]
			if !a.equalCells(b) {
				return where + ": " + vfDiffScr("cells", a, b)
			}
			if a.X != b.X || a.Y != b.Y {
				return where + ": " + vfDiffScr("", a, b)
			}
		}
		if w.f.bells != bells {
			return where + ": rang the bell"
		}
		if vfIgnorable(op) {
			rep.hit("unrecognised " + op.K)
			if d := vfDiffSnap(pre, post); d != "" {
				return where + ": " + d
			}
			if out := w.take(); out != "" {
				return fmt.Sprintf("%s: replied %q", where, out)
			}
			if len(w.f.flagLog)+len(w.f.strLog) > 0 {
				return fmt.Sprintf("%s: told the frontend %v %v", where, w.f.flagLog, w.f.strLog)
			}
		}
		if op.K == "osc" && !vfIgnorable(op) && op.I == "" && op.F != "" {
			v := map[string]ViewString{"0": VSWindowTitle, "2": VSWindowTitle, "6": VSCurrentDirectory, "7": VSCurrentFile}[op.F]
			want := fmt.Sprintf("S%d=%q", v, string(op.S))
			if len(w.f.strLog) != 1 || w.f.strLog[0] != want {
				return fmt.Sprintf("%s: strings delivered to the frontend: %v, expected %s", where, w.f.strLog, want)
			}
			if post.Strs[v] != string(op.S) {
				return fmt.Sprintf("%s: stored string %q", where, post.Strs[v])
			}
			rep.hit("OSC string")
			if op.S == "" {
				rep.label("empty payload")
			}
			for _, r := range string(op.S) {
				if r > 127 {
					rep.label("non-ASCII payload")
					break
				}
			}
		}
		pre = post
	}
	return ""
}

func init() {
	ctx := &vfProfile{ops: vfBias(vfW{"text", 10}, vfW{"alt", 1}), texts: vfTextFull, maxText: 5}
	seq := &vfProfile{ops: append([]vfW{{"unkcsi", 60}, {"unkesc", 14}, {"osc", 24}, {"oscodd", 5}, {"dcs", 10}, {"text", 20}, {"badctl", 2}}, vfAllOps...), texts: vfTextFull, maxText: 4, cuts: true}
	gen := func(t *rapid.T) any {
		cfg := vfGenCfg(t)
		c := vfInsert{Cfg: cfg, Ops: append(vfSetup(t, ctx, cfg), vfGenOps(t, ctx, cfg, 1, 12)...)}
		for i := range c.Ops {
			c.Ops[i].Late = 0
		}
		for i, n := 0, vfInt(t, 1, 4); i < n; i++ {
			var o vfOp
			switch vfInt(t, 0, 6) {
			case 0, 1, 2:
				o = vfGenOp(t, "unkcsi", seq, cfg)
			case 3, 4:
				o = vfGenOp(t, "unkesc", seq, cfg)
			case 5:
				o = vfGenOp(t, "dcs", seq, cfg)
			case 6:
				if vfOneIn(t, 2) {
					o = vfOSCOdd(t)
					break
				}
				o = vfGenOp(t, "osc", seq, cfg)
				o.F = vfPick(t, "1", "4", "8", "10", "11", "52", "104", "112", "133", "777", "1337", "9", "3", "5")
			}
			c.Ins = append(c.Ins, o)
			c.At = append(c.At, vfInt(t, 0, len(c.Ops)))
		}
		return c
	}
	vfProps["C09"] = []vfSub{
		{
			name: "insert", weight: 60, gen: gen,
			run: func(c any, rep *vfRep) string { return vfRunC09(c.(vfInsert), rep) },
			dec: vfDec[vfInsert],
			shrink: func(x any) []any {
				c := x.(vfInsert)
				var out []any
				for i := range c.Ins {
					d := c
					d.Ins = append(append([]vfOp(nil), c.Ins[:i]...), c.Ins[i+1:]...)
					d.At = append(append([]int(nil), c.At[:i]...), c.At[i+1:]...)
					out = append(out, d)
				}
				for _, ops := range vfShrinkOps(c.Ops) {
					d := c
					d.Ops = ops
					out = append(out, d)
				}
				for _, ins := range vfShrinkOps(c.Ins) {
					if len(ins) == len(c.Ins) {
						d := c
						d.Ins = ins
						out = append(out, d)
					}
				}
				return out
			},
			rule: "random histories, run with and without 1-4 inserted unrecognised sequences (every CSI final, private markers, intermediates, sub-parameters, up to 10 parameters; ESC with intermediates; DCS; OSC without a function); both runs must end in the same state with the same replies and frontend effects; every case is non-trivial",
		},
		vfC09Enum(),
		vfC09Strings(),
		vfProgSub("consumed", 100, func(t *rapid.T) vfProg { return vfGenProg(t, seq, 24) }, vfRunC09Drive,
			"random histories rich in control sequences, cut into random reads; after each sequence that draws nothing the cells and cursors of both buffers are unchanged, after an unrecognised one everything is, and OSC 0/2/6/7 deliver exactly the payload bytes once; non-trivial: an unrecognised sequence or an OSC string"),
	}
}
