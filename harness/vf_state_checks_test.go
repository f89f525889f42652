package termemu

// C10, C14, C17, C18, C19, C20.

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C10

func vfRunC10(pr vfProg, rep *vfRep) string {
	var saved Style
	first := true
	return vfDrive(pr, true, func(j *vfJudged) string {
		w := j.w
		if j.err != nil {
			return ""
		}
		if first {
			first = false
			saved = j.pre.act().St
		}
		s := j.post.act()
		if w.f.badRead != "" {
			return j.failf("%s", w.f.badRead)
		}
		if d := vfDiffRows("actual vs repainted from notifications:", s.C, w.f.cells); d != "" {
			return j.failf("%s", d)
		}
		if w.f.cur != (Pos{X: s.X, Y: s.Y}) {
			return j.failf("the frontend was last told cursor %v, it is at (%d,%d)", w.f.cur, s.X, s.Y)
		}
		told := saved
		if w.f.styleSet {
			told = w.f.style
		}
		if told != s.St {
			return j.failf("the frontend was last told style %q, it is %q", told.ANSIEscape(), s.St.ANSIEscape())
		}
		for i, v := range j.post.Flags {
			if w.f.flags[ViewFlag(i)] != v {
				return j.failf("the frontend was last told flag %d = %v, it is %v", i, w.f.flags[ViewFlag(i)], v)
			}
		}
		for i, v := range j.post.Ints {
			if w.f.ints[ViewInt(i)] != v {
				return j.failf("the frontend was last told int %d = %d, it is %d", i, w.f.ints[ViewInt(i)], v)
			}
		}
		for i, v := range j.post.Strs {
			if w.f.strs[ViewString(i)] != v {
				return j.failf("the frontend was last told string %d = %q, it is %q", i, w.f.strs[ViewString(i)], v)
			}
		}
		for _, r := range w.f.regions {
			if r.X > r.X2 || r.Y > r.Y2 {
				return j.failf("announced region %+v", r)
			}
		}
		if j.op.K == "resize" {
			rep.label("resize")
			return ""
		}
		if !j.pre.act().equalCells(s) {
			rep.hit("cells changed by " + j.op.K)
		}
		if j.pre.Act != j.post.Act {
			rep.hit("buffer switch")
		}
		return vfJudgeScrollback(j, rep)
	})
}

// vfJudgeScrollback checks the rows announced through ScrollLines.
func vfJudgeScrollback(j *vfJudged, rep *vfRep) string {
	w := j.w
	if j.pre.Act == 1 && j.post.Act == 1 {
		if len(w.f.scrolls) > 0 {
			return j.failf("ScrollLines%v for the alternate screen", w.f.scrolls)
		}
		return ""
	}
	if j.kind == "" {
		if len(w.f.scrolls) > 0 && vfNoDraw(j.op) {
			return j.failf("ScrollLines%v, but nothing scrolled", w.f.scrolls)
		}
		return ""
	}
	if j.alt != nil || vfMatch(j.m.s(), j.post.act()) != "" {
		return "" // another property's business
	}
	if w.f.lostBad != "" {
		return j.failf("%s", w.f.lostBad)
	}
	var want [][]vfCell
	lenient := false
	for _, e := range j.m.scrolls {
		if e.y1 != 0 || e.dy >= 0 {
			continue
		}
		if j.op.K == "csi" && j.op.F == "M" {
			lenient = true // deleted, rather than scrolled off
		}
		want = append(want, e.pre.C[:-e.dy]...)
	}
	for _, n := range w.f.scrolls {
		if n <= 0 {
			return j.failf("ScrollLines(%d)", n)
		}
	}
	if len(want) > 0 {
		rep.hit("rows scrolled off")
	}
	if lenient && len(w.f.lost) == 0 {
		return ""
	}
	if len(w.f.lost) != len(want) {
		return j.failf("ScrollLines announced %d rows, %d were lost", len(w.f.lost), len(want))
	}
	for i := range want {
		if len(want[i]) != len(w.f.lost[i]) {
			return j.failf("announced row %d has %d cells", i, len(w.f.lost[i]))
		}
		for x := range want[i] {
			a, b := want[i][x], w.f.lost[i][x]
			if a.any || a.loose {
				a.S = b.S
			}
			if !a.same(b) {
				return j.failf("announced row %d cell %d: %s, the lost row has %s", i, x, vfCellStr(b), vfCellStr(a))
			}
		}
	}
	return ""
}

func init() {
	p := &vfProfile{ops: append(vfBias(vfW{"text", 10}, vfW{"char", 8}, vfW{"scroll", 6}, vfW{"lf", 8}, vfW{"alt", 3}, vfW{"edge", 6}, vfW{"corner", 3}, vfW{"resize", 6}, vfW{"erase", 4}), vfAllOps...), texts: vfTextWild, cuts: true}
	vfProps["C10"] = []vfSub{vfProgSub("notify", 100, func(t *rapid.T) vfProg { return vfGenProg(t, p, 24) }, vfRunC10,
		"random histories over all operations; a frontend repaints only the announced cells by reading them back inside RegionChanged; after every operation its copy must equal the active screen, the last notified cursor, style, flags, ints and strings must equal the terminal's, and every row that leaves the top of the main screen must have been readable at a ScrollLines call; non-trivial: cells changed, the buffer was switched, or rows scrolled off")}
}

// ---------------------------------------------------------------- C14

// vfReply returns the reply op must cause in the given state; ok is false if op is
// a query whose reply is not specified.
func vfReply(op vfOp, w *vfWorld, pre *vfSnap) (string, bool) {
	if op.K == "raw" {
		return "", false
	}
	if op.K != "csi" || op.I != "" || strings.ContainsAny(strings.Join(op.P, ""), ":<=>?") {
		return "", true
	}
	switch op.Pre + op.F {
	case "c":
		if len(op.P) > 1 {
			return "", false
		}
		if op.par(0, 0) == 0 {
			return "\x1b[?1;2c", true
		}
	case ">c":
		if len(op.P) > 1 || op.par(0, 0) != 0 {
			return "", false
		}
		return "\x1b[>1;4402;0c", true
	case "n":
		if len(op.P) > 1 {
			return "", false
		}
		switch op.par(0, 0) {
		case 5:
			return "\x1b[0n", true
		case 6:
			s := pre.act()
			return fmt.Sprintf("\x1b[%d;%dR", s.Y+1, s.X+1), true
		}
	case "?u":
		if len(op.P) > 0 {
			return "", false
		}
		return fmt.Sprintf("\x1b[?%du", w.t.keyboardFlags()), true
	}
	return "", true
}

func vfRunC14(pr vfProg, rep *vfRep) string {
	w := vfNewWorld(pr.Cfg, false)
	pre, err := w.snap()
	if err != nil {
		return ""
	}
	var all strings.Builder
	exact := true
	queries := 0
	for i, op := range pr.Ops {
		op.Late = 0
		op.Cut = vfSafeCuts(op, w.mode)
		want, ok := vfReply(op, w, pre)
		w.take()
		if err := w.do(op); err != nil {
			return ""
		}
		got := w.take()
		all.WriteString(want)
		if !ok {
			exact = false
		} else if got != want {
			return fmt.Sprintf("op %d (%v) with the cursor at (%d,%d): replied %q, expected %q", i, op, pre.act().X, pre.act().Y, got, want)
		}
		if want != "" {
			queries++
			rep.hit("query CSI " + op.Pre + strings.Join(op.P, ";") + op.F)
			if pre.Act == 1 {
				rep.label("on the alternate screen")
			}
		}
		if pre, err = w.snap(); err != nil {
			return ""
		}
	}
	if !exact || queries == 0 {
		return ""
	}
	// the whole stream at once (resizes split it): same replies in the same order
	w = vfNewWorld(pr.Cfg, false)
	var b []byte
	for _, op := range pr.Ops {
		if op.K == "text" && pr.Cfg.mode() == TextReadModeGrapheme && !vfTextSpecified(string(op.S), pr.Cfg.mode()) {
			return "" // could combine with the text before it
		}
		if op.K == "resize" {
			if w.feed(b, nil) != nil {
				return ""
			}
			b = nil
			op.Late = 0
			if w.do(op) != nil {
				return ""
			}
			continue
		}
		b = append(b, op.bytes()...)
	}
	if w.feed(b, nil) != nil {
		return ""
	}
	if got := w.take(); got != all.String() {
		return fmt.Sprintf("the whole stream at once: replies %q, expected %q", got, all.String())
	}
	if queries > 1 {
		rep.hit("several queries in one read")
	}
	return ""
}

func init() {
	p := &vfProfile{ops: append([]vfW{{"query", 80}, {"kbd", 20}, {"alt", 8}, {"text", 8}, {"cup", 8}}, vfAllOps...), texts: vfTextFull, cuts: true, lead0: true}
	vfProps["C14"] = []vfSub{vfProgSub("replies", 100, func(t *rapid.T) vfProg {
		pr := vfGenProg(t, p, 24)
		if vfOneIn(t, 4) {
			pr.Cfg.Short = vfPick(t, 1, 2, 3, 5)
		}
		for i := range pr.Ops {
			if vfOneIn(t, 30) {
				pr.Ops[i] = vfPick(t, vfOp{K: "csi", P: []string{"1"}, F: "c"}, vfOp{K: "csi", P: []string{"0"}, F: "n"}, vfOp{K: "csi", P: []string{"7"}, F: "n"},
					vfOp{K: "csi", F: "n"}, vfOp{K: "csi", P: []string{"66"}, F: "n"}, vfOp{K: "csi", Pre: "?", P: []string{"6"}, F: "n"}, vfOp{K: "csi", Pre: "=", F: "c"}, vfOp{K: "csi", Pre: "?", F: "c"}, vfOp{K: "csi", I: " ", F: "c"}, vfOp{K: "csi", P: []string{"6"}, I: "$", F: "n"},
					vfOp{K: "dcs", S: "$qm", T: "\x1b\\"}, vfOp{K: "osc", F: "10", S: "?", T: "\a"}, vfOp{K: "osc", F: "11", S: "?", T: "\x1b\\"}, vfOp{K: "csi", P: []string{"18"}, F: "t"}, vfOp{K: "csi", P: []string{"14"}, F: "t"}, vfOp{K: "ctl", S: "\x05"}, vfOp{K: "esc", S: "Z"})
			}
		}
		return pr
	}, vfRunC14,
		"random histories with many queries (DA1, DA2, DSR 5, CPR, Kitty flags) between arbitrary state changes; every operation's output is compared byte for byte with the reply its query requires in the state at that point, or with nothing; the whole stream is then fed at once and must give the concatenated replies; non-trivial: at least one query")}
}

// ---------------------------------------------------------------- C19

type vfKbd struct {
	flags int
	stack []int
}

func (k *vfKbd) apply(op vfOp) bool {
	if op.K != "csi" || op.F != "u" || op.I != "" {
		return false
	}
	switch op.Pre {
	case "=":
		f := op.par(0, 0)
		switch op.par(1, 1) {
		case 1:
			k.flags = f
		case 2:
			k.flags |= f
		case 3:
			k.flags &^= f
		default:
			return false
		}
	case ">":
		k.stack = append(k.stack, k.flags)
		if len(k.stack) > 32 {
			k.stack = k.stack[1:]
		}
		k.flags = op.par(0, 0)
	case "<":
		for n := op.par(0, 1); n > 0; n-- {
			if len(k.stack) == 0 {
				k.flags = 0
				break
			}
			k.flags = k.stack[len(k.stack)-1]
			k.stack = k.stack[:len(k.stack)-1]
		}
	default:
		return false
	}
	return true
}

func vfQueryFlags(w *vfWorld) (string, error) {
	w.take()
	err := w.feed([]byte("\x1b[?u"), nil)
	return w.take(), err
}

// vfKbdSpecified keeps shrunk cases inside the domain.
func vfKbdSpecified(op vfOp) bool {
	if op.K != "csi" || op.F != "u" {
		return true
	}
	switch op.Pre {
	case "=":
		return op.par(0, 0) <= 31 && op.par(1, 1) >= 1 && op.par(1, 1) <= 3
	case ">":
		return op.par(0, 0) <= 31 && len(op.P) <= 1
	case "<":
		return len(op.P) <= 1 && op.par(0, 1) >= 1
	}
	return true
}

func vfRunC19(pr vfProg, rep *vfRep) string { return vfJudgeC19(pr, rep, 1) }

// vfJudgeC19 looks at the flags after every n operations.
func vfJudgeC19(pr vfProg, rep *vfRep, n int) string {
	w := vfNewWorld(pr.Cfg, false)
	var k [2]vfKbd
	act := 0
	for i, op := range pr.Ops {
		if !vfKbdSpecified(op) {
			return ""
		}
		if op.K == "csi" && op.Pre == "?" && (op.F == "h" || op.F == "l") {
			for q := range op.P {
				if op.par(q, 0) == 1049 {
					act = map[string]int{"h": 1, "l": 0}[op.F]
					rep.label("screen switch")
				}
			}
		}
		if k[act].apply(op) {
			rep.label("CSI " + op.Pre + "u")
			if len(k[act].stack) == 32 {
				rep.hit("full stack")
			}
			if op.Pre == "<" && len(k[act].stack) == 0 {
				rep.hit("emptied stack")
			}
			if op.Pre == "=" && len(op.P) > 1 && op.par(1, 1) > 1 {
				rep.hit("or / clear")
			}
		}
		if err := w.do(op); err != nil {
			return ""
		}
		if w.active() != act {
			return "" // another property's business
		}
		if i%n != 0 {
			continue
		}
		got, err := vfQueryFlags(w)
		if want := fmt.Sprintf("\x1b[?%du", k[act].flags); err != nil || got != want {
			return fmt.Sprintf("op %d (%v): the query replies %q (%v), expected %q; stack depth %d", i, op, got, err, want, len(k[act].stack))
		}
		// the flags in force decide how keys are encoded
		w.take()
		if _, err := w.t.SendKey(KeyEvent{Code: KeyEscape}); err != nil {
			return fmt.Sprintf("op %d (%v): SendKey: %v", i, op, err)
		}
		got = w.take()
		want := "\x1b"
		if k[act].flags&(1|8) != 0 {
			want = "\x1b[27u"
		}
		if got != want {
			return fmt.Sprintf("op %d (%v): with flags %d the Escape key is sent as %q", i, op, k[act].flags, got)
		}
	}
	// drain both stacks
	for n := 0; n < 2; n++ {
		act = n
		if err := w.feed([]byte("\x1b[?1049"+string("lh"[n])), nil); err != nil {
			return ""
		}
		for d := 0; d < 34; d++ {
			got, err := vfQueryFlags(w)
			if want := fmt.Sprintf("\x1b[?%du", k[act].flags); err != nil || got != want {
				return fmt.Sprintf("at the end, screen %d, after %d pops: %q (%v), expected %q", n, d, got, err, want)
			}
			if len(k[act].stack) == 0 && d > 1 {
				break
			}
			k[act].apply(vfOp{K: "csi", Pre: "<", F: "u"})
			if err := w.feed([]byte("\x1b[<u"), nil); err != nil {
				return ""
			}
		}
	}
	return ""
}

func init() {
	kbd := []vfW{{"kbd", 50}, {"alt", 4}, {"mode", 1}, {"text", 1}, {"cup", 1}, {"resize", 1}, {"mok", 1}}
	p := &vfProfile{ops: kbd, texts: vfTextPlain, cuts: true, lead0: true}
	noLate := func(ops []vfOp) []vfOp {
		for i := range ops {
			ops[i].Late = 0
		}
		return ops
	}
	enum := vfSub{name: "short", dec: vfDecProg, run: func(c any, rep *vfRep) string { return vfRunC19(c.(vfProg), rep) },
		shrink: func(c any) []any { return vfShrinkProg(c.(vfProg)) },
		rule:   "enumerated: every sequence up to a bounded length over {assign, or, clear, push, pop 1, pop 2, pop 40, enter alternate screen, leave it} with a small flag alphabet"}
	enum.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		u := func(pre string, p ...string) vfOp { return vfOp{K: "csi", Pre: pre, P: p, F: "u"} }
		alpha := []vfOp{u("=", "5"), u("=", "3", "2"), u("=", "6", "3"), u(">", "1"), u(">", "30"), u("<"), u("<", "2"), u("<", "40"),
			{K: "csi", Pre: "?", P: []string{"1049"}, F: "h"}, {K: "csi", Pre: "?", P: []string{"1049"}, F: "l"}, u(">"), u("="), u("=", "9", "1")}
		depth := 4
		if thorough {
			depth = 5
		}
		n := 0
		var rec func(ops []vfOp) bool
		rec = func(ops []vfOp) bool {
			if len(ops) == depth {
				n++
				if n%shards != shard {
					return true
				}
				return yield(vfProg{vfCfg{W: 4, H: 2}, append([]vfOp(nil), ops...)})
			}
			for _, o := range alpha {
				if !rec(append(ops, o)) {
					return false
				}
			}
			return true
		}
		rec(nil)
	}
	vfProps["C19"] = []vfSub{
		enum,
		vfProgSub("random", 60, func(t *rapid.T) vfProg {
			cfg := vfGenCfg(t)
			return vfProg{cfg, noLate(vfGenOps(t, p, cfg, 1, 40))}
		}, vfRunC19, "random histories of keyboard-flag operations and screen switches against a stack model: the query reply and the encoding of Escape after every operation, and both stacks drained at the end; non-trivial: a full or emptied stack, or an or/clear"),
		vfProgSub("deep", 40, func(t *rapid.T) vfProg {
			cfg := vfGenCfg(t)
			var ops []vfOp
			for i, n := 0, vfInt(t, 28, 80); i < n; i++ {
				ops = append(ops, vfOp{K: "csi", Pre: ">", P: []string{strconv.Itoa(vfInt(t, 0, 31))}, F: "u"})
				if vfOneIn(t, 12) {
					ops = append(ops, vfOp{K: "csi", Pre: "<", P: []string{strconv.Itoa(vfPick(t, 1, 2, 31, 32, 33))}, F: "u"})
				}
				if vfOneIn(t, 25) {
					ops = append(ops, vfGenOp(t, "alt", p, cfg))
				}
			}
			return vfProg{cfg, append(ops, noLate(vfGenOps(t, p, cfg, 1, 40))...)}
		}, vfRunC19, "the same with 28-80 pushes, so that the 32-entry limit is exceeded"),
	}
}
