package termemu

// C11: ANSI renderings.

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/rivo/uniseg"
	"pgregory.net/rapid"
)

// vfJoins reports whether two cells next to each other, or a cell and nothing
// before it, would be read back as something else: merge fragments, which no
// rendering of the row can keep apart.
func vfJoins(row []vfCell, mode TextReadMode) bool {
	if mode == TextReadModeRune {
		return false
	}
	prev := "x"
	for _, c := range row {
		if c.W == 0 {
			continue
		}
		if first, _, _, _ := uniseg.FirstGraphemeClusterInString(prev+c.T, -1); first != prev {
			return true
		}
		prev = c.T
	}
	return false
}

// vfRender feeds the rows' renderings into a fresh terminal.
func vfRender(cfg vfCfg, s *vfScr, line func(y int) string) (*vfScr, error) {
	cfg.W, cfg.H = s.W, s.H
	f := vfNewWorld(cfg, false)
	for y := 0; y < s.H; y++ {
		if err := f.feed([]byte(fmt.Sprintf("\x1b[%d;1H%s", y+1, line(y))), nil); err != nil {
			return nil, err
		}
	}
	n, err := f.snap()
	if err != nil {
		return nil, err
	}
	return n.Scr[0], nil
}

func vfDiffCells(a, b *vfScr) string {
	for y := range a.C {
		for x := range a.C[y] {
			if !a.C[y][x].same(b.C[y][x]) {
				return fmt.Sprintf("cell (%d,%d) %s vs %s; row %s vs %s", x, y, vfCellStr(a.C[y][x]), vfCellStr(b.C[y][x]), vfRowString(a.C[y]), vfRowString(b.C[y]))
			}
		}
	}
	return ""
}

func vfRunC11Round(pr vfProg, rep *vfRep) string {
	w := vfNewWorld(pr.Cfg, false)
	for i, op := range pr.Ops {
		if err := w.do(op); err != nil {
			return ""
		}
		if i%6 != 5 && i != len(pr.Ops)-1 {
			continue
		}
		s, err := w.snap()
		if err != nil {
			return ""
		}
		a := s.act()
		for _, row := range a.C {
			if vfJoins(row, w.mode) {
				rep.label("left out: merge fragments on the screen")
				return ""
			}
		}
		for _, grid := range []bool{pr.Cfg.Grid, !pr.Cfg.Grid} {
			cfg := pr.Cfg
			cfg.Grid = grid
			n, err := vfRender(cfg, a, w.t.ANSILine)
			if err != nil {
				return ""
			}
			if d := vfDiffCells(a, n); d != "" {
				return fmt.Sprintf("after op %d (%v), rows fed back (grid %v), original vs copy: %s", i, op, grid, d)
			}
		}
		// parts of rows
		for y := 0; y < a.H; y++ {
			x1 := (y*5 + i) % a.W
			x2 := x1 + 1 + (y*3+i*7)%(a.W-x1)
			if msg := vfSubRange(w, a, x1, x2, y); msg != "" {
				return fmt.Sprintf("after op %d (%v): %s", i, op, msg)
			}
		}
		styles := map[Style]bool{}
		for _, row := range a.C {
			for _, c := range row {
				styles[c.S] = true
			}
		}
		if len(styles) > 1 {
			rep.hit("several styles")
		}
		if vfHasWide(a) {
			rep.hit("wide characters")
		}
		if s.Act == 1 {
			rep.label("alternate screen")
		}
	}
	return ""
}

// vfSubRange compares StyledLine(x1, x2-x1, y) with the cells.
func vfSubRange(w *vfWorld, a *vfScr, x1, x2, y int) string {
	l := w.t.StyledLine(x1, x2-x1, y)
	row, err := vfLineCells(l, w.mode)
	if err != nil || len(row) != x2-x1 || l.Width != x2-x1 {
		return fmt.Sprintf("StyledLine(%d,%d,%d) has %d cells, width %d (%v)", x1, x2-x1, y, len(row), l.Width, err)
	}
	for x := x1; x < x2; x++ {
		s, e := vfCharAt(a.C[y], x)
		g := row[x-x1]
		if s < x1 || e > x2 {
			if g.T != " " || g.W != 1 || g.S != a.C[y][x].S {
				return fmt.Sprintf("StyledLine(%d,%d,%d): cell %d of a character that is only partly in the range is %s", x1, x2-x1, y, x, vfCellStr(g))
			}
			continue
		}
		if !g.same(a.C[y][x]) {
			return fmt.Sprintf("StyledLine(%d,%d,%d): cell %d is %s, the row has %s", x1, x2-x1, y, x, vfCellStr(g), vfCellStr(a.C[y][x]))
		}
	}
	return ""
}

// ---------------------------------------------------------------- styles

// vfRendSGR writes the parameters that select r from the default rendition.
func vfRendSGR(r vfRend) string {
	var p []string
	for n, m := range vfSetModes {
		if r.M&m != 0 {
			p = append(p, strconv.Itoa(n))
		}
	}
	// a fixed order
	for i := range p {
		for j := i; j > 0 && (len(p[j]) < len(p[j-1]) || len(p[j]) == len(p[j-1]) && p[j] < p[j-1]); j-- {
			p[j], p[j-1] = p[j-1], p[j]
		}
	}
	for i, c := range []vfCol{r.FG, r.BG} {
		switch c.Kind {
		case "index":
			p = append(p, strconv.Itoa(38+10*i), "5", strconv.Itoa(c.V))
		case "bright":
			p = append(p, strconv.Itoa(90+10*i+c.V))
		case "rgb":
			p = append(p, strconv.Itoa(38+10*i), "2", strconv.Itoa(c.V>>16), strconv.Itoa(c.V>>8&255), strconv.Itoa(c.V&255))
		}
	}
	return "\x1b[0m\x1b[" + strings.Join(p, ";") + "m"
}

// vfStyleRow is a row of cells, each written with its own rendition.
type vfStyleRow struct {
	Grid  bool
	Cells []vfRend
}

func vfRunC11Styles(c any, rep *vfRep) string {
	sr := c.(vfStyleRow)
	n := len(sr.Cells)
	if n == 0 {
		return ""
	}
	cfg := vfCfg{W: n, H: 1, Grid: sr.Grid}
	w := vfNewWorld(cfg, false)
	for i, r := range sr.Cells {
		if err := w.feed([]byte(fmt.Sprintf("\x1b[1;%dH%s%c", i+1, vfRendSGR(r), 'a'+i%26)), nil); err != nil {
			return ""
		}
	}
	a, err := w.snap()
	if err != nil {
		return ""
	}
	for i, r := range sr.Cells {
		got, err := vfDecodeStyle(a.act().C[0][i].S)
		if err != nil {
			return fmt.Sprintf("cell %d, written with %q: %v", i, vfRendSGR(r), err)
		}
		if got != r {
			return fmt.Sprintf("cell %d, written with %q (%+v), is rendered with %q, which is %+v", i, vfRendSGR(r), r, a.act().C[0][i].S.ANSIEscape(), got)
		}
	}
	m, err := vfRender(cfg, a.act(), w.t.ANSILine)
	if err != nil {
		return ""
	}
	if d := vfDiffCells(a.act(), m); d != "" {
		return fmt.Sprintf("the rendering %q fed back, original vs copy: %s", w.t.ANSILine(0), d)
	}
	rep.hit("styles")
	return ""
}

func vfGenCol(t *rapid.T) vfCol {
	switch vfInt(t, 0, 3) {
	case 1:
		return vfCol{"index", vfPick(t, vfInt(t, 0, 255), vfInt(t, 0, 17), 255)}
	case 2:
		return vfCol{"bright", vfInt(t, 0, 7)}
	case 3:
		b := func() int { return vfPick(t, 0, 255, 1, 2, 128, vfInt(t, 0, 255)) }
		return vfCol{"rgb", b()<<16 | b()<<8 | b()}
	}
	return vfCol{Kind: "default"}
}

func vfGenStyleRow(t *rapid.T) any {
	sr := vfStyleRow{Grid: vfOneIn(t, 3)}
	for i, n := 0, vfInt(t, 1, 12); i < n; i++ {
		r := vfDefaultRend()
		if i > 0 && vfOneIn(t, 2) { // differs a little from the cell before
			r = sr.Cells[i-1]
			switch vfInt(t, 0, 3) {
			case 0:
				r.FG = vfGenCol(t)
			case 1:
				r.BG = vfGenCol(t)
			case 2:
				r.M ^= 1 << vfInt(t, 0, 12)
			case 3:
				r.M ^= 1<<vfInt(t, 0, 12) | 1<<vfInt(t, 0, 12)
			}
		} else {
			r.FG, r.BG = vfGenCol(t), vfGenCol(t)
			r.M = Mode(vfPick(t, 0, 1<<vfInt(t, 0, 12), vfInt(t, 0, 1<<13-1)))
		}
		sr.Cells = append(sr.Cells, r)
	}
	return sr
}

func vfEnumStyles(shard, shards int, thorough bool, yield func(any) bool) {
	row := vfStyleRow{}
	n := 0
	ok := true
	flush := func() {
		if len(row.Cells) > 0 && ok {
			if n%shards == shard {
				ok = yield(row)
			}
			n++
		}
		row = vfStyleRow{Grid: n%4 == 3}
	}
	add := func(r vfRend) {
		row.Cells = append(row.Cells, r)
		if len(row.Cells) == 32 {
			flush()
		}
	}
	d := vfDefaultRend()
	for m := 0; m < 1<<13; m++ {
		r := d
		r.M = Mode(m)
		add(r)
	}
	var cols []vfCol
	for i := 0; i < 256; i++ {
		cols = append(cols, vfCol{"index", i})
	}
	for i := 0; i < 8; i++ {
		cols = append(cols, vfCol{"bright", i})
	}
	for i := 0; i < 24; i++ {
		cols = append(cols, vfCol{"rgb", 1 << i}, vfCol{"rgb", 0xffffff ^ 1<<i})
	}
	cols = append(cols, vfCol{"rgb", 0}, vfCol{"rgb", 0xffffff}, vfCol{Kind: "default"})
	for _, c := range cols {
		for k := 0; k < 3; k++ {
			r := d
			if k != 1 {
				r.FG = c
			}
			if k != 0 {
				r.BG = c
			}
			add(r)
			r.M = 1<<13 - 1
			add(r)
		}
	}
	small := []vfCol{{"index", 0}, {"index", 7}, {"index", 8}, {"index", 15}, {"bright", 0}, {"bright", 7}, {"rgb", 0}, {"rgb", 0x100}, {"rgb", 0x200}, {"rgb", 0x300}, {Kind: "default"}}
	for _, a := range small {
		for _, b := range small {
			for m := 0; m < 14; m++ {
				add(vfRend{FG: a, BG: b, M: 1 << m & (1<<13 - 1)})
			}
		}
	}
	flush()
}

// ---------------------------------------------------------------- mirror

func vfReadRegion(s vfB) (r Region, ok bool) {
	n, _ := fmt.Sscanf(string(s), "%d,%d,%d,%d", &r.X, &r.Y, &r.X2, &r.Y2)
	return r, n == 4
}

func vfInside(r Region, x, y int) bool { return x >= r.X && x < r.X2 && y >= r.Y && y < r.Y2 }

func vfRunC11Mirror(pr vfProg, rep *vfRep) string {
	var out bytes.Buffer
	tty := NewTTYFrontend(nil, &out)
	src := &vfSrc{}
	be := &vfBackend{src: src}
	t := vfNewTerminal(tty, be, pr.Cfg)
	tty.SetTerminal(t)
	mode := pr.Cfg.mode()
	w := &vfWorld{t: t, be: be, src: src, gr: NewGraphemeReaderWithMode(src, mode), mode: mode, cfg: pr.Cfg}
	if err := t.Resize(pr.Cfg.W, pr.Cfg.H); err != nil {
		return err.Error()
	}
	var outer *vfWorld
	attached, focused, show := false, true, true
	var region Region
	for i, op := range pr.Ops {
		op.Late = 0
		op.Cut = vfSafeCuts(op, mode)
		fail := func(format string, args ...any) string {
			what := op.String()
			if strings.HasPrefix(op.K, "tty") {
				what = op.K + " " + string(op.S)
			}
			return fmt.Sprintf("op %d (%s), region %+v: ", i, what, region) + fmt.Sprintf(format, args...)
		}
		out.Reset()
		var before *vfSnap
		if attached {
			var err error
			if before, err = outer.snap(); err != nil {
				return ""
			}
		}
		quiet := !attached
		switch op.K {
		case "ttyattach":
			r, ok := vfReadRegion(op.S)
			if !ok {
				return ""
			}
			region, attached, quiet = r, true, false
			W, H := t.Size()
			outer = vfNewWorld(vfCfg{W: W, H: H, Mode: pr.Cfg.Mode, Grid: i%3 == 0}, false)
			outer.feed([]byte("\x1b[?25h"), nil)
			for y := 0; y < H; y++ {
				if err := outer.feed([]byte(fmt.Sprintf("\x1b[%d;1H%s", y+1, strings.Repeat("#", W))), nil); err != nil {
					return ""
				}
			}
			before, _ = outer.snap()
			tty.Attach(r)
		case "ttydetach":
			tty.Detach()
			if out.String() != "\x1b[?25h" {
				return fail("wrote %q", out.String())
			}
			attached = false
			continue
		case "ttyblur":
			tty.SetFocus(false)
			focused = false
			if attached {
				if got := out.String(); got != "\x1b[?25h" && got != "" {
					return fail("wrote %q", got)
				}
			} else if strings.ReplaceAll(out.String(), "\x1b[?25h", "") != "" {
				return fail("wrote %q while detached", out.String())
			}
			if attached {
				if err := outer.feed(out.Bytes(), nil); err != nil {
					return ""
				}
			}
			continue
		case "ttyfocus":
			tty.SetFocus(true)
			focused = true
		case "resize":
			if attached {
				if err := outer.t.Resize(op.W, op.H); err != nil {
					return ""
				}
				before = nil
			}
			if err := w.do(op); err != nil {
				return ""
			}
		default:
			if err := w.do(op); err != nil {
				return ""
			}
			if op.K == "csi" && op.Pre == "?" && op.I == "" && (op.F == "h" || op.F == "l") {
				for k := range op.P {
					if op.par(k, 0) == 25 {
						show = op.F == "h"
					}
				}
			}
		}
		if quiet {
			if got := strings.ReplaceAll(out.String(), "\x1b[?25h", ""); got != "" {
				return fail("wrote %q while detached", out.String())
			}
			rep.label("op while detached")
			continue
		}
		if err := outer.feed(out.Bytes(), nil); err != nil {
			return fail("the outer terminal: %v", err)
		}
		in, err := w.snap()
		if err != nil {
			return ""
		}
		o, err := outer.snap()
		if err != nil {
			return ""
		}
		a, b := in.act(), o.act()
		for y := 0; y < a.H; y++ {
			if vfJoins(a.C[y], mode) {
				rep.label("left out: merge fragments on the screen")
				return ""
			}
			for x := 0; x < a.W; x++ {
				g := b.C[y][x]
				if !vfInside(region, x, y) {
					if before != nil && !g.same(before.act().C[y][x]) {
						return fail("outer cell (%d,%d) outside the region changed to %s; wrote %q", x, y, vfCellStr(g), out.String())
					}
					continue
				}
				s, e := vfCharAt(a.C[y], x)
				if s < region.X || e > region.X2 {
					rep.label("wide character at the region's edge")
					if g.T != " " || g.W != 1 || g.S != a.C[y][x].S {
						return fail("outer cell (%d,%d) of a character partly inside the region is %s", x, y, vfCellStr(g))
					}
					continue
				}
				if !g.same(a.C[y][x]) {
					return fail("outer cell (%d,%d) is %s, inner %s; inner row %s outer row %s; wrote %q", x, y, vfCellStr(g), vfCellStr(a.C[y][x]), vfRowString(a.C[y]), vfRowString(b.C[y]), out.String())
				}
			}
		}
		if out.Len() > 0 {
			rep.hit("mirrored change")
		}
		if !focused {
			continue
		}
		visible := show && vfInside(region, a.X, a.Y)
		shown := outer.f.flags[VFShowCursor]
		if visible != shown {
			return fail("the outer cursor is shown: %v; inner cursor (%d,%d), shown %v", shown, a.X, a.Y, show)
		}
		if visible && (b.X != a.X || b.Y != a.Y) {
			return fail("outer cursor (%d,%d), inner (%d,%d)", b.X, b.Y, a.X, a.Y)
		}
		if visible {
			rep.label("cursor shown")
		} else {
			rep.label("cursor hidden")
		}
	}
	return ""
}

func vfGenRegion(t *rapid.T, w, h int) vfB {
	if vfOneIn(t, 3) {
		return vfB(fmt.Sprintf("0,0,%d,%d", w, h))
	}
	x, y := vfInt(t, 0, w-1), vfInt(t, 0, h-1)
	r := Region{X: x, Y: y, X2: vfInt(t, x+1, w), Y2: vfInt(t, y+1, h)}
	switch vfInt(t, 0, 9) {
	case 0:
		r.X2 = w + vfInt(t, 1, 5)
	case 1:
		r.Y2 = h + vfInt(t, 1, 5)
	case 2:
		r.X = -vfInt(t, 1, 3)
	case 3:
		r.Y = -vfInt(t, 1, 3)
	case 4:
		r.X2 = r.X // empty
	case 5:
		r.X, r.X2 = w, w+3 // off screen
	}
	return vfB(fmt.Sprintf("%d,%d,%d,%d", r.X, r.Y, r.X2, r.Y2))
}

func init() {
	p := &vfProfile{ops: vfBias(vfW{"text", 8}, vfW{"char", 6}, vfW{"sgr", 10}, vfW{"erase", 4}), texts: vfTextWild, cuts: true}
	pm := &vfProfile{ops: vfBias(vfW{"text", 10}, vfW{"char", 8}, vfW{"sgr", 8}, vfW{"erase", 6}, vfW{"scroll", 4}, vfW{"mode", 4}, vfW{"osc", 1}, vfW{"query", 1}, vfW{"edge", 4}), texts: []vfW{{"ascii", 8}, {"punct", 2}, {"wide", 6}, {"latin", 2}, {"cluster", 2}, {"odd", 1}, {"ext", 1}}, cuts: true}
	vfProps["C11"] = []vfSub{
		{name: "styles", enum: vfEnumStyles, run: vfRunC11Styles, dec: vfDec[vfStyleRow], rule: "enumerated: all 8192 mode sets, all indexed and bright colours and RGB bit patterns as foreground, background and both, small colour x colour x mode products; each cell's rendering decodes to the rendition it was written with and the row reproduces itself"},
		{name: "rows", weight: 40, gen: vfGenStyleRow, run: vfRunC11Styles, dec: vfDec[vfStyleRow],
			shrink: func(c any) []any {
				r := c.(vfStyleRow)
				var out []any
				for i := range r.Cells {
					out = append(out, vfStyleRow{r.Grid, append(append([]vfRend(nil), r.Cells[:i]...), r.Cells[i+1:]...)})
				}
				return out
			},
			rule: "random rows of cells with random or slightly different renditions, as above"},
		vfProgSub("roundtrip", 40, func(t *rapid.T) vfProg { return vfGenProg(t, p, 24) }, vfRunC11Round,
			"random histories; every few operations all rows' ANSILine are fed to fresh terminals (span and grid) of the same size and mode, which must show the same characters and attributes in every cell; parts of rows read with StyledLine must agree with the cells; non-trivial: several styles or wide characters on the screen"),
		vfProgSub("mirror", 60, func(t *rapid.T) vfProg {
			pr := vfGenProg(t, pm, 24)
			w, h := pr.Cfg.W, pr.Cfg.H
			ops := []vfOp{{K: "ttyattach", S: vfGenRegion(t, w, h)}}
			if vfOneIn(t, 3) {
				ops = nil
			}
			for _, o := range pr.Ops {
				ops = append(ops, o)
				if o.K == "resize" {
					w, h = o.W, o.H
				}
				if vfOneIn(t, 8) {
					switch vfInt(t, 0, 4) {
					case 0, 1:
						ops = append(ops, vfOp{K: "ttyattach", S: vfGenRegion(t, w, h)})
					case 2:
						ops = append(ops, vfOp{K: "ttydetach"})
					case 3:
						ops = append(ops, vfOp{K: "ttyblur"})
					case 4:
						ops = append(ops, vfOp{K: "ttyfocus"})
					}
				}
			}
			pr.Ops = ops
			return pr
		}, vfRunC11Mirror,
			"random histories on a terminal whose frontend is a TTYFrontend, attached to random regions, detached, blurred and focused in between; its output drives an outer terminal, which after every operation must show the inner screen inside the region, be untouched outside it, and have its cursor at the inner cursor or hidden; nothing but show-cursor while detached; non-trivial: an operation whose output changed the outer terminal"),
	}
}
