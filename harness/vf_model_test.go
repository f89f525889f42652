package termemu

// Reference model of the screen operations. It works on snapshots: the checks
// copy the real state into it, apply one operation and compare.

import (
	"strings"
)

type vfScrollEv struct {
	y1, y2, dy int
	text       bool // caused by text reaching the right edge
	pre        *vfScr
}

type vfModel struct {
	mode  TextReadMode
	grid  bool
	scr   [2]*vfScr
	act   int
	saved [2]Pos

	scrolls []vfScrollEv // of the last op
	inside  bool         // the last op started a write inside a wide character
	wide2nd bool         // the last op wrote onto the second half of a wide character (or cut it)
}

func vfNewModel(cfg vfCfg) *vfModel {
	return &vfModel{mode: cfg.mode(), grid: cfg.Grid}
}

// sync copies the real state; the saved cursors are the model's own.
func (m *vfModel) sync(s *vfSnap) {
	m.scr[0], m.scr[1] = s.Scr[0].clone(), s.Scr[1].clone()
	m.act = s.Act
	m.scrolls = nil
	m.wide2nd = false
	m.inside = false
}

func (m *vfModel) s() *vfScr { return m.scr[m.act] }

func vfBlank(st Style) vfCell { return vfCell{T: " ", W: 1, S: st} }

// charAt returns the cells [a,b) of the character covering cell x.
func vfCharAt(row []vfCell, x int) (int, int) {
	a := x
	for a > 0 && row[a].W == 0 {
		a--
	}
	b := a + 1
	for b < len(row) && row[b].W == 0 {
		b++
	}
	return a, b
}

// cut blanks the wide character that lies on both sides of the left edge of x.
// Its cells may keep their style or take the current one.
func (m *vfModel) cut(row []vfCell, x int, st Style) bool {
	if x <= 0 || x >= len(row) || row[x].W != 0 {
		return false
	}
	a, b := vfCharAt(row, x)
	for i := a; i < b; i++ {
		old := row[i].S
		row[i] = vfBlank(st)
		row[i].loose, row[i].old = true, old
	}
	return true
}

func (m *vfModel) blankRow() []vfCell {
	s := m.s()
	row := make([]vfCell, s.W)
	for i := range row {
		row[i] = vfBlank(s.St)
	}
	return row
}

// erase blanks columns [x1,x2) of row y.
func (m *vfModel) erase(y, x1, x2 int) {
	s := m.s()
	x1, x2 = clamp(x1, 0, s.W), clamp(x2, 0, s.W)
	if x1 >= x2 {
		return
	}
	row := s.C[y]
	m.cut(row, x2, s.St)
	m.cut(row, x1, s.St)
	for x := x1; x < x2; x++ {
		row[x] = vfBlank(s.St)
	}
}

func (m *vfModel) dch(n int) {
	s := m.s()
	row := s.C[s.Y]
	n = min(n, s.W-s.X)
	if n <= 0 {
		return
	}
	m.cut(row, s.X+n, s.St)
	m.cut(row, s.X, s.St)
	copy(row[s.X:], row[s.X+n:])
	for x := s.W - n; x < s.W; x++ {
		row[x] = vfBlank(s.St)
	}
}

func (m *vfModel) scroll(y1, y2, dy int, text bool) {
	s := m.s()
	n := y2 - y1 + 1
	dy = clamp(dy, -n, n)
	m.scrolls = append(m.scrolls, vfScrollEv{y1, y2, dy, text, s.clone()})
	old := append([][]vfCell(nil), s.C...)
	for y := y1; y <= y2; y++ {
		from := y - dy
		if from >= y1 && from <= y2 {
			s.C[y] = append([]vfCell(nil), old[from]...)
		} else {
			s.C[y] = m.blankRow()
		}
	}
}

// index moves the cursor dy (1 or -1) rows, scrolling at the region's edge.
func (m *vfModel) index(dy int, text bool) {
	s := m.s()
	switch {
	case dy > 0 && s.Y == s.Bot:
		m.scroll(s.Top, s.Bot, -1, text)
	case dy < 0 && s.Y == s.Top:
		m.scroll(s.Top, s.Bot, 1, text)
	default:
		s.Y = clamp(s.Y+dy, 0, s.H-1)
	}
}

func (m *vfModel) put(t string, w int) {
	s := m.s()
	var cells []vfCell
	if w > s.W {
		w = s.W
		for i := 0; i < w; i++ {
			cells = append(cells, vfBlank(s.St))
		}
	} else {
		cells = append(cells, vfCell{T: t, W: w, S: s.St})
		for i := 1; i < w; i++ {
			cells = append(cells, vfCell{S: s.St})
		}
	}
	if s.X+w > s.W {
		if s.Wrap {
			s.X = 0
			m.index(1, true)
		} else {
			s.X = s.W - w
		}
	}
	row := s.C[s.Y]
	x := s.X
	if m.cut(row, x+w, s.St) {
		m.wide2nd = true
	}
	if x > 0 && row[x].W == 0 {
		m.wide2nd = true
		m.inside = true
		if m.grid {
			m.cut(row, x, s.St)
			copy(row[x:], cells)
		} else {
			// the character is kept and the text goes after it
			_, e := vfCharAt(row, x)
			n := append([]vfCell(nil), row[:e]...)
			n = append(n, cells...)
			n = append(n, row[x+w:]...)
			if len(n) > s.W {
				m.cut(n, s.W, s.St)
				n = n[:s.W]
			}
			s.C[s.Y] = n
		}
	} else {
		copy(row[x:], cells)
	}
	s.X += w
	if s.X >= s.W {
		if s.Wrap {
			s.X = 0
			m.index(1, true)
		} else {
			s.X = s.W - 1
		}
	}
}

func (m *vfModel) text(b string) {
	chars, widths := vfChars(string([]rune(b)), m.mode)
	for i, c := range chars {
		m.put(c, widths[i])
	}
}

func (m *vfModel) move(x, y int) {
	s := m.s()
	s.X, s.Y = clamp(x, 0, s.W-1), clamp(y, 0, s.H-1)
}

// apply performs op. It returns the property that says what the operation does
// ("" when the model does not specify the operation).
func (m *vfModel) apply(op vfOp) string {
	s := m.s()
	switch op.K {
	case "text":
		m.text(string(op.S))
		return "C03"
	case "ctl":
		if len(op.S) != 1 {
			return ""
		}
		switch op.S[0] {
		case 8, 127:
			m.move(s.X-1, s.Y)
		case 9:
			m.move((s.X/8+1)*8, s.Y)
		case 10:
			s.X = 0
			m.index(1, false)
		case 12:
			m.index(1, false)
		case 13:
			s.X = 0
		case 0, 5, 7, 11:
			// ignored by the screen
		default:
			return ""
		}
		return "C04"
	case "esc":
		switch string(op.S) {
		case "D":
			m.index(1, false)
		case "M":
			m.index(-1, false)
		default:
			return ""
		}
		return "C04"
	case "csi":
		if op.Pre != "" || op.I != "" || strings.ContainsAny(strings.Join(op.P, ""), ":<=>?") {
			return ""
		}
		switch op.F {
		case "A":
			m.move(s.X, s.Y-op.par(0, 1))
		case "B":
			m.move(s.X, s.Y+op.par(0, 1))
		case "C":
			m.move(s.X+op.par(0, 1), s.Y)
		case "D":
			m.move(s.X-op.par(0, 1), s.Y)
		case "G":
			m.move(op.par(0, 1)-1, s.Y)
		case "d":
			m.move(s.X, op.par(0, 1)-1)
		case "H", "f":
			m.move(op.par(1, 1)-1, op.par(0, 1)-1)
		case "s":
			m.saved[m.act] = Pos{X: s.X, Y: s.Y}
		case "u":
			s.X, s.Y = m.saved[m.act].X, m.saved[m.act].Y
		case "J":
			switch op.par(0, 0) {
			case 0:
				m.erase(s.Y, s.X, s.W)
				for y := s.Y + 1; y < s.H; y++ {
					m.erase(y, 0, s.W)
				}
			case 1:
				for y := 0; y < s.Y; y++ {
					m.erase(y, 0, s.W)
				}
				m.erase(s.Y, 0, s.X+1)
			case 2:
				for y := 0; y < s.H; y++ {
					m.erase(y, 0, s.W)
				}
				s.X, s.Y = 0, 0
			default:
				return ""
			}
			return "C05"
		case "K":
			switch op.par(0, 0) {
			case 0:
				m.erase(s.Y, s.X, s.W)
			case 1:
				m.erase(s.Y, 0, s.X+1)
			case 2:
				m.erase(s.Y, 0, s.W)
			default:
				return ""
			}
			return "C05"
		case "X":
			m.erase(s.Y, s.X, s.X+op.par(0, 1))
			return "C05"
		case "P":
			m.dch(op.par(0, 1))
			return "C05"
		case "S":
			m.scroll(s.Top, s.Bot, -op.par(0, 1), false)
			return "C06"
		case "T":
			m.scroll(s.Top, s.Bot, op.par(0, 1), false)
			return "C06"
		case "L":
			if s.Y >= s.Top && s.Y <= s.Bot {
				m.scroll(s.Y, s.Bot, op.par(0, 1), false)
			}
			return "C06"
		case "M":
			if s.Y >= s.Top && s.Y <= s.Bot {
				m.scroll(s.Y, s.Bot, -op.par(0, 1), false)
			}
			return "C06"
		case "r":
			top, bot := op.par(0, 1), op.par(1, s.H)
			if top == 0 {
				top = 1
			}
			if bot == 0 {
				bot = s.H
			}
			if top <= bot {
				s.Top, s.Bot = clamp(top-1, 0, s.H-1), clamp(bot-1, 0, s.H-1)
			}
			return "C06"
		default:
			return ""
		}
		return "C04"
	}
	return ""
}

// resized tells the model about a Resize.
func (m *vfModel) resized(w, h int) {
	for i := range m.saved {
		m.saved[i].X = clamp(m.saved[i].X, 0, w-1)
		m.saved[i].Y = clamp(m.saved[i].Y, 0, h-1)
	}
}

// vfMatch compares a model screen with a real one.
func vfMatch(m, r *vfScr) string {
	if m.W != r.W || m.H != r.H {
		return vfDiffScr("", m, r)
	}
	c := r.clone()
	for y := range c.C {
		for x := range c.C[y] {
			k := m.C[y][x]
			if k.any || k.loose && c.C[y][x].S == k.old {
				c.C[y][x].S = k.S
			}
		}
	}
	return vfDiffScr("expected vs actual", m, c)
}
