package termemu

// States first: before every judged operation the state is scattered anew - cursor,
// saved cursor, scroll region, rendition, autowrap, buffer, content - so that the
// operation meets combinations of conditions that a random history reaches rarely, on
// screens of every scale.

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// vfStateSize draws a size; both dimensions vary over two orders of magnitude.
func vfStateSize(t *rapid.T) (int, int) {
	dim := func(most int) int {
		switch vfInt(t, 0, 7) {
		case 0, 1, 2:
			return vfInt(t, 3, 12)
		case 3:
			return vfInt(t, 1, 2)
		case 4, 5:
			return vfInt(t, 9, 40)
		case 6:
			return vfPick(t, 24, 25, 64, 80)
		}
		return vfInt(t, 41, most)
	}
	w, h := dim(140), dim(70)
	most := 3000
	if vfOneIn(t, 12) {
		most = 9000
	}
	for w*h > most {
		if w > h {
			w = w/2 + 1
		} else {
			h = h/2 + 1
		}
	}
	return w, h
}

var vfStateStyles = []string{"0", "31", "42", "1", "7", "93;4", "38;5;200", "48;2;1;2;3", "53;21", "0;105;9", "38;2;9;8;7;48;5;17;3;51", "5;6;8;2;52", "7;53", "4;9;7;53", "1;2;3;4;5;7;8;9;53"}

// vfStateFill draws content over the whole screen; everything follows from seed.
func vfStateFill(w, h int, seed uint64) string {
	var b strings.Builder
	kind := vfMix(seed) % 6
	for y := 0; y < h; y++ {
		r := vfMix(seed + uint64(y)*7919)
		row := kind
		if kind == 5 {
			row = r >> 8 % 6
		}
		if r>>16%8 == 0 {
			continue // a blank row
		}
		fmt.Fprintf(&b, "\x1b[%dH\x1b[%sm", y+1, vfStateStyles[r>>24%uint64(len(vfStateStyles))])
		run := []int{w, 7, 1, 3, 2, 5}[row] // cells of one style
		end := w
		if r>>20%4 == 0 {
			end = int(r>>32) % (w + 1)
		}
		for x := 0; x < end; {
			q := vfMix(r + uint64(x)*31)
			if x > 0 && x%run == 0 {
				fmt.Fprintf(&b, "\x1b[%sm", vfStateStyles[q>>8%uint64(len(vfStateStyles))])
			}
			if row > 1 && x+2 < end && q>>20%16 == 0 {
				b.WriteString("\u2e3a")
				x += 3
				continue
			}
			if row != 0 && x+1 < end && q>>16%(row+1) == 0 {
				b.WriteString([]string{"世", "界", "한", "😀"}[q>>24%4])
				x += 2
				continue
			}
			b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEF"[q>>32%32])
			x++
		}
	}
	b.WriteString("\x1b[0m\x1b[H")
	return b.String()
}

// vfStater generates histories of scattered states.
type vfStater struct {
	p      *vfProfile
	own    []vfW
	resize bool
}

func (s *vfStater) scatter(t *rapid.T, cfg vfCfg, top, bot *int) (ops []vfOp) {
	W, H := cfg.W, cfg.H
	move := func() {
		y, x := vfInt(t, 1, H), vfInt(t, 1, W)
		switch vfInt(t, 0, 9) {
		case 0, 1:
			y = *bot
		case 2:
			y = *top
		case 3:
			y = min(H, *bot+1+vfInt(t, 0, 1))
		case 4:
			y = max(1, *top-1)
		case 5:
			y = vfPick(t, H, 1)
		}
		switch vfInt(t, 0, 5) {
		case 0:
			x = W
		case 1:
			x = max(1, W-1)
		case 2:
			x = vfPick(t, 1, min(2, W))
		}
		ops = append(ops, vfCSI("H", strconv.Itoa(y), strconv.Itoa(x)))
	}
	if vfOneIn(t, 3) {
		*top, *bot = vfInt(t, 1, H), H
		switch vfInt(t, 0, 4) {
		case 0:
			*top = 1
		case 1:
			*bot = *top
		case 2, 3:
			*bot = vfInt(t, *top, H)
		}
		ops = append(ops, vfCSI("r", strconv.Itoa(*top), strconv.Itoa(*bot)))
	}
	if vfOneIn(t, 3) {
		ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: vfPick(t, "h", "l")})
	}
	switch vfInt(t, 0, 5) {
	case 0:
		ops = append(ops, vfCSI("m", strings.Split(vfPick(t, vfStateStyles...), ";")...))
	case 1:
		ops = append(ops, vfSGR(t))
	}
	if vfOneIn(t, 16) {
		ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{"1049"}, F: vfPick(t, "h", "l")})
	}
	if vfOneIn(t, 5) {
		move()
		ops = append(ops, vfCSI("s"))
	}
	if vfOneIn(t, 2) {
		move()
	}
	return ops
}

func (s *vfStater) gen(t *rapid.T) vfProg {
	cfg := vfGenCfg(t)
	cfg.W, cfg.H = vfStateSize(t)
	pr := vfProg{Cfg: cfg}
	top, bot := 1, cfg.H
	fill := func() {
		pr.Ops = append(pr.Ops, vfOp{K: "fill", W: cfg.W, H: cfg.H, F: strconv.Itoa(vfInt(t, 0, 1<<30))})
	}
	if !vfOneIn(t, 8) {
		fill()
	}
	n := vfInt(t, 1, 10)
	for i := 0; i < n; i++ {
		if vfOneIn(t, 12) {
			fill()
		}
		if s.resize && vfOneIn(t, 8) {
			o := vfOp{K: "resize", W: cfg.W, H: cfg.H}
			switch vfInt(t, 0, 2) {
			case 0:
				o.W, o.H = vfStateSize(t)
			case 1:
				o.W = max(1, cfg.W+vfInt(t, -4, 4))
			case 2:
				o.H = max(1, cfg.H+vfInt(t, -4, 4))
			}
			cfg.W, cfg.H = o.W, o.H
			top, bot = min(top, cfg.H), min(bot, cfg.H)
			pr.Ops = append(pr.Ops, o)
		}
		pr.Ops = append(pr.Ops, s.scatter(t, cfg, &top, &bot)...)
		pr.Ops = append(pr.Ops, vfGenOp(t, vfWeighted(t, s.own), s.p, cfg))
	}
	return pr
}

const vfStateRule = "random states: on screens from 1x1 to 140x70, filled with styled and wide characters, the cursor, saved cursor, scroll region, rendition, autowrap and buffer are scattered anew before every operation of the property; non-trivial as for the random histories"

func (s *vfStater) sub(prop string, weight int) {
	vfStateSub(prop, "", "states", weight, s.gen)
}

// vfStateSub adds a sub-check that judges like the named one, or the first.
func vfStateSub(prop, like, name string, weight int, gen func(t *rapid.T) vfProg) {
	k := 0
	for i, s := range vfProps[prop] {
		if s.name == like {
			k = i
		}
	}
	vfProps[prop] = append(vfProps[prop], vfProgSub(name, weight, gen, vfProps[prop][k].runProg, vfStateRule))
}

func init() {
	st := func(own ...vfW) *vfStater {
		return &vfStater{p: &vfProfile{texts: vfTextFull, cuts: true}, own: own, resize: true}
	}
	all := []vfW{{"text", 6}, {"char", 4}, {"lf", 4}, {"cr", 3}, {"cup", 4}, {"save", 3}, {"erase", 6}, {"scroll", 6}, {"region", 2}, {"sgr", 2}}
	st(vfW{"text", 3}, vfW{"char", 1}).sub("C03", 40)
	st(vfW{"cup", 4}, vfW{"lf", 2}, vfW{"cr", 3}, vfW{"save", 3}).sub("C04", 40)
	st(vfW{"erase", 1}).sub("C05", 40)
	st(vfW{"scroll", 5}, vfW{"lf", 2}, vfW{"region", 1}, vfW{"char", 1}).sub("C06", 40)
	st(vfW{"sgr", 3}, vfW{"char", 2}, vfW{"text", 1}, vfW{"erase", 2}, vfW{"scroll", 1}).sub("C07", 40)
	st(all...).sub("C02", 30)
	st(all...).sub("C10", 30)
	s := st(all...)
	s.p.texts = vfTextPlain
	s.sub("C20", 20)

	st(vfW{"query", 6}, vfW{"kbd", 2}, vfW{"alt", 1}, vfW{"cup", 2}).sub("C14", 30)
	modes := st(vfW{"mode", 4}, vfW{"alt", 3}, vfW{"wrap", 1}, vfW{"kbd", 2}, vfW{"text", 1}, vfW{"scroll", 1})
	vfStateSub("C17", "", "states", 40, func(t *rapid.T) vfProg {
		pr := modes.gen(t)
		for i, o := range pr.Ops {
			if o.K == "csi" && o.Pre == "?" && vfOneIn(t, 3) {
				pr.Ops[i] = vfGenModes(t)
			}
		}
		return pr
	})
	round := st(all...)
	round.p.texts = vfTextWild
	vfStateSub("C11", "roundtrip", "states", 15, round.gen)
	mirror := st(append([]vfW{{"alt", 1}, {"mode", 1}}, all...)...)
	mirror.p.texts = []vfW{{"ascii", 8}, {"punct", 2}, {"wide", 6}, {"latin", 2}, {"cluster", 2}, {"odd", 1}, {"ext", 1}}
	vfStateSub("C11", "mirror", "mirror states", 20, func(t *rapid.T) vfProg {
		pr := mirror.gen(t)
		w, h := pr.Cfg.W, pr.Cfg.H
		var ops []vfOp
		for i, o := range pr.Ops {
			if i == 0 || vfOneIn(t, 10) {
				ops = append(ops, vfOp{K: "ttyattach", S: vfGenRegion(t, w, h)})
			}
			if o.K == "resize" {
				w, h = o.W, o.H
			}
			ops = append(ops, o)
		}
		pr.Ops = ops
		return pr
	})

	// C18: the state, a resize, and a tail
	c18s := st(vfW{"text", 1}, vfW{"save", 1}, vfW{"sgr", 1}, vfW{"region", 1})
	c18s.p.texts = vfTextPlain
	tail := &vfProfile{ops: append([]vfW{{"query", 4}, {"save", 4}, {"lf", 6}, {"scroll", 4}, {"edge", 4}}, vfBaseOps...), texts: vfTextPlain}
	c18 := vfProps["C18"][0]
	c18.name, c18.weight, c18.rule = "states", 40, vfStateRule
	c18.gen = func(t *rapid.T) any {
		pr := c18s.gen(t)
		cfg := pr.Cfg
		for _, o := range pr.Ops {
			if o.K == "resize" {
				cfg.W, cfg.H = o.W, o.H
			}
		}
		o := vfOp{K: "resize", W: max(1, cfg.W+vfInt(t, -6, 6)), H: max(1, cfg.H+vfInt(t, -6, 6))}
		if vfOneIn(t, 3) {
			o.W, o.H = vfStateSize(t)
		}
		return vfHist{pr.Cfg, append(pr.Ops, o), vfGenOps(t, tail, vfCfg{W: o.W, H: o.H, Mode: cfg.Mode}, 0, 6)}
	}
	vfProps["C18"] = append(vfProps["C18"], c18)
}
