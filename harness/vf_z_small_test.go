package termemu

// Small scopes, enumerated: every operation with every parameter from every cursor
// position, margin setting and kind of content on small screens. A quick run takes a
// fixed-size sample of each screen size; a thorough run takes them all.

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var vfSmallSizes = [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {2, 2}, {1, 4}, {3, 3}, {4, 2}, {2, 4}, {5, 3}, {4, 4}, {3, 5}, {9, 2}, {17, 1}, {6, 4}}

// vfFill draws every row of the screen: blank, letters with a style each, wide
// characters from the first or from the second column on.
func vfFill(w, h, pattern int) string {
	var b strings.Builder
	if pattern == 0 {
		return ""
	}
	for y := 0; y < h; y++ {
		fmt.Fprintf(&b, "\x1b[%dH", y+1)
		x, k := 0, 0
		for x < w {
			fmt.Fprintf(&b, "\x1b[%dm", []int{31, 42, 0, 1}[(y+k)%4])
			k++
			switch {
			case pattern == 1, x+1 >= w, pattern == 3 && x == 0:
				b.WriteByte(byte('a' + (y*w+x)%26))
				x++
			case pattern == 4 && k%2 == 0: // one run of several characters
				n := min(3, w-x)
				b.WriteString("pqr"[:n])
				x += n
			default:
				b.WriteString([]string{"世", "界", "한", "あ"}[(y+k)%4])
				x += 2
			}
		}
	}
	return b.String()
}

// vfCounts are parameters around extent n.
func vfCounts(n int) []string {
	out := []string{"", "0"}
	for i := 1; i <= n+1; i++ {
		out = append(out, strconv.Itoa(i))
	}
	return append(out, "999", "2147483648", "99999999999999999999")
}

var vfReCSI = regexp.MustCompile("\x1b\\[(\\??)([0-9;]*)([@-~])|[^\x1b]+")

// vfSplitOps turns bytes of text and CSI sequences into operations.
func vfSplitOps(b string) (ops []vfOp) {
	for _, m := range vfReCSI.FindAllStringSubmatch(b, -1) {
		if m[3] == "" {
			ops = append(ops, vfOp{K: "text", S: vfB(m[0])})
			continue
		}
		o := vfOp{K: "csi", Pre: m[1], F: m[3]}
		if m[2] != "" {
			o.P = strings.Split(m[2], ";")
		}
		ops = append(ops, o)
	}
	return
}

func vfSmallOps(prop string, w, h int) []vfOp {
	var ops []vfOp
	if prop == "" {
		for _, p := range []string{"C03", "C04", "C05", "C06"} {
			ops = append(ops, vfSmallOps(p, w, h)...)
		}
		for _, q := range []string{"1049", "7", "25"} {
			ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{q}, F: "h"}, vfOp{K: "csi", Pre: "?", P: []string{q}, F: "l"})
		}
		for i := 1; i <= 3; i++ {
			ops = append(ops, vfOp{K: "resize", W: max(1, w+i-2), H: h}, vfOp{K: "resize", W: w, H: max(1, h+i-2)})
		}
		return append(ops, vfCSI("m", "0"), vfCSI("m", "31", "1"))
	}
	csi := func(finals string, params []string) {
		for _, f := range finals {
			for _, p := range params {
				o := vfOp{K: "csi", F: string(f)}
				if p != "" {
					o.P = []string{p}
				}
				ops = append(ops, o)
			}
		}
	}
	two := func(finals string, a, b []string) {
		for _, f := range finals {
			for _, p := range a {
				for _, q := range b {
					o := vfOp{K: "csi", F: string(f), P: []string{p, q}}
					if p == "" && q == "" {
						o.P = nil
					}
					ops = append(ops, o)
				}
			}
		}
	}
	switch prop {
	case "C03":
		long := strings.Repeat("abcdefghij", w*h/10+1)[:w*h+1]
		for _, s := range []string{"x", "xy", "世", "世x", "x世", "世界", "⸺", "⸻z", long[:w], long[:min(w+1, len(long))], long, strings.Repeat("世", w*h/2+1), "\xff", "é", "e\u0301", "e\u0301x世"} {
			ops = append(ops, vfOp{K: "text", S: vfB(s)})
		}
	case "C04":
		for _, c := range "\b\t\r\n\f\x7f" {
			ops = append(ops, vfOp{K: "ctl", S: vfB(c)})
		}
		ops = append(ops, vfOp{K: "esc", S: "D"}, vfOp{K: "esc", S: "M"}, vfOp{K: "csi", F: "u"}, vfOp{K: "csi", F: "s"})
		csi("AB", vfCounts(h))
		csi("CD", vfCounts(w))
		csi("G", vfCounts(w))
		csi("d", vfCounts(h))
		two("Hf", vfCounts(h), vfCounts(w))
	case "C05":
		csi("JK", []string{"", "0", "1", "2"})
		csi("XP", vfCounts(w))
	case "C06":
		csi("STLM", vfCounts(h))
		two("r", vfCounts(h), vfCounts(h))
		for _, c := range "\n\f" {
			ops = append(ops, vfOp{K: "ctl", S: vfB(c)})
		}
		ops = append(ops, vfOp{K: "esc", S: "D"}, vfOp{K: "esc", S: "M"}, vfOp{K: "text", S: "x"})
	}
	return ops
}

func vfMix(n uint64) uint64 {
	n ^= n >> 33
	n *= 0xff51afd7ed558ccd
	n ^= n >> 29
	n *= 0xc4ceb9fe1a85ec53
	return n ^ n>>32
}

// vfTake says which of total cases number n is among, if limit are to be taken.
func vfTake(n, total, limit int, salt uint64) bool {
	if total <= limit {
		return true
	}
	return vfMix(uint64(n)+salt<<40)%uint64(total) < uint64(limit)
}

// vfSmall enumerates one operation of the property on small screens.
func vfSmall(prop string, quick int, run func(p vfProg, rep *vfRep) string) vfSub {
	s := vfSub{name: "small", dec: vfDecProg,
		run:    func(c any, rep *vfRep) string { return run(c.(vfProg), rep) },
		shrink: func(c any) []any { return vfShrinkProg(c.(vfProg)) },
		rule:   "enumerated: on small screens every operation of the property with every parameter up to one past the screen, zero, omitted and overflowing, from every cursor position, with every scroll region, autowrap on and off, five kinds of content, both buffers (quick: a sample of each size; thorough: all); non-trivial as for the random histories"}
	s.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		limit := quick
		if thorough {
			limit = 30 * quick
		}
		salt := uint64(vfEnvInt("VF_SEED", 1))
		n := 0
		for _, sz := range vfSmallSizes {
			w, h := sz[0], sz[1]
			ops := vfSmallOps(prop, w, h)
			many := func(op vfOp) bool { return len(op.P) == 2 } // most of the operations
			kinds := 0
			for _, op := range ops {
				if kinds += 10; many(op) && !thorough {
					kinds -= 9
				}
			}
			total := 5 * 2 * 2 * h * (h + 1) / 2 * w * h * kinds / 10
			for pat := 0; pat < 5; pat++ {
				fill := vfFill(w, h, pat)
				for flags := 0; flags < 4; flags++ {
					for top := 1; top <= h; top++ {
						for bot := top; bot <= h; bot++ {
							for at := 0; at < w*h; at++ {
								for _, op := range ops {
									n++
									if n%shards != shard || !vfTake(n, total, limit, salt) {
										continue
									}
									r := vfMix(uint64(n))
									if !thorough && many(op) && r>>40%10 != 0 {
										continue
									}
									pre := fill
									if flags&2 != 0 {
										pre += "\x1b[?7h"
									}
									save := int(r>>8) % (w * h)
									rest := fmt.Sprintf("\x1b[%d;%dr\x1b[%dm\x1b[%d;%dH", top, bot, []int{0, 7, 45, 92}[r>>4&3], at/w+1, at%w+1)
									var c []vfOp
									if op.K == "csi" && op.F == "u" {
										c = []vfOp{{K: "raw", S: vfB(pre + fmt.Sprintf("\x1b[%d;%dH", save/w+1, save%w+1))}, {K: "csi", F: "s"}, {K: "raw", S: vfB(rest)}, op}
									} else {
										c = []vfOp{{K: "raw", S: vfB(pre + rest)}, op}
									}
									if prop == "" {
										c = append(vfSplitOps(string(c[0].S)), c[1:]...)
									}
									if !yield(vfProg{Cfg: vfCfg{W: w, H: h, Mode: int(r & 1), Grid: flags&1 != 0}, Ops: c}) {
										return
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return s
}

// vfSmallSGR enumerates SGR parameter pairs and colours.
func vfSmallSGR(run func(p vfProg, rep *vfRep) string) vfSub {
	s := vfSub{name: "pairs", dec: vfDecProg,
		run:    func(c any, rep *vfRep) string { return run(c.(vfProg), rep) },
		shrink: func(c any) []any { return vfShrinkProg(c.(vfProg)) },
		rule:   "enumerated: every pair of SGR codes 0-110 (and some above) in one sequence and in two, from the default rendition and from one with everything set; every palette colour and a grid of RGB colours, followed by another code; a character is written after each; all non-trivial"}
	s.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		var codes []string
		for c := 0; c <= 110; c++ {
			codes = append(codes, strconv.Itoa(c))
		}
		codes = append(codes, "", "127", "128", "137", "200", "255", "256")
		all := "1;2;3;4;5;6;7;8;9;21;51;52;53;38;2;1;2;3;48;5;200"
		n := 0
		emit := func(ops []vfOp) bool {
			n++
			if n%shards != shard {
				return true
			}
			return yield(vfProg{Cfg: vfCfg{W: 3, H: 1, Mode: n & 1, Grid: n%3 == 0}, Ops: ops})
		}
		sgr := func(p ...string) vfOp { return vfCSI("m", strings.Split(strings.Join(p, ";"), ";")...) }
		x := []vfOp{{K: "ctl", S: "\r"}, {K: "text", S: "x"}}
		for _, base := range []string{"0", "0;" + all} {
			for _, c1 := range codes {
				if c1 == "38" || c1 == "48" {
					continue
				}
				var ops, ops2 []vfOp
				for _, c2 := range codes {
					if c2 == "38" || c2 == "48" {
						continue
					}
					ops = append(append(ops, sgr(base), sgr(c1, c2)), x...)
					if thorough {
						ops2 = append(append(ops2, sgr(base), sgr(c1), sgr(c2)), x...)
					}
				}
				if !emit(ops) || thorough && !emit(ops2) {
					return
				}
			}
			for _, k := range []string{"38", "48"} {
				for i := 0; i < 256; i++ {
					var ops []vfOp
					for _, next := range []string{"1", "0", "4", "30", "44", "95", "103", "39", "49", "22", "38;5;3", "48;5;3", "38;2;9;8;7", "48;2;9;8;7"} {
						c := strconv.Itoa(i)
						ops = append(append(ops, sgr(base, k, "5", c), sgr(base, k, "5", c, next)), x...)
						ops = append(append(ops, sgr(base, next, k, "5", c)), x...)
					}
					if !emit(ops) {
						return
					}
				}
				vals := []string{"0", "1", "2", "5", "7", "38", "48", "127", "128", "200", "254", "255"}
				for _, r := range vals {
					for _, g := range vals {
						var ops []vfOp
						for _, b := range vals {
							ops = append(append(ops, sgr(base, k, "2", r, g, b)), x...)
							ops = append(append(ops, sgr(base, k, "2", r, g, b, "4", "31"), sgr(k, "5", r)), x...)
						}
						if !emit(ops) {
							return
						}
					}
				}
			}
		}
	}
	return s
}

// vfSmallResize enumerates resizes of small screens.
func vfSmallResize(run func(c any, rep *vfRep) string) vfSub {
	s := vfSub{name: "small", dec: vfDec[vfHist], run: run, shrink: vfShrinkHist,
		rule: "enumerated: every resize between screens of up to 4x4 and up to 5x5, with five kinds of content, four scroll regions, three cursors, either buffer active, both buffer kinds (quick: a sample), followed by a fixed tail on both terminals; non-trivial as for the random histories"}
	s.enum = func(shard, shards int, thorough bool, yield func(any) bool) {
		limit := 24000
		if thorough {
			limit = 1 << 30
		}
		salt := uint64(vfEnvInt("VF_SEED", 1))
		total := 16 * 25 * 5 * 4 * 3 * 4
		for n := 0; n < total; n++ {
			if n%shards != shard || !vfTake(n, total, limit, salt) {
				continue
			}
			k := n
			pick := func(m int) int { v := k % m; k /= m; return v }
			w, h, w2, h2 := pick(4)+1, pick(4)+1, pick(5)+1, pick(5)+1
			pat, reg, cur, flags := pick(5), pick(4), pick(3), pick(4)
			pre := vfFill(w, h, pat)
			if flags&2 != 0 {
				pre += "\x1b[?7h\x1b[?1049h" + vfFill(w, h, (pat+3)%5)
			}
			r := vfMix(uint64(n))
			pre += fmt.Sprintf("\x1b[%d;%dH", int(r>>8)%h+1, int(r>>16)%w+1)
			ops := []vfOp{{K: "raw", S: vfB(pre)}, {K: "csi", F: "s"}}
			pre = ""
			switch reg {
			case 1:
				pre += fmt.Sprintf("\x1b[1;%dr", max(1, h-1))
			case 2:
				pre += fmt.Sprintf("\x1b[%d;%dr", min(2, h), h)
			case 3:
				pre += fmt.Sprintf("\x1b[%d;%dr", h, h)
			}
			pre += fmt.Sprintf("\x1b[%dm\x1b[%d;%dH", []int{0, 7, 45, 92}[r>>4&3], []int{1, (h + 1) / 2, h}[cur], []int{1, w, (w + 1) / 2}[cur])
			tails := [][]vfOp{
				{{K: "ctl", S: "\n"}, {K: "text", S: "xyz"}, {K: "csi", F: "u"}, {K: "text", S: "世"}, {K: "csi", P: []string{"6"}, F: "n"}},
				{{K: "csi", P: []string{"99"}, F: "B"}, {K: "ctl", S: "\n"}, {K: "csi", F: "J"}, {K: "csi", F: "u"}, {K: "csi", P: []string{"6"}, F: "n"}, {K: "esc", S: "M"}},
				{{K: "csi", F: "P"}, {K: "csi", F: "T"}, {K: "csi", F: "L"}, {K: "csi", Pre: "?", P: []string{"1049"}, F: vfB01(flags&2 != 0, "l", "h")}, {K: "csi", F: "u"}, {K: "text", S: "q"}, {K: "csi", F: "S"}},
			}
			tail := tails[int(r>>32)%len(tails)]
			if !yield(vfHist{vfCfg{W: w, H: h, Mode: int(r & 1), Grid: flags&1 != 0}, append(ops, vfOp{K: "raw", S: vfB(pre)}, vfOp{K: "resize", W: w2, H: h2}), tail}) {
				return
			}
		}
	}
	return s
}

func vfB01(b bool, t, f string) string {
	if b {
		return t
	}
	return f
}

func init() {
	for _, prop := range []string{"C03", "C04", "C05", "C06"} {
		vfProps[prop] = append(vfProps[prop], vfSmall(prop, 12000, vfProps[prop][0].runProg))
	}
	for _, prop := range []string{"C02", "C10", "C20"} {
		vfProps[prop] = append(vfProps[prop], vfSmall("", 4000, vfProps[prop][0].runProg))
	}
	vfProps["C07"] = append(vfProps["C07"], vfSmallSGR(vfProps["C07"][0].runProg))
	vfProps["C18"] = append(vfProps["C18"], vfSmallResize(vfProps["C18"][0].run))
}

func (s vfSub) runProg(p vfProg, rep *vfRep) string { return s.run(p, rep) }
