package termemu

// Generators. Every random choice is drawn from rapid.

import (
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// vfW is a weighted choice of operation kinds.
type vfW struct {
	kind string
	n    int
}

// vfProfile says what a generated history consists of.
type vfProfile struct {
	ops     []vfW
	texts   []vfW // classes of text atoms
	maxText int
	cuts    bool // split operations into several reads
	lead0   bool // parameters may have leading zeros
}

// The functions below draw with small, shrink-friendly ranges: the first
// alternatives are the simplest.

func vfInt(t *rapid.T, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, "i") }

func vfBool(t *rapid.T) bool { return rapid.Bool().Draw(t, "b") }

// vfOneIn is true once in n draws, and shrinks to false.
func vfOneIn(t *rapid.T, n int) bool { return vfInt(t, 0, n-1) == n-1 }

func vfPick[T any](t *rapid.T, xs ...T) T { return xs[vfInt(t, 0, len(xs)-1)] }

func vfWeighted(t *rapid.T, ws []vfW) string {
	total := 0
	for _, w := range ws {
		total += w.n
	}
	// rapid's integers prefer small values; its bits are fair
	v, bits := 0, 0
	for ; 1<<bits < 8*total; bits++ {
		v *= 2
		if rapid.Bool().Draw(t, "w") {
			v++
		}
	}
	v = v * total >> bits
	for _, w := range ws {
		if v < w.n {
			return w.kind
		}
		v -= w.n
	}
	return ws[0].kind
}

// ---------------------------------------------------------------- text

var vfWide = []string{"世", "界", "한", "あ", "😀", "👍", "Ｗ", "🇦🇧"}
var vfWideRune = []string{"世", "界", "한", "あ", "😀", "👍", "Ｗ"}
var vfClusters = []string{"e\u0301", "a\u0308\u0323", "👩\u200d👩\u200d👧", "👍🏽", "❤\ufe0f", "☂\ufe0e", "🇩🇪", "\u1112\u1161\u11ab", "ก\u0e33", "ß\u0300"}
var vfOdd = []string{"\u200b", "\u0085", "\u00ad", "\u009b", "\u2e3a", "\u2e3b", "\u00a0", "\ufffd", "\u2028"}
var vfInvalid = []string{"\xff", "\x80", "\xc0", "\xfe", "\x9c", "\xe4z", "\xf0\x9fq"}
var vfExtenders = []string{"\u0301", "\u200d", "\ufe0f", "\u0308", "\ufe0e", "\U000e0101", "\u20dd", "🏽", "🇦"}
var vfLatin = []string{"é", "Ω", "ж", "─", "█", "→"}

// vfAtom draws one character.
func vfAtom(t *rapid.T, mode TextReadMode, classes []vfW) string {
	switch vfWeighted(t, classes) {
	case "ascii":
		return string(rune('a' + vfInt(t, 0, 25)))
	case "punct":
		return string(rune(32 + vfInt(t, 0, 94)))
	case "wide":
		if mode == TextReadModeRune {
			return vfPick(t, vfWideRune...)
		}
		return vfPick(t, vfWide...)
	case "wide1": // one code point
		return vfPick(t, vfWideRune...)
	case "wide3":
		return vfPick(t, "\u2e3a", "\u2e3a", "\u2e3b")
	case "latin":
		return vfPick(t, vfLatin...)
	case "cluster":
		return vfPick(t, vfClusters...)
	case "odd":
		return vfPick(t, vfOdd...)
	case "invalid":
		return vfPick(t, vfInvalid...)
	case "ext":
		return vfPick(t, vfExtenders...)
	case "ext0": // a character on its own in rune mode only
		if mode == TextReadModeRune {
			return vfPick(t, vfExtenders...)
		}
		return vfPick(t, vfClusters...)
	}
	return "x"
}

func vfText(t *rapid.T, mode TextReadMode, p *vfProfile, maxLen int) string {
	n := vfInt(t, 1, maxLen)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(vfAtom(t, mode, p.texts))
	}
	return b.String()
}

var vfTextPlain = []vfW{{"ascii", 6}, {"punct", 2}, {"wide", 4}, {"latin", 1}, {"wide3", 1}}
var vfTextFull = []vfW{{"ascii", 8}, {"punct", 2}, {"wide", 6}, {"wide3", 1}, {"latin", 2}, {"cluster", 2}, {"odd", 1}, {"invalid", 1}, {"ext0", 1}}
var vfTextWild = []vfW{{"ascii", 8}, {"punct", 2}, {"wide", 6}, {"wide3", 1}, {"latin", 2}, {"cluster", 2}, {"odd", 1}, {"invalid", 1}, {"ext", 3}}

// ---------------------------------------------------------------- sizes

func vfSizeW(t *rapid.T) int {
	switch vfInt(t, 0, 9) {
	case 0:
		return vfInt(t, 1, 3)
	case 8:
		return vfInt(t, 13, 40)
	case 9:
		return vfPick(t, 80, 79, 100, 132)
	}
	return vfInt(t, 4, 12)
}

func vfSizeH(t *rapid.T) int {
	switch vfInt(t, 0, 9) {
	case 0:
		return vfInt(t, 1, 2)
	case 9:
		return vfInt(t, 9, 25)
	}
	return vfInt(t, 3, 8)
}

// vfSize draws a size; now and then one dimension is far larger than usual.
func vfSize(t *rapid.T) (w, h int) {
	if vfOneIn(t, 60) {
		n := vfPick(t, 200, 223, 224, 255, 256, 257, 300, 127, 128, 129)
		if vfBool(t) {
			return n, vfInt(t, 1, 4)
		}
		return vfInt(t, 1, 6), n
	}
	return vfSizeW(t), vfSizeH(t)
}

func vfGenCfg(t *rapid.T) vfCfg {
	c := vfCfg{Mode: vfInt(t, 0, 1), Grid: vfOneIn(t, 4)}
	c.W, c.H = vfSize(t)
	return c
}

// ---------------------------------------------------------------- operations

// vfCount draws a count or coordinate near the interesting values of extent n.
func vfCount(t *rapid.T, n int) string {
	switch vfInt(t, 0, 9) {
	case 0, 1:
		return ""
	case 2:
		return strconv.Itoa(max(1, n-1+vfInt(t, 0, 2)))
	case 3:
		return vfPick(t, "99", "255", "1000", "65536", "2147483647", "4294967296", "9223372036854775807", "18446744073709551617", "99999999999999999999")
	case 4:
		return "0"
	}
	return strconv.Itoa(vfInt(t, 1, max(1, n)))
}

func vfCSI(f string, p ...string) vfOp { return vfOp{K: "csi", P: p, F: f} }

// vfTrim drops trailing omitted parameters sometimes, to get both forms.
func vfTrim(t *rapid.T, p []string) []string {
	for len(p) > 0 && p[len(p)-1] == "" && !vfOneIn(t, 4) {
		p = p[:len(p)-1]
	}
	if len(p) == 0 {
		return nil
	}
	return p
}

func vfSGRParams(t *rapid.T, n int) []string {
	var p []string
	for i := 0; i < n; i++ {
		switch vfInt(t, 0, 11) {
		case 0:
			p = append(p, vfPick(t, "0", ""))
		case 1, 2:
			p = append(p, vfPick(t, "1", "2", "3", "4", "5", "6", "7", "8", "9", "21", "51", "52", "53"))
		case 3:
			p = append(p, vfPick(t, "22", "23", "24", "25", "27", "28", "29", "54", "55"))
		case 4, 5:
			p = append(p, strconv.Itoa(vfPick(t, 30, 40, 90, 100)+vfInt(t, 0, 7)))
		case 6:
			p = append(p, vfPick(t, "39", "49"))
		case 7, 8:
			p = append(p, vfPick(t, "38", "48"), "5", strconv.Itoa(vfPick(t, vfInt(t, 0, 15), vfInt(t, 0, 255))))
		case 9, 10:
			p = append(p, vfPick(t, "38", "48"), "2", vfByteParam(t), vfByteParam(t), vfByteParam(t))
		case 11:
			p = append(p, vfPick(t, "10", "19", "20", "26", "50", "56", "59", "65", "73", "89", "98", "108", "999", "4294967297"))
		}
	}
	return p
}

func vfByteParam(t *rapid.T) string {
	return strconv.Itoa(vfPick(t, vfInt(t, 0, 255), 0, 255, 1, 2, 127, 128))
}

func vfSGR(t *rapid.T) vfOp {
	n := vfInt(t, 0, 4)
	if vfOneIn(t, 40) {
		n = vfPick(t, 8, 15, 16, 17, 32, 40, 70)
	}
	p := vfSGRParams(t, n)
	// a truncated extended colour at the end now and then
	if vfOneIn(t, 12) {
		p = append(p, vfPick(t, "38", "48"))
		switch vfInt(t, 0, 2) {
		case 1:
			p = append(p, "5")
		case 2:
			p = append(p, "2", "7", "1")
		}
	}
	return vfOp{K: "csi", P: p, F: "m"}
}

func vfModeNum(t *rapid.T) string {
	return vfPick(t, "7", "25", "1", "12", "9", "1000", "1002", "1003", "1004", "1005", "1006", "1015", "2004", "1034", "1049")
}

// vfUnknownCSI draws well-formed control sequences no terminal function uses.
func vfUnknownCSI(t *rapid.T) vfOp {
	o := vfOp{K: "csi"}
	params := func(max int) {
		for i, n := 0, vfInt(t, 0, max); i < n; i++ {
			o.P = append(o.P, vfCount(t, 9))
		}
	}
	switch vfInt(t, 0, 5) {
	case 0: // a final byte without a function
		params(vfPick(t, 3, 10, 20, 40))
		o.F = vfPick(t, "@", "E", "F", "I", "N", "O", "Q", "U", "V", "W", "Y", "Z", "[", "\\", "]", "^", "_", "`", "a", "b", "e", "g", "i", "j", "k", "o", "p", "q", "v", "w", "x", "y", "z", "{", "|", "}", "~")
	case 1: // intermediates
		params(3)
		o.Pre = vfPick(t, "", "", "?", ">", "<", "=")
		o.I = vfPick(t, " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "$ ", "!!", " #\"")
		o.F = string(rune(0x40 + vfInt(t, 0, 0x3e)))
	case 2: // sub-parameters
		o.P = append(o.P, vfPick(t, "4:3", "38:5:9", "1:", ":1", "48:2::1:2:3", "0:0", ":"))
		params(2)
		o.F = vfPick(t, "m", "H", "A", "J", "K", "X", "P", "L", "M", "S", "T", "r", "h", "l", "c", "n")
	case 3: // misplaced private markers
		o.P = append(o.P, vfPick(t, "1?", "3<", "2>", "5=", "1?2"))
		params(2)
		o.F = vfPick(t, "m", "H", "A", "J", "K", "h", "l", "n", "c", "u")
	case 4: // private sequences without a function
		o.Pre = vfPick(t, "?", ">", "<", "=")
		params(3)
		o.F = vfPick(t, "@", "A", "B", "C", "D", "E", "F", "G", "H", "J", "K", "L", "P", "S", "T", "X", "Z", "d", "f", "g", "i", "p", "r", "s", "t", "x", "~", "{")
	case 5: // modes without a function
		o.Pre = vfPick(t, "?", "")
		o.P = []string{vfPick(t, "2", "3", "5", "6", "8", "18", "40", "45", "66", "67", "69", "80", "1001", "1007", "1016", "1035", "1036", "2026", "99999")}
		o.F = vfPick(t, "h", "l")
	}
	return o
}

func vfEscUnknown(t *rapid.T) vfOp {
	switch vfInt(t, 0, 2) {
	case 0:
		return vfOp{K: "esc", S: vfB(vfPick(t, "(", ")", "*", "+", "#", "%", " ", "-", ".", "/", "$(", "$", "&", "'", "!", "\"", ",", "(%", ") ") + vfPick(t, "0", "B", "A", "8", "@", "G", "F", "~", "a", "P", "[", "]", "M", "D"))}
	case 1:
		return vfOp{K: "esc", S: vfB(vfPick(t, "7", "8", "E", "H", "N", "O", "V", "W", "Z", "6", "9", "n", "o", "|", "}", "~", "l", "m", "a", "`", "0", "1", "?", "<"))}
	}
	return vfOp{K: "esc", S: vfB(vfPick(t, "c", "\\"))}
}

// vfPayload draws the payload of a string sequence: no terminator inside.
func vfPayload(t *rapid.T) string {
	n := vfInt(t, 0, 12)
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch vfInt(t, 0, 7) {
		case 0, 1, 2:
			b.WriteByte(byte('a' + vfInt(t, 0, 25)))
		case 3:
			b.WriteString(vfPick(t, ";", ";;", " ", "/", "[", "]", "\\", "0", "m", "1;2"))
		case 4:
			b.WriteString(vfPick(t, "é", "世", "\u031c", "✜", "😀", "ܜ", "\U0001f71c", "朜"))
		case 5:
			b.WriteString(vfPick(t, "\n", "\r", "\t", "\x00", "\x08", "\x0c", "\x7f"))
		case 6:
			b.WriteString(vfPick(t, "\x1b[", "\x1b]", "\x1bx", "\x1b7", "\x1b[31m", "\x1b"+"P", "\x1b;"))
		case 7:
			b.WriteString(vfPick(t, "\xff", "\xc0", "\xfe"))
		}
	}
	s := b.String()
	if s != "" && vfOneIn(t, 50) { // far longer than any buffer
		l := vfPick(t, 64, 127, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 9000)
		s = strings.Repeat(s, l/len(s)+1)
	}
	return s
}

func vfST(t *rapid.T, dcs bool) vfB {
	if dcs {
		return vfB(vfPick(t, "\x1b\\", "\x9c"))
	}
	return vfB(vfPick(t, "\a", "\x1b\\", "\x9c"))
}

func vfOSC(t *rapid.T) vfOp {
	return vfOp{K: "osc", F: vfPick(t, "0", "2", "6", "7", "0", "2", "6", "7", "1", "4", "8", "10", "11", "52", "104", "112", "133", "777", "1337"), S: vfB(vfPayload(t)), T: vfST(t, false)}
}

// vfOSCOdd draws an OSC whose number is missing, huge or not followed by ;.
func vfOSCOdd(t *rapid.T) vfOp {
	o := vfOp{K: "osc", I: "none", F: vfPick(t, "", "", "0", "2", "6", "7", "1", "9", "112", "104", "99999999999999999999"), T: vfST(t, false)}
	switch vfInt(t, 0, 3) {
	case 0: // nothing but the number
		o.F = vfPick(t, "1", "9", "112", "104", "9223372036854775808", "99999999999999999999")
	case 1:
		o.I, o.F = "", vfPick(t, "9223372036854775808", "18446744073709551616", "99999999999999999999", "4294967296", "65536", "256", "20", "72")
		o.S = vfB(vfPayload(t))
	default:
		o.S = vfB(vfPick(t, "l", "L", "I", "P", "R", "?", " ", ":", "/", "é", "世", "ܜ", "\xff", "\n", "-", "\x1b[", "\x1bx", "m", "H") + vfPayload(t))
	}
	return o
}

func vfDCS(t *rapid.T) vfOp {
	p := vfPayload(t)
	if vfOneIn(t, 3) {
		p += "\a" // BEL does not end a DCS
	}
	return vfOp{K: "dcs", S: vfB(p), T: vfST(t, true)}
}

// vfGenOp draws an operation of the given kind.
func vfGenOp(t *rapid.T, kind string, p *vfProfile, cfg vfCfg) vfOp {
	mode := cfg.mode()
	W, H := cfg.W, cfg.H
	var o vfOp
	switch kind {
	case "text":
		n := p.maxText
		if n == 0 {
			n = 6
		}
		if vfOneIn(t, 6) {
			n = min(2*W+2, 40)
		}
		if vfOneIn(t, 100) {
			n = vfPick(t, 100, 130, 260, 520)
		}
		o = vfOp{K: "text", S: vfB(vfText(t, mode, p, n))}
	case "char":
		o = vfOp{K: "text", S: vfB(vfAtom(t, mode, p.texts))}
	case "ctl":
		o = vfOp{K: "ctl", S: vfB(vfPick(t, "\n", "\r", "\b", "\t", "\f", "\v", "\a", "\x00", "\x05", "\x7f"))}
	case "badctl": // unassigned C0 controls
		o = vfOp{K: "ctl", S: vfB(string(rune(vfPick(t, 1, 2, 3, 4, 6, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 29, 30, 31))))}
	case "lf":
		o = vfPick(t, vfOp{K: "ctl", S: "\n"}, vfOp{K: "ctl", S: "\f"}, vfOp{K: "esc", S: "D"}, vfOp{K: "esc", S: "M"})
	case "cr":
		o = vfPick(t, vfOp{K: "ctl", S: "\r"}, vfOp{K: "ctl", S: "\b"}, vfOp{K: "ctl", S: "\t"})
	case "cup":
		switch vfInt(t, 0, 7) {
		case 0, 1, 2, 3:
			o = vfCSI(vfPick(t, "H", "f"), vfTrim(t, []string{vfCount(t, H), vfCount(t, W)})...)
		case 4:
			o = vfCSI("G", vfTrim(t, []string{vfCount(t, W)})...)
		case 5:
			o = vfCSI("d", vfTrim(t, []string{vfCount(t, H)})...)
		case 6:
			o = vfCSI(vfPick(t, "A", "B"), vfTrim(t, []string{vfCount(t, H)})...)
		case 7:
			o = vfCSI(vfPick(t, "C", "D"), vfTrim(t, []string{vfCount(t, W)})...)
		}
	case "goto": // always inside the screen
		o = vfCSI("H", strconv.Itoa(vfInt(t, 1, H)), strconv.Itoa(vfInt(t, 1, W)))
	case "edge": // near the right edge or the bottom
		o = vfCSI("H", strconv.Itoa(max(1, vfPick(t, H, H, H-1, vfInt(t, 1, H)))), strconv.Itoa(max(1, W-vfInt(t, 0, 3))))
	case "save":
		o = vfCSI(vfPick(t, "s", "u"))
	case "erase":
		switch vfInt(t, 0, 5) {
		case 0, 1:
			o = vfCSI("J", vfTrim(t, []string{vfPick(t, "", "0", "1", "2")})...)
		case 2, 3:
			o = vfCSI("K", vfTrim(t, []string{vfPick(t, "", "0", "1", "2")})...)
		case 4:
			o = vfCSI("X", vfTrim(t, []string{vfCount(t, W)})...)
		case 5:
			o = vfCSI("P", vfTrim(t, []string{vfCount(t, W)})...)
		}
	case "scroll":
		o = vfCSI(vfPick(t, "S", "T", "L", "M"), vfTrim(t, []string{vfCount(t, H)})...)
	case "region":
		switch vfInt(t, 0, 9) {
		case 0, 1:
			o = vfCSI("r", vfTrim(t, []string{vfPick(t, "", "0", "1"), vfPick(t, "", "0", strconv.Itoa(H), "9999")})...)
		case 2: // inverted
			b := vfInt(t, 1, max(1, H-1))
			o = vfCSI("r", strconv.Itoa(vfInt(t, b+1, max(b+1, H))), strconv.Itoa(b))
		default:
			top := vfInt(t, 1, H)
			o = vfCSI("r", strconv.Itoa(top), strconv.Itoa(vfInt(t, top, H+vfInt(t, 0, 1))))
		}
	case "sgr":
		o = vfSGR(t)
	case "wrap":
		o = vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: vfPick(t, "h", "l", "h")}
	case "alt":
		o = vfOp{K: "csi", Pre: "?", P: []string{"1049"}, F: vfPick(t, "h", "l")}
	case "mode":
		n := vfInt(t, 1, 3)
		for i := 0; i < n; i++ {
			o.P = append(o.P, vfModeNum(t))
		}
		o.K, o.Pre, o.F = "csi", "?", vfPick(t, "h", "l")
	case "mouse":
		o = vfOp{K: "csi", Pre: "?", P: []string{vfPick(t, "9", "1000", "1002", "1003", "1005", "1006", "1015")}, F: vfPick(t, "h", "h", "l")}
	case "mok":
		o = vfPick(t, vfOp{K: "csi", Pre: ">", P: []string{"4", vfPick(t, "0", "1", "2")}, F: "m"}, vfOp{K: "csi", Pre: ">", P: []string{"4"}, F: "m"})
	case "appcur":
		o = vfOp{K: "csi", Pre: "?", P: []string{"1"}, F: vfPick(t, "h", "l")}
	case "keypad":
		o = vfOp{K: "esc", S: vfB(vfPick(t, "=", ">"))}
	case "kbd":
		flags := strconv.Itoa(vfInt(t, 0, 31))
		switch vfInt(t, 0, 3) {
		case 0:
			o = vfOp{K: "csi", Pre: "=", P: vfPick(t, []string{flags}, []string{flags, "1"}, []string{flags, "2"}, []string{flags, "3"}, []string{flags, ""}), F: "u"}
		case 1, 2:
			o = vfOp{K: "csi", Pre: ">", P: []string{flags}, F: "u"}
		case 3:
			o = vfOp{K: "csi", Pre: "<", P: vfPick(t, nil, []string{"1"}, []string{"2"}, []string{"3"}, []string{"40"}), F: "u"}
		}
	case "query":
		o = vfPick(t, vfOp{K: "csi", F: "c"}, vfOp{K: "csi", P: []string{"0"}, F: "c"}, vfOp{K: "csi", Pre: ">", F: "c"}, vfOp{K: "csi", Pre: ">", P: []string{"0"}, F: "c"},
			vfOp{K: "csi", P: []string{"5"}, F: "n"}, vfOp{K: "csi", P: []string{"6"}, F: "n"}, vfOp{K: "csi", Pre: "?", F: "u"})
	case "osc":
		o = vfOSC(t)
	case "oscodd":
		o = vfOSCOdd(t)
	case "dcs":
		o = vfDCS(t)
	case "unkcsi":
		o = vfUnknownCSI(t)
	case "unkesc":
		o = vfEscUnknown(t)
	case "raw":
		o = vfOp{K: "raw", S: vfB(vfRaw(t))}
	case "resize":
		o = vfOp{K: "resize"}
		o.W, o.H = vfSize(t)
		if vfOneIn(t, 4) {
			o.Late = vfInt(t, 1, 6)
		}
	default:
		panic("unknown kind " + kind)
	}
	if o.K == "csi" && o.Pre == "" && o.I == "" && len(o.P) <= 1 && o.F != "" && strings.Contains("ABCDGdXPSTLM", o.F) && vfOneIn(t, 16) {
		// more parameters than the function has; the first one may be empty
		if len(o.P) == 0 {
			o.P = []string{""}
		}
		o.P = append(o.P[:len(o.P):len(o.P)], vfPick(t, "", "", "2", "7"))
		if vfOneIn(t, 3) {
			for k := vfInt(t, 1, 9); k > 0; k-- {
				o.P = append(o.P, vfPick(t, "", "0", "1", "3"))
			}
		}
	}
	if p.lead0 && o.K == "csi" && vfOneIn(t, 8) {
		for i := range o.P {
			if o.P[i] != "" && o.P[i][0] >= '0' && o.P[i][0] <= '9' && !strings.ContainsAny(o.P[i], ":<=>?") {
				o.P[i] = "00" + o.P[i]
			}
		}
	}
	if p.cuts && o.K != "resize" && vfOneIn(t, 3) {
		n := len(o.bytes())
		for i, k := 0, vfInt(t, 1, 3); i < k && n > 1; i++ {
			o.Cut = append(o.Cut, vfInt(t, 1, n-1))
		}
		vfSortInts(o.Cut)
	}
	return o
}

func vfSortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// vfRaw draws arbitrary bytes, biased towards the bytes of control sequences.
func vfRaw(t *rapid.T) string {
	n := vfInt(t, 1, 24)
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		switch vfInt(t, 0, 5) {
		case 0:
			b = append(b, byte(vfInt(t, 0, 255)))
		case 1:
			b = append(b, vfPick(t, "\x1b", "\x1b[", "\x1b]", "\x1bP", "\x1b[?", "\x1b\\", "\a", "\x9c")...)
		case 2:
			b = append(b, byte('0'+vfInt(t, 0, 11)))
		case 3:
			b = append(b, byte(0x40+vfInt(t, 0, 0x3e)))
		case 4:
			b = append(b, vfPick(t, "世", "\u0301", "😀", "\u200d", "🇦", "\ufe0f", "\xe4", "\xf0\x9f", "\n", "\b", "\t")...)
		case 5:
			b = append(b, byte(32+vfInt(t, 0, 94)))
		}
	}
	return string(b)
}

// vfGenOps draws a history. Explicit sizes follow resizes.
func vfGenOps(t *rapid.T, p *vfProfile, cfg vfCfg, minN, maxN int) []vfOp {
	n := vfInt(t, minN, maxN)
	if maxN >= 8 && vfOneIn(t, 80) {
		n = vfInt(t, maxN, 6*maxN)
	}
	ops := make([]vfOp, 0, n)
	bot := cfg.H // where the scroll region ends, roughly
	for i := 0; i < n; i++ {
		kind := vfWeighted(t, p.ops)
		if kind == "corner" { // autowrap at the end of the scroll region
			ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: "h"},
				vfCSI("H", strconv.Itoa(bot), strconv.Itoa(max(1, cfg.W-vfInt(t, 0, 1)))),
				vfGenOp(t, "char", p, cfg), vfGenOp(t, "char", p, cfg), vfGenOp(t, "char", p, cfg))
			continue
		}
		o := vfGenOp(t, kind, p, cfg)
		if o.K == "csi" && o.F == "r" && o.Pre == "" {
			if b := o.par(1, 0); b > o.par(0, 1) {
				bot = min(b, cfg.H)
			}
		}
		if o.K == "resize" {
			cfg.W, cfg.H = o.W, o.H
			bot = min(bot, cfg.H)
		}
		ops = append(ops, o)
	}
	return ops
}

// vfSetup draws a start: content on some rows, autowrap, margins.
func vfSetup(t *rapid.T, p *vfProfile, cfg vfCfg) []vfOp {
	var ops []vfOp
	if vfOneIn(t, 4) && cfg.W*cfg.H <= 200 { // a full screen
		for y := 1; y <= cfg.H; y++ {
			ops = append(ops, vfCSI("H", strconv.Itoa(y)))
			for x := 0; x < cfg.W; x += 5 {
				if vfOneIn(t, 3) {
					ops = append(ops, vfSGR(t))
				}
				ops = append(ops, vfOp{K: "text", S: vfB(vfText(t, cfg.mode(), p, 5))})
			}
		}
	} else if vfOneIn(t, 2) {
		rows := vfInt(t, 1, min(cfg.H, 5))
		for i := 0; i < rows; i++ {
			if vfOneIn(t, 3) {
				ops = append(ops, vfSGR(t))
			}
			ops = append(ops, vfCSI("H", strconv.Itoa(vfInt(t, 1, cfg.H)), strconv.Itoa(vfPick(t, 1, 1, vfInt(t, 1, cfg.W)))))
			ops = append(ops, vfOp{K: "text", S: vfB(vfText(t, cfg.mode(), p, min(cfg.W, 30)))})
		}
	}
	if vfOneIn(t, 2) {
		ops = append(ops, vfOp{K: "csi", Pre: "?", P: []string{"7"}, F: "h"})
	}
	if vfOneIn(t, 3) {
		ops = append(ops, vfGenOp(t, "region", p, cfg))
	}
	return ops
}

func vfGenProg(t *rapid.T, p *vfProfile, maxN int) vfProg {
	cfg := vfGenCfg(t)
	ops := vfSetup(t, p, cfg)
	return vfProg{Cfg: cfg, Ops: append(ops, vfGenOps(t, p, cfg, 1, maxN)...)}
}
