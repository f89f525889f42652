package termemu

// Checks of C16: the read loop against scripted backends, Write against failing
// and short-writing ones, TeeBackend, Resize forwarding and the PTY backend.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/creack/pty"
	"pgregory.net/rapid"
)

var errVfRead = errors.New("the backend cannot read")

// vfRead is what one Read of a scripted backend does.
type vfRead struct {
	N int // bytes returned, if there are as many
	E int `json:",omitempty"` // 1: with EOF, 2: with another error

	Tee int `json:",omitempty"` // first, SetTee is called: 1 nothing, 2 and 3 writers
}

func (r vfRead) err() error { return [3]error{nil, io.EOF, errVfRead}[r.E] }

// vfScriptBackend hands out data as its script says, then all that is left, then
// EOF. A read after the end returns more data, which must not have any effect.
type vfScriptBackend struct {
	mu     sync.Mutex
	data   []byte
	script []vfRead
	gate   chan struct{} // the first read waits for it, if set

	onTee     func(n int)
	delivered []byte
	reads     int
	empty     int
	ended     error
	endBare   bool // the error came without data
	endData   bool // the error came with data
	asked     int  // largest buffer offered

	out   []byte
	sizes []Pos
	fails []int // numbers of the SetSize calls that fail
}

const vfPoison = "\x1b[H\x1b[?7hPOISON\x1b]2;POISON\a"

func (b *vfScriptBackend) Read(p []byte) (int, error) {
	if b.gate != nil {
		<-b.gate
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	b.reads++
	b.asked = max(b.asked, len(p))
	if b.ended != nil {
		if !b.endBare {
			b.endBare = true
			return 0, b.ended
		}
		return copy(p, vfPoison), nil
	}
	s := vfRead{N: len(b.data)}
	if len(b.script) > 0 {
		s = b.script[0]
		b.script = b.script[1:]
	} else if len(b.data) == 0 {
		s.E = 1
	}
	if s.Tee > 0 && b.onTee != nil {
		b.onTee(s.Tee)
	}
	n := copy(p, b.data[:min(s.N, len(b.data))])
	b.delivered = append(b.delivered, b.data[:n]...)
	b.data = b.data[n:]
	if n == 0 {
		b.empty++
	}
	if s.E > 0 {
		b.ended = s.err()
		b.endBare = n == 0
		b.endData = n > 0
	}
	return n, b.ended
}

func (b *vfScriptBackend) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.out = append(b.out, p...)
	return len(p), nil
}

var errVfSize = errors.New("the backend cannot resize")

func (b *vfScriptBackend) SetSize(w, h int) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.sizes = append(b.sizes, Pos{X: w, Y: h})
	for _, i := range b.fails {
		if i == len(b.sizes)-1 {
			return errVfSize
		}
	}
	return nil
}

// vfIO is a stream read by the loop through a scripted backend.
type vfIO struct {
	Cfg    vfCfg
	Ops    []vfOp
	Script []vfRead
	Via    string `json:",omitempty"` // "", tee or nopty: what is around the backend
	New    bool   `json:",omitempty"` // made with NewWithMode
}

// vfReference interprets the delivered bytes, one operation at a time, each with a
// reader of its own and, where it is long, in small reads.
func vfReference(cfg vfCfg, ops []vfOp, delivered int) (*vfSnap, string, error) {
	w := vfNewWorld(cfg, false)
	w.src.max = 64
	for _, o := range ops {
		parts := []string{string(o.bytes())}
		if o.K == "text" {
			parts, _ = vfChars(parts[0], w.mode)
			if strings.Join(parts, "") != string(o.S) { // damaged UTF-8
				parts = []string{string(o.S)}
			}
		}
		for _, p := range parts {
			if len(p) > delivered {
				p = p[:delivered]
			}
			if p == "" {
				break
			}
			delivered -= len(p)
			w.gr = NewGraphemeReaderWithMode(w.src, w.mode)
			if err := w.feed([]byte(p), nil); err != nil {
				return nil, "", err
			}
		}
	}
	s, err := w.snap()
	return s, w.take(), err
}

func vfStream(ops []vfOp) []byte {
	var b []byte
	for _, o := range ops {
		b = append(b, o.bytes()...)
	}
	return b
}

func vfRunIO(cc any, rep *vfRep) string {
	c := cc.(vfIO)
	be := &vfScriptBackend{data: vfStream(c.Ops), script: c.Script}
	total := len(be.data)
	var rec [2]vfSyncWriter // what the tees got
	var all vfSyncWriter    // what any tee got, in order
	var backend Backend = be
	teed, holes := false, false
	switch c.Via {
	case "tee":
		t := NewTeeBackend(be)
		if c.Cfg.H%2 == 0 {
			t = NewTeeBackend(t)
		}
		both := [2]io.Writer{io.MultiWriter(&rec[0], &all), io.MultiWriter(&rec[1], &all)}
		t.SetTee(both[0])
		teed = true
		be.onTee = func(n int) {
			if n == 1 {
				holes = true
				t.SetTee(nil)
			} else {
				t.SetTee(both[n-2])
			}
		}
		backend = t
	case "nopty":
		backend = NewNoPTYBackend(be, be)
	}
	w := &vfWorld{cfg: c.Cfg, mode: c.Cfg.mode()}
	w.f = &vfFront{w: w, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
	if c.New && !c.Cfg.Grid {
		gate := make(chan struct{})
		be.gate = gate
		var t Terminal
		switch {
		case w.mode != TextReadModeRune || c.Cfg.W%3 == 0:
			t = NewWithMode(w.f, backend, w.mode)
		case c.Cfg.W%3 == 1:
			t = New(w.f, backend)
		default:
			t = NewWithBackend(w.f, backend)
		}
		w.t = t.(*terminal)
		if err := t.Resize(c.Cfg.W, c.Cfg.H); err != nil {
			return fmt.Sprintf("Resize: %v", err)
		}
		close(gate)
	} else {
		w.t = vfNewTerminal(w.f, backend, c.Cfg)
		if err := w.t.Resize(c.Cfg.W, c.Cfg.H); err != nil {
			return fmt.Sprintf("Resize: %v", err)
		}
		w.t.startReadLoop()
	}
	if msg := vfAwait(w.t.readLoopDone, "the read loop"); msg != "" {
		return msg
	}
	n := len(be.delivered)
	if be.ended == nil {
		return fmt.Sprintf("the loop ended after %d of %d bytes, though no read failed", n, total)
	}
	want, reply, err := vfReference(c.Cfg, c.Ops, n)
	if err != nil {
		return "" // another property's business
	}
	got, err := w.snap()
	if err != nil {
		return fmt.Sprintf("after %d delivered bytes: %v", n, err)
	}
	if d := vfDiffSnap(want, got); d != "" {
		return fmt.Sprintf("after %d delivered bytes (of %d, last read: %v, with data: %v): what the loop shows differs from interpreting them in order: %s", n, total, be.ended, be.endData, d)
	}
	if string(be.out) != reply {
		return fmt.Sprintf("after %d delivered bytes: the loop replied %q instead of %q", n, be.out, reply)
	}
	if teed && !holes && !bytes.Equal(all.b, be.delivered) {
		return fmt.Sprintf("%d bytes were read, but the tees have %d: %s", n, len(all.b), vfDiffBytes(be.delivered, all.b))
	}
	switch {
	case be.endData:
		rep.hit("data with an error")
	case be.ended == errVfRead:
		rep.hit("an error without data")
	}
	if be.empty > 1 {
		rep.hit("empty reads")
	}
	if n > 4096 {
		rep.hit("more than 4096 bytes")
	}
	if n > 8192 {
		rep.label("more than 8192 bytes")
	}
	if be.reads > 2 {
		rep.hit("several reads")
	}
	if n < total {
		rep.label("cut short")
	}
	if c.Via != "" {
		rep.label("through " + c.Via)
	}
	return ""
}

func vfDiffBytes(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	at := func(x []byte) []byte { return x[min(i, len(x)):min(i+12, len(x))] }
	return fmt.Sprintf("at byte %d %q and %q", i, at(a), at(b))
}

func vfShrinkIO(cc any) []any {
	c := cc.(vfIO)
	var out []any
	with := func(f func(d *vfIO)) {
		d := c
		f(&d)
		out = append(out, d)
	}
	for n := len(c.Script) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(c.Script); i += n {
			with(func(d *vfIO) { d.Script = append(c.Script[:i:i], c.Script[i+n:]...) })
		}
	}
	for _, ops := range vfShrinkOps(c.Ops) {
		if len(ops) > 0 {
			with(func(d *vfIO) { d.Ops = ops })
		}
	}
	if c.Via != "" {
		with(func(d *vfIO) { d.Via = "" })
	}
	if c.New {
		with(func(d *vfIO) { d.New = false })
	}
	for _, g := range vfShrinkCfg(c.Cfg) {
		with(func(d *vfIO) { d.Cfg = g })
	}
	return out
}

// vfGenScript draws reads for a stream of n bytes, with at most one end.
func vfGenScript(t *rapid.T, n int, tee bool) []vfRead {
	var out []vfRead
	left := n
	style := vfInt(t, 0, 5)
	size := func() int {
		switch style {
		case 0:
			return 1
		case 1:
			return vfInt(t, 1, 8)
		case 2:
			return vfInt(t, 1, max(1, n/3))
		case 3:
			return vfPick(t, 4096, 4095, 4097, 8192, 1, 4094, 2)
		case 4:
			return n
		}
		return vfPick(t, 1, vfInt(t, 1, 5), vfInt(t, 1, 600), 4096, n)
	}
	zeros := vfOneIn(t, 3)
	for i := 0; left > 0 && i < 300; i++ {
		r := vfRead{N: size()}
		if left < 200 && style == 0 || style != 0 {
			if zeros && vfOneIn(t, 4) {
				r.N = 0
			}
		}
		if tee && vfOneIn(t, 4) {
			r.Tee = vfInt(t, 1, 3)
		}
		left -= r.N
		out = append(out, r)
	}
	if zeros && vfOneIn(t, 3) {
		at := vfInt(t, 0, len(out))
		var z []vfRead
		for i, k := 0, vfInt(t, 2, 60); i < k; i++ {
			z = append(z, vfRead{})
		}
		out = append(out[:at:at], append(z, out[at:]...)...)
	}
	switch vfInt(t, 0, 5) {
	case 0: // fail somewhere
		if len(out) > 0 {
			k := vfInt(t, 0, len(out)-1)
			out[k].E = vfInt(t, 1, 2)
			out = out[:k+1]
		}
	case 1: // fail with the last bytes
		if len(out) > 0 {
			out[len(out)-1].E = vfInt(t, 1, 2)
		}
	case 2:
		out = append(out, vfRead{E: 2})
	}
	return out
}

// vfGenLong draws a stream in which something straddles a buffer boundary.
func vfGenLong(t *rapid.T, p *vfProfile, cfg vfCfg) []vfOp {
	var ops []vfOp
	size := vfPick(t, 4096, 4096, 8192, 12288)
	target := size - vfInt(t, 0, 12)
	add := func(o vfOp) { ops = append(ops, o); target -= len(o.bytes()) }
	for i, n := 0, vfInt(t, 0, 4); i < n; i++ {
		o := vfGenOp(t, vfWeighted(t, p.ops), p, cfg)
		o.Cut = nil
		add(o)
	}
	if target > 20 {
		switch vfInt(t, 0, 3) {
		case 0:
			add(vfOp{K: "text", S: vfB(strings.Repeat("abcdefghij", target/10) + "0123456789"[:target%10])})
		case 1:
			add(vfOp{K: "text", S: vfB(strings.Repeat("世界", target/6) + "012345"[:target%6])})
		case 2: // a long string sequence
			n := target - vfInt(t, 6, 14)
			add(vfOp{K: "osc", F: "2", S: vfB(strings.Repeat("0123456789", n/10+1)[:n]), T: "\a"})
		case 3:
			unit := "a世\x1b[31mb\r\n"
			for target > len(unit) {
				add(vfOp{K: "text", S: "a世"})
				add(vfCSI("m", "31"))
				add(vfOp{K: "text", S: "b"})
				add(vfOp{K: "ctl", S: "\r"})
				add(vfOp{K: "ctl", S: "\n"})
			}
			if target > 0 {
				add(vfOp{K: "text", S: vfB("0123456789abcdef"[:target])})
			}
		}
	}
	if vfOneIn(t, 4) { // across the boundary and beyond
		n := vfPick(t, 5000, 9000, 4096, 4097)
		ops = append(ops, vfOp{K: "osc", F: vfPick(t, "2", "6"), S: vfB(strings.Repeat("0123456789", n/10+1)[:n]), T: vfST(t, false)})
	}
	for i, n := 0, vfInt(t, 2, 10); i < n; i++ {
		o := vfGenOp(t, vfWeighted(t, p.ops), p, cfg)
		o.Cut = nil
		ops = append(ops, o)
	}
	return ops
}

var vfIOStreams = [][]vfOp{
	{{K: "text", S: "ab世c"}, {K: "ctl", S: "\n"}, vfCSI("m", "1", "31"), {K: "text", S: "é"}, vfCSI("H", "2", "3"), {K: "text", S: "😀z"}},
	{{K: "osc", F: "2", S: "tïtle", T: "\x1b\\"}, {K: "text", S: "x"}, {K: "osc", F: "6", S: "d", T: "\x9c"}, {K: "text", S: "y"}, {K: "dcs", S: "q\x1b[", T: "\x1b\\"}, {K: "text", S: "z"}},
	{{K: "csi", Pre: "?", P: []string{"1049"}, F: "h"}, {K: "text", S: "alt"}, vfCSI("c"), vfCSI("n", "6"), {K: "csi", Pre: "?", P: []string{"1000", "1006"}, F: "h"}, {K: "csi", Pre: ">", P: []string{"5"}, F: "u"}, {K: "csi", Pre: "?", P: []string{}, F: "u"}, {K: "csi", Pre: "?", P: []string{"1049"}, F: "l"}, {K: "text", S: "main"}},
	{{K: "text", S: "abcdefgh"}, {K: "ctl", S: "\r"}, {K: "ctl", S: "\n"}, {K: "esc", S: "M"}, {K: "esc", S: "(B"}, {K: "text", S: "x"}, vfCSI("K", "1"), {K: "ctl", S: "\b"}, {K: "esc", S: "D"}, {K: "esc", S: "="}, {K: "text", S: "ij"}, {K: "ctl", S: "\t"}, {K: "text", S: "k"}},
}

// vfEnumIO ends every stream after every byte, in every way, for several reads.
func vfEnumIO(shard, shards int, thorough bool, yield func(any) bool) {
	n := 0
	for si, ops := range vfIOStreams {
		total := len(vfStream(ops))
		for mode := 0; mode < 2; mode++ {
			for _, grid := range []bool{false, true} {
				for k := 0; k <= total; k++ {
					for _, size := range []int{1, 2, 3, 5, 4096} {
						for end := 0; end < 5; end++ {
							n++
							if n%shards != shard {
								continue
							}
							c := vfIO{Cfg: vfCfg{W: 7, H: 3, Mode: mode, Grid: grid}, Ops: ops, Via: []string{"", "tee", "nopty", ""}[(n/shards)%4]}
							_ = si
							left := k
							for left > 0 {
								m := min(size, left)
								left -= m
								c.Script = append(c.Script, vfRead{N: m})
							}
							switch end {
							case 0, 1: // EOF or an error of its own
								c.Script = append(c.Script, vfRead{E: end + 1})
							case 2, 3: // with the last data
								if len(c.Script) == 0 {
									continue
								}
								c.Script[len(c.Script)-1].E = end - 1
							case 4: // after an empty read
								c.Script = append(c.Script, vfRead{}, vfRead{E: 1})
							}
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- writes

// vfWriteCase is one Terminal.Write through a short-writing or failing backend.
type vfWriteCase struct {
	Len    int
	Script []int // see vfFaultWriter
	Via    string
}

func vfRunWrite(cc any, rep *vfRep) string {
	c := cc.(vfWriteCase)
	fw := &vfFaultWriter{script: append([]int(nil), c.Script...)}
	data := make([]byte, c.Len)
	for i := range data {
		data[i] = byte(i*7 + i/256)
	}
	var be Backend = fw
	switch c.Via {
	case "tee":
		be = NewTeeBackend(fw)
	case "nopty":
		be = NewNoPTYBackend(fw, fw)
	}
	t := vfNewTerminal(&EmptyFrontend{}, be, vfCfg{W: 4, H: 2})
	keep := append([]byte(nil), data...)
	n, err := t.Write(data)
	if !bytes.Equal(keep, data) {
		return "Write changed its argument"
	}
	desc := fmt.Sprintf("Write of %d bytes, of which the backend takes %v: ", c.Len, c.Script)
	if n != len(fw.got) {
		return desc + fmt.Sprintf("returned %d (%v), but %d were written", n, err, len(fw.got))
	}
	if !bytes.HasPrefix(data, fw.got) {
		return desc + fmt.Sprintf("wrote something else: %s", vfDiffBytes(data, fw.got))
	}
	if err == nil && n != c.Len {
		return desc + fmt.Sprintf("%d written but no error returned", n)
	}
	if fw.failed && !errors.Is(err, errVfWrite) {
		return desc + fmt.Sprintf("the backend's error became %v", err)
	}
	if !fw.failed && err != nil {
		zero := false
		for _, s := range c.Script[:min(len(c.Script), fw.calls)] {
			zero = zero || s == 0
		}
		if !zero {
			return desc + fmt.Sprintf("failed with %v, but the backend took all it was given", err)
		}
	}
	if fw.failed {
		rep.hit("error")
	} else if fw.calls > 1 || err != nil {
		rep.hit("short writes")
	}
	return ""
}

func vfEnumWrites(shard, shards int, thorough bool, yield func(any) bool) {
	k := 0
	deep := 3
	if thorough {
		deep = 5
	}
	for n := 0; n <= 5; n++ {
		var rec func(s []int) bool
		rec = func(s []int) bool {
			k++
			if k%shards == shard {
				if !yield(vfWriteCase{Len: n, Script: append([]int(nil), s...), Via: []string{"", "tee", "nopty"}[(k/shards)%3]}) {
					return false
				}
			}
			if len(s) == deep {
				return true
			}
			for v := -4; v <= 5; v++ {
				if !rec(append(s, v)) {
					return false
				}
			}
			return true
		}
		if !rec(nil) {
			return
		}
	}
}

// ---------------------------------------------------------------- tee

// vfTeeCase reads from a TeeBackend directly.
type vfTeeCase struct {
	Data   vfB
	Script []vfRead
	Bufs   []int // sizes of the buffers read into, in turn
	Write  vfB
	W, H   int
}

func vfRunTee(cc any, rep *vfRep) string {
	c := cc.(vfTeeCase)
	be := &vfScriptBackend{data: []byte(c.Data)}
	var tees [2]bytes.Buffer
	var want [2][]byte
	t := NewTeeBackend(be)
	cur := -1
	for i, s := range c.Script {
		switch s.Tee {
		case 1:
			t.SetTee(nil)
			cur = -1
		case 2, 3:
			cur = s.Tee - 2
			t.SetTee(&tees[cur])
		}
		s.Tee = 0
		be.script = []vfRead{s}
		p := make([]byte, c.Bufs[i%len(c.Bufs)])
		before := len(be.delivered)
		ended := be.ended
		if ended != nil {
			break
		}
		n, err := t.Read(p)
		got := be.delivered[before:]
		if n != len(got) || !bytes.Equal(p[:n], got) {
			return fmt.Sprintf("read %d: %d bytes returned for %q", i, n, got)
		}
		if err != be.ended {
			return fmt.Sprintf("read %d: error %v instead of %v", i, err, be.ended)
		}
		if cur >= 0 {
			want[cur] = append(want[cur], got...)
			if n > 0 {
				rep.hit("copied")
			}
			if n > 0 && err != nil {
				rep.label("copied data with an error")
			}
		}
		for k := range tees {
			if !bytes.Equal(tees[k].Bytes(), want[k]) {
				return fmt.Sprintf("after read %d, tee %d has %q instead of %q", i, k, tees[k].Bytes(), want[k])
			}
		}
	}
	if n, err := t.Write([]byte(c.Write)); n != len(c.Write) || err != nil || string(be.out) != string(c.Write) {
		return fmt.Sprintf("Write(%q): %d, %v; the backend got %q", c.Write, n, err, be.out)
	}
	be.fails = []int{1}
	if err := t.SetSize(c.W, c.H); err != nil {
		return fmt.Sprintf("SetSize: %v", err)
	}
	if err := t.SetSize(c.H, c.W); err != errVfSize {
		return fmt.Sprintf("SetSize did not return the error, but %v", err)
	}
	if len(be.sizes) != 2 || be.sizes[0] != (Pos{X: c.W, Y: c.H}) || be.sizes[1] != (Pos{X: c.H, Y: c.W}) {
		return fmt.Sprintf("SetSize(%d,%d) and (%d,%d): the backend got %v", c.W, c.H, c.H, c.W, be.sizes)
	}
	for k := range tees {
		if !bytes.Equal(tees[k].Bytes(), want[k]) {
			return fmt.Sprintf("tee %d also has what was not read: %q instead of %q", k, tees[k].Bytes(), want[k])
		}
	}
	return ""
}

// ---------------------------------------------------------------- resize

// vfSizeCase is a sequence of resizes, some of which the backend refuses.
type vfSizeCase struct {
	Sizes []Pos
	Fails []int
	Via   string
	Pre   vfB // shown before
}

func vfRunSizes(cc any, rep *vfRep) string {
	c := cc.(vfSizeCase)
	be := &vfScriptBackend{fails: c.Fails}
	var backend Backend = be
	if c.Via == "tee" {
		backend = NewTeeBackend(be)
	}
	t := newTerminal(nil, backend, TextReadModeRune)
	w := &vfWorld{t: t, src: &vfSrc{}}
	w.gr = NewGraphemeReader(w.src)
	if w.feed([]byte(c.Pre), nil) != nil {
		return ""
	}
	var told *Pos
	for i, s := range c.Sizes {
		n := len(be.sizes)
		err := t.Resize(s.X, s.Y)
		if x, y := t.Size(); err == nil && (x != s.X || y != s.Y) {
			return fmt.Sprintf("resize %d: the size is %dx%d after Resize(%d,%d)", i, x, y, s.X, s.Y)
		}
		for _, g := range be.sizes[n:] {
			if g != s {
				return fmt.Sprintf("resize %d: Resize(%d,%d) told the backend %d,%d", i, s.X, s.Y, g.X, g.Y)
			}
		}
		if len(be.sizes) == n && (told == nil || *told != s) {
			return fmt.Sprintf("resize %d: the backend does not hear of Resize(%d,%d)", i, s.X, s.Y)
		}
		failed := false
		for _, k := range c.Fails {
			failed = failed || k >= n && k < len(be.sizes)
		}
		if failed && !errors.Is(err, errVfSize) {
			return fmt.Sprintf("resize %d: the backend failed, but Resize returned %v", i, err)
		}
		if !failed && err != nil {
			return fmt.Sprintf("resize %d: Resize(%d,%d) returned %v", i, s.X, s.Y, err)
		}
		told = &Pos{X: s.X, Y: s.Y}
		rep.hit("resize")
		if failed {
			told = nil
			rep.label("refused by the backend")
		}
	}
	return ""
}

// ---------------------------------------------------------------- pty

// vfPTYCase uses a real pseudo-terminal pair.
type vfPTYCase struct {
	Sizes  []Pos // for SetSize
	Resize []Pos // for Terminal.Resize
	Cfg    vfCfg
	Ops    []vfOp
	Pieces []int // the stream is written in pieces of these sizes
	Write  vfB
}

func vfRawTTY(fd uintptr) error {
	var tio syscall.Termios
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCGETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		return e
	}
	tio.Iflag = 0
	tio.Oflag = 0
	tio.Lflag = 0
	tio.Cc[syscall.VMIN] = 1
	tio.Cc[syscall.VTIME] = 0
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TCSETS, uintptr(unsafe.Pointer(&tio))); e != 0 {
		return e
	}
	return nil
}

func vfRunPTY(cc any, rep *vfRep) string {
	c := cc.(vfPTYCase)
	p := &PTYBackend{}
	slave, err := p.Open()
	if err != nil {
		rep.label("no pseudo-terminal available")
		return ""
	}
	if again, err := p.Open(); again != slave || err != nil {
		return fmt.Sprintf("Open of an open PTYBackend: another terminal or %v", err)
	}
	closed := false
	defer func() {
		if !closed {
			slave.Close()
		}
	}()
	if err := vfRawTTY(slave.Fd()); err != nil {
		rep.label("no raw mode available")
		return ""
	}
	check := func(what string, s Pos) string {
		rows, cols, err := pty.Getsize(slave)
		if err != nil {
			return ""
		}
		if rows != s.Y || cols != s.X {
			return fmt.Sprintf("after %s the pseudo-terminal has %d rows and %d columns", what, rows, cols)
		}
		rep.hit("size read back")
		return ""
	}
	for _, s := range c.Sizes {
		if err := p.SetSize(s.X, s.Y); err != nil {
			return fmt.Sprintf("SetSize(%d,%d): %v", s.X, s.Y, err)
		}
		if msg := check(fmt.Sprintf("SetSize(%d,%d)", s.X, s.Y), s); msg != "" {
			return msg
		}
	}
	w := &vfWorld{cfg: c.Cfg, mode: c.Cfg.mode()}
	w.f = &vfFront{w: w, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
	w.t = vfNewTerminal(w.f, p, c.Cfg)
	for _, s := range append(append([]Pos(nil), c.Resize...), Pos{X: c.Cfg.W, Y: c.Cfg.H}) {
		if err := w.t.Resize(s.X, s.Y); err != nil {
			return fmt.Sprintf("Resize(%d,%d): %v", s.X, s.Y, err)
		}
		if msg := check(fmt.Sprintf("Resize(%d,%d)", s.X, s.Y), s); msg != "" {
			return msg
		}
	}
	// to the application
	if len(c.Write) > 0 {
		if n, err := w.t.Write([]byte(c.Write)); n != len(c.Write) || err != nil {
			return fmt.Sprintf("Write of %d bytes: %d, %v", len(c.Write), n, err)
		}
		got := make([]byte, len(c.Write))
		done := make(chan struct{})
		go func() { _, err = io.ReadFull(slave, got); close(done) }()
		if msg := vfAwait(done, "reading what was written"); msg != "" {
			return msg
		}
		if err != nil || string(got) != string(c.Write) {
			return fmt.Sprintf("Write(%q): the application reads %q, %v", c.Write, got, err)
		}
	}
	// from the application
	b := vfStream(c.Ops)
	want, reply, err := vfReference(c.Cfg, c.Ops, len(b))
	if err != nil || reply != "" {
		return ""
	}
	w.t.startReadLoop()
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if len(c.Pieces) > 0 {
			n = min(n, c.Pieces[i%len(c.Pieces)])
		}
		if k, err := slave.Write(b[:n]); k != n || err != nil {
			return ""
		}
		b = b[n:]
	}
	slave.Close()
	closed = true
	if msg := vfAwait(w.t.readLoopDone, "the read loop"); msg != "" {
		return msg
	}
	got, err := w.snap()
	if err != nil {
		return fmt.Sprintf("after the stream: %v", err)
	}
	if d := vfDiffSnap(want, got); d != "" {
		return fmt.Sprintf("what the application wrote is not what is shown: %s", d)
	}
	rep.hit("streams through a pseudo-terminal")
	return ""
}

// vfNoEnd is a backend that lacks one end or both: there is nothing to read, or
// nothing takes what is written.
type vfNoEnd struct {
	Kind string `json:"kind"` // pty, nopty: neither end; read: only a reader; write: only a writer
	Tee  bool   `json:"tee,omitempty"`
	Data vfB    `json:"data"`
	Grid bool   `json:"grid,omitempty"`
}

func vfRunNoEnd(cc any, rep *vfRep) string {
	c := cc.(vfNoEnd)
	var out bytes.Buffer
	var be Backend
	read, write := false, false
	switch c.Kind {
	case "pty":
		be = &PTYBackend{}
	case "nopty":
		be = NewNoPTYBackend(nil, nil)
	case "read":
		be, read = NewNoPTYBackend(strings.NewReader(string(c.Data)), nil), true
	case "write":
		be, write = NewNoPTYBackend(nil, &out), true
	}
	if c.Tee {
		be = NewTeeBackend(be)
	}
	cfg := vfCfg{W: 12, H: 2, Grid: c.Grid}
	w := &vfWorld{cfg: cfg, mode: cfg.mode()}
	w.f = &vfFront{w: w, flags: map[ViewFlag]bool{}, ints: map[ViewInt]int{}, strs: map[ViewString]string{}}
	w.t = vfNewTerminal(w.f, be, cfg)
	if err := w.t.Resize(cfg.W, cfg.H); err != nil {
		return fmt.Sprintf("Resize: %v", err)
	}
	n, err := w.t.Write([]byte(c.Data))
	switch {
	case write && (n != len(c.Data) || err != nil || out.String() != string(c.Data)):
		return fmt.Sprintf("Write of %d bytes: %d, %v, delivered %q", len(c.Data), n, err, out.String())
	case !write && (n != 0 || err == nil && len(c.Data) > 0):
		return fmt.Sprintf("Write of %d bytes without anything that takes them: %d, %v", len(c.Data), n, err)
	}
	w.t.startReadLoop()
	if msg := vfAwait(w.t.readLoopDone, "the read loop"); msg != "" {
		return msg
	}
	var delivered []vfOp
	if read {
		delivered = []vfOp{{K: "text", S: c.Data}}
	}
	want, reply, err := vfReference(cfg, delivered, len(vfStream(delivered)))
	if err != nil || reply != "" {
		return ""
	}
	got, err := w.snap()
	if err != nil {
		return fmt.Sprintf("after the end: %v", err)
	}
	if d := vfDiffSnap(want, got); d != "" {
		return "expected vs actual: " + d
	}
	rep.hit("a missing end")
	return ""
}

// vfCmdCase runs a command that prints the size of its terminal.
type vfCmdCase struct{ W, H int }

func vfRunCmd(cc any, rep *vfRep) string {
	c := cc.(vfCmdCase)
	sh, err := exec.LookPath("sh")
	if err != nil {
		return ""
	}
	if _, err := exec.LookPath("stty"); err != nil {
		return ""
	}
	p := &PTYBackend{}
	cmd := exec.Command(sh, "-c", "read x && stty size && echo \"$TERM\"")
	if err := p.StartCommand(cmd); err != nil {
		rep.label("no command could be started")
		return ""
	}
	t := newTerminal(nil, p, TextReadModeRune)
	if err := t.Resize(c.W, c.H); err != nil {
		return fmt.Sprintf("Resize: %v", err)
	}
	t.startReadLoop()
	if n, err := t.Write([]byte("\r")); n != 1 || err != nil {
		return fmt.Sprintf("Write: %d, %v", n, err)
	}
	msg := vfAwait(t.readLoopDone, "the read loop of a command")
	if msg != "" {
		_ = cmd.Process.Kill()
	}
	_ = cmd.Wait()
	if msg != "" {
		return msg
	}
	var all []string
	for y := 0; y < c.H; y++ {
		all = append(all, strings.TrimRight(t.Line(y), " "))
	}
	text := strings.Join(all, "|")
	if want := strconv.Itoa(c.H) + " " + strconv.Itoa(c.W); !strings.Contains("|"+text+"|", "|"+want+"|") {
		return fmt.Sprintf("a command started in a terminal resized to %dx%d sees: %s", c.W, c.H, text)
	}
	rep.hit("commands")
	return ""
}

func init() {
	simple := []vfW{{"ascii", 6}, {"punct", 2}, {"wide1", 4}, {"latin", 1}}
	p := &vfProfile{ops: vfAllOps, texts: simple, maxText: 12}
	quiet := &vfProfile{ops: []vfW{{"text", 12}, {"char", 3}, {"lf", 5}, {"cr", 3}, {"cup", 5}, {"erase", 4}, {"sgr", 4}, {"wrap", 3}, {"osc", 3}, {"alt", 2}}, texts: simple, maxText: 12}
	genSize := func(t *rapid.T) Pos {
		w, h := vfSizeAny(t)
		return Pos{X: w, Y: h}
	}
	vfProps["C16"] = []vfSub{
		{name: "ends", enum: vfEnumIO, run: vfRunIO, dec: vfDec[vfIO], shrink: vfShrinkIO,
			rule: "enumerated: four streams (text, string sequences, modes and replies, controls) in both text modes and buffers, ended after every byte by EOF or an error, with or without the last data, or after an empty read, in reads of 1, 2, 3, 5 and all bytes, directly and through TeeBackend and NoPTYBackend; the final state and the replies equal those of the delivered bytes interpreted operation by operation, and nothing read later has an effect"},
		{name: "loop", weight: 100, run: vfRunIO, dec: vfDec[vfIO], shrink: vfShrinkIO,
			gen: func(t *rapid.T) any {
				c := vfIO{Cfg: vfGenCfg(t), Via: vfPick(t, "", "", "tee", "nopty"), New: vfOneIn(t, 3)}
				for i, n := 0, vfInt(t, 1, 15); i < n; i++ {
					o := vfGenOp(t, vfWeighted(t, p.ops), p, c.Cfg)
					o.Cut = nil
					c.Ops = append(c.Ops, o)
				}
				c.Script = vfGenScript(t, len(vfStream(c.Ops)), c.Via == "tee")
				return c
			},
			rule: "the real read loop over random streams and random read scripts: sizes from 1 byte to all, runs of empty reads, an error or EOF at a random index, with or without data; same oracle; with a TeeBackend whose writer changes between and during reads, the writers together have exactly the bytes read; non-trivial: several reads, an error, data with an error, empty reads, or more than 4096 bytes"},
		{name: "long", weight: 15, run: vfRunIO, dec: vfDec[vfIO], shrink: vfShrinkIO,
			gen: func(t *rapid.T) any {
				c := vfIO{Cfg: vfGenCfg(t), Via: vfPick(t, "", "", "tee", "nopty"), New: vfOneIn(t, 3)}
				c.Ops = vfGenLong(t, p, c.Cfg)
				c.Script = vfGenScript(t, len(vfStream(c.Ops)), c.Via == "tee")
				return c
			},
			rule: "the same with streams of 4 to 20 KB in which text, multi-byte characters, control and string sequences straddle the 4096- and 8192-byte boundaries; non-trivial as above"},
		{name: "write", enum: vfEnumWrites, run: vfRunWrite, dec: vfDec[vfWriteCase],
			rule: "enumerated: Terminal.Write of 0 to 5 bytes through a backend that takes between none and all of each write or fails after some, for every sequence of up to 3 (thorough: 5) such answers, directly and through TeeBackend and NoPTYBackend: the count is what the backend took, in order; no error only if that is everything; the backend's own error is returned; non-trivial: more than one write or an error"},
		{name: "bigwrite", weight: 20, run: vfRunWrite, dec: vfDec[vfWriteCase],
			gen: func(t *rapid.T) any {
				c := vfWriteCase{Len: vfPick(t, vfInt(t, 0, 50), vfInt(t, 0, 10000), 4096, 4097), Via: vfPick(t, "", "tee", "nopty")}
				for i, n := 0, vfInt(t, 0, 12); i < n; i++ {
					c.Script = append(c.Script, vfPick(t, vfInt(t, 1, 10), vfInt(t, 1, 5000), vfInt(t, 1, 10), 0, -vfInt(t, 1, 300)))
				}
				return c
			},
			rule: "the same with random lengths up to 10000 and up to 12 random answers"},
		{name: "tee", weight: 20, run: vfRunTee, dec: vfDec[vfTeeCase],
			gen: func(t *rapid.T) any {
				c := vfTeeCase{Data: vfB(strings.Repeat(vfRaw(t), vfPick(t, 1, 1, 3, 300))), Write: vfB(vfRaw(t)), W: vfInt(t, 1, 500), H: vfInt(t, 1, 500)}
				c.Script = vfGenScript(t, len(c.Data), true)
				for i, n := 0, vfInt(t, 1, 4); i < n; i++ {
					c.Bufs = append(c.Bufs, vfPick(t, 1, 2, 10, 100, 4096, 10000))
				}
				return c
			},
			rule: "a TeeBackend over random read scripts (empty reads, data with an error) with SetTee between reads: it returns exactly what the backend returned, each writer has exactly the bytes read while it was set, Write and SetSize are passed on; non-trivial: bytes were copied"},
		{name: "resize", weight: 20, run: vfRunSizes, dec: vfDec[vfSizeCase],
			gen: func(t *rapid.T) any {
				c := vfSizeCase{Via: vfPick(t, "", "tee"), Pre: vfB(vfPick(t, "", "\x1b[?1049h", "abc\r\n世", "\x1b[2;3r"))}
				for i, n := 0, vfInt(t, 1, 6); i < n; i++ {
					s := vfPick(t, genSize(t), genSize(t), Pos{X: 80, Y: 14}, Pos{X: 80, Y: 24}, Pos{X: 24, Y: 80})
					if i > 0 && vfOneIn(t, 4) {
						s = c.Sizes[i-1]
					}
					c.Sizes = append(c.Sizes, s)
					if vfOneIn(t, 5) {
						c.Fails = append(c.Fails, i)
					}
				}
				return c
			},
			rule: "sequences of Resize: the backend is told exactly (w,h), its error is returned; non-trivial: all"},
		{name: "pty", weight: 5, run: vfRunPTY, dec: vfDec[vfPTYCase],
			gen: func(t *rapid.T) any {
				c := vfPTYCase{Cfg: vfGenCfg(t)}
				for i, n := 0, vfInt(t, 0, 3); i < n; i++ {
					c.Sizes = append(c.Sizes, Pos{X: vfPick(t, vfInt(t, 1, 300), vfInt(t, 1, 65535), 65535), Y: vfPick(t, vfInt(t, 1, 300), vfInt(t, 1, 65535), 65535)})
				}
				for i, n := 0, vfInt(t, 0, 2); i < n; i++ {
					c.Resize = append(c.Resize, genSize(t))
				}
				for i, n := 0, vfInt(t, 1, 12); i < n; i++ {
					o := vfGenOp(t, vfWeighted(t, quiet.ops), quiet, c.Cfg)
					o.Cut = nil
					c.Ops = append(c.Ops, o)
				}
				for i, n := 0, vfInt(t, 0, 3); i < n; i++ {
					c.Pieces = append(c.Pieces, vfPick(t, vfInt(t, 1, 9), 1000))
				}
				if vfBool(t) {
					c.Write = vfB(strings.Repeat(vfRaw(t), vfPick(t, 1, 1, 20)))
				}
				return c
			},
			rule: "a PTYBackend on a real pseudo-terminal pair: SetSize and Resize are read back on the other side as h rows and w columns; what is written on either side arrives; non-trivial: a size was read back or a stream shown"},
		{name: "noend", run: vfRunNoEnd, dec: vfDec[vfNoEnd],
			enum: func(shard, shards int, thorough bool, yield func(any) bool) {
				if shard != 0 {
					return
				}
				for _, kind := range []string{"pty", "nopty", "read", "write"} {
					for _, d := range []vfB{"", "a", "hello, you", "two words and more"} {
						for k := 0; k < 4; k++ {
							if !yield(vfNoEnd{Kind: kind, Data: d, Tee: k&1 > 0, Grid: k&2 > 0}) {
								return
							}
						}
					}
				}
			},
			rule: "enumerated: backends without a reader, a writer or both (a PTYBackend that was not opened, NoPTYBackend with nil ends, with and without TeeBackend): the read loop stops and shows what there was to read, Write delivers everything or reports an error and that it wrote nothing; non-trivial: all"},
		{name: "command", run: vfRunCmd, dec: vfDec[vfCmdCase],
			enum: func(shard, shards int, thorough bool, yield func(any) bool) {
				for i := 0; i < 3; i++ {
					if !yield(vfCmdCase{W: 40 + 7*shard + i, H: 6 + 3*i + shard}) {
						return
					}
				}
			},
			rule: "a command started in a pseudo-terminal prints the size it was given with Resize; non-trivial: all"},
	}
}
