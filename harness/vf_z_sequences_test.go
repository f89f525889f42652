package termemu

// Sequences: every function of the terminal, each about as likely as any other, in
// front of the operations of a property, so that every short chain of functions
// leads up to every judged operation.

import (
	"fmt"

	"pgregory.net/rapid"
)

// vfAnyOps weighs the kinds of operations by the number of functions they stand for.
var vfAnyOps = []vfW{{"ctl", 6}, {"lf", 4}, {"cr", 3}, {"cup", 8}, {"goto", 2}, {"edge", 2}, {"save", 3}, {"erase", 5}, {"scroll", 5}, {"region", 2}, {"sgr", 3}, {"wrap", 2}, {"alt", 4},
	{"mode", 6}, {"mok", 1}, {"appcur", 1}, {"keypad", 1}, {"kbd", 5}, {"query", 4}, {"osc", 3}, {"oscodd", 1}, {"dcs", 2}, {"unkcsi", 3}, {"unkesc", 2}, {"badctl", 1}, {"text", 4}, {"char", 4}, {"resize", 2}}

const vfSeqRule = "random sequences: on screens of up to 24x8, zero to three operations drawn evenly from all functions of the terminal before every operation of the property; non-trivial as for the random histories"

// vfSeqOps draws a history in which own operations follow arbitrary ones.
func vfSeqOps(t *rapid.T, cfg vfCfg, own []vfW, p *vfProfile) []vfOp {
	var ops []vfOp
	if vfOneIn(t, 2) {
		ops = vfSetup(t, p, cfg)
	}
	add := func(kind string) {
		o := vfGenOp(t, kind, p, cfg)
		if o.K == "resize" {
			o.Late = 0
			o.W, o.H = vfInt(t, 1, 24), vfInt(t, 1, 8)
			cfg.W, cfg.H = o.W, o.H
		}
		ops = append(ops, o)
	}
	for i, n := 0, vfInt(t, 1, 16); i < n; i++ {
		for k := vfInt(t, 0, 3); k > 0; k-- {
			add(vfWeighted(t, vfAnyOps))
		}
		for k := vfPick(t, 1, 1, 1, 2); k > 0; k-- {
			add(vfWeighted(t, own))
		}
	}
	return ops
}

func vfSeqCfg(t *rapid.T) vfCfg {
	cfg := vfGenCfg(t)
	cfg.W, cfg.H = vfInt(t, 1, 24), vfInt(t, 1, 8)
	return cfg
}

func vfSeqGen(p *vfProfile, own ...vfW) func(t *rapid.T) vfProg {
	return func(t *rapid.T) vfProg {
		cfg := vfSeqCfg(t)
		return vfProg{cfg, vfSeqOps(t, cfg, own, p)}
	}
}

func init() {
	full := &vfProfile{texts: vfTextFull, cuts: true}
	plain := &vfProfile{texts: vfTextPlain, cuts: true, lead0: true}
	wild := &vfProfile{texts: vfTextWild, cuts: true}
	sub := func(prop string, weight int, p *vfProfile, own ...vfW) {
		vfStateSub(prop, "", "sequences", weight, vfSeqGen(p, own...))
		k := len(vfProps[prop]) - 1
		vfProps[prop][k].rule = vfSeqRule
	}
	sub("C02", 20, wild, vfAnyOps...)
	sub("C03", 40, full, vfW{"text", 3}, vfW{"char", 2})
	sub("C04", 40, full, vfW{"cup", 8}, vfW{"lf", 4}, vfW{"cr", 3}, vfW{"save", 4}, vfW{"ctl", 2})
	sub("C05", 40, full, vfW{"erase", 1})
	sub("C06", 40, full, vfW{"scroll", 4}, vfW{"lf", 3}, vfW{"region", 1}, vfW{"char", 1})
	sub("C07", 40, full, vfW{"sgr", 4}, vfW{"char", 2}, vfW{"erase", 1})
	sub("C10", 30, wild, vfAnyOps...)
	sub("C14", 40, plain, vfW{"query", 1})
	sub("C17", 40, plain, vfW{"mode", 4}, vfW{"alt", 3}, vfW{"wrap", 1}, vfW{"keypad", 1}, vfW{"mok", 1}, vfW{"kbd", 1})
	sub("C20", 20, &vfProfile{texts: vfTextPlain, cuts: true}, vfAnyOps...)
	vfStateSub("C11", "roundtrip", "sequences", 10, vfSeqGen(wild, vfW{"text", 2}, vfW{"char", 1}, vfW{"sgr", 2}, vfW{"erase", 1}))

	vfProps["C19"] = append(vfProps["C19"], vfProgSub("sequences", 40, vfSeqGen(plain, vfW{"kbd", 4}, vfW{"alt", 1}),
		func(pr vfProg, rep *vfRep) string { return vfJudgeC19(pr, rep, 3) }, vfSeqRule))

	vfProps["C09"] = append(vfProps["C09"], vfProgSub("sequences", 60, vfSeqGen(full, vfW{"unkcsi", 3}, vfW{"unkesc", 2}, vfW{"osc", 3}, vfW{"oscodd", 1}, vfW{"dcs", 2}),
		vfRunC09Drive, vfSeqRule))

	// C18: a resize after an arbitrary chain
	c18 := vfProps["C18"][0]
	c18.name, c18.weight, c18.rule = "sequences", 30, vfSeqRule
	c18.gen = func(t *rapid.T) any {
		cfg := vfSeqCfg(t)
		o := vfOp{K: "resize", W: vfInt(t, 1, 24), H: vfInt(t, 1, 8)}
		last := vfCfg{W: o.W, H: o.H, Mode: cfg.Mode}
		var ops []vfOp
		for _, o := range vfSeqOps(t, cfg, []vfW{{"char", 2}, {"region", 1}, {"save", 1}, {"alt", 1}, {"cup", 1}}, plain) {
			if o.K != "csi" || o.F != "u" || o.Pre == "" || o.Pre == "?" { // the terminal it is compared with has no keyboard flags
				ops = append(ops, o)
			}
		}
		return vfHist{cfg, append(ops, o), vfGenOps(t, &vfProfile{ops: vfBias(vfW{"query", 4}, vfW{"lf", 6}, vfW{"scroll", 4}), texts: vfTextPlain}, last, 0, 6)}
	}
	vfProps["C18"] = append(vfProps["C18"], c18)

	// C12, C13: key and mouse events after arbitrary chains
	vfProps["C12"] = append(vfProps["C12"], vfSub{name: "sequences", weight: 60, rule: "random key events with zero to three operations drawn evenly from all functions of the terminal, resizes included, before each, on screens of up to 24x8",
		run: vfRunKeyHist, dec: vfDec[vfKeyHist], shrink: vfShrinkKeyHist,
		gen: func(t *rapid.T) any {
			cfg := vfSeqCfg(t)
			h := vfKeyHist{W: cfg.W, H: cfg.H}
			for _, o := range vfSeqOps(t, cfg, []vfW{{"kbd", 3}, {"mok", 1}, {"alt", 1}, {"appcur", 1}, {"query", 1}}, plain) {
				if h.Ops = append(h.Ops, vfKeyOp{Seq: o}); vfOneIn(t, 2) {
					h.Ops = append(h.Ops, vfKeyOp{Ev: vfGenKey(t)})
				}
			}
			return h
		}})
	vfProps["C13"] = append(vfProps["C13"], vfSub{name: "sequences", weight: 60, rule: "random mouse events with zero to three operations drawn evenly from all functions of the terminal, resizes included, before each, on screens of up to 24x8; non-trivial: a report",
		run: vfRunMouseHist, dec: vfDec[vfMouseHist], shrink: func(c any) []any {
			h := c.(vfMouseHist)
			var out []any
			for n := len(h.Ops) / 2; n >= 1; n /= 2 {
				for i := 0; i+n <= len(h.Ops); i += n {
					g := h
					g.Ops = append(append([]vfMouseOp(nil), h.Ops[:i]...), h.Ops[i+n:]...)
					out = append(out, g)
				}
			}
			return out
		},
		gen: func(t *rapid.T) any {
			cfg := vfSeqCfg(t)
			h := vfMouseHist{Cfg: cfg}
			for _, o := range vfSeqOps(t, cfg, []vfW{{"mouse", 6}, {"mode", 2}, {"alt", 1}}, plain) {
				h.Ops = append(h.Ops, vfMouseOp{Seq: o})
				for vfOneIn(t, 2) {
					m := vfGenMouse(t)
					if vfOneIn(t, 2) {
						m.X, m.Y = vfInt(t, 1, 24), vfInt(t, 1, 8)
					}
					h.Ops = append(h.Ops, vfMouseOp{Ev: m})
				}
			}
			return h
		}})
}

// vfMouseHist is a history of operations and mouse events.
type vfMouseHist struct {
	Cfg vfCfg
	Ops []vfMouseOp
}

type vfMouseOp struct {
	Seq vfOp    // an operation, if not empty
	Ev  vfMouse // else an event
}

func vfRunMouseHist(c any, rep *vfRep) string {
	h := c.(vfMouseHist)
	w := vfNewWorld(h.Cfg, false)
	s, err := w.snap()
	if err != nil {
		return ""
	}
	var t any = w.t
	for i, o := range h.Ops {
		if o.Seq.K != "" {
			if w.do(o.Seq) != nil {
				return ""
			}
			w.take()
			if vfIsModeOp(o.Seq) {
				vfModes(o.Seq, s)
			}
			continue
		}
		if err := t.(vfMouseSender).SendMouseRaw(o.Ev.Btn, o.Ev.Press, o.Ev.Mods, o.Ev.X, o.Ev.Y); err != nil {
			return fmt.Sprintf("op %d: %+v: %v", i, o.Ev, err)
		}
		out := w.take()
		if msg := vfMouseCheck(s.Ints[VIMouseMode], s.Ints[VIMouseEncoding], o.Ev, out); msg != "" {
			return fmt.Sprintf("op %d: %s", i, msg)
		}
		if out != "" {
			rep.hit("report")
		} else {
			rep.label("filtered event")
		}
	}
	return ""
}
