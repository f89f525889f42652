package termemu

// Runner: drives one property's checks with rapid, counts what was generated,
// minimises and saves a failing case, and replays saved cases.

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// vfRep is what one evaluated case reports.
type vfRep struct {
	nontrivial bool
	labels     map[string]int
}

func (r *vfRep) label(l string) {
	if r.labels == nil {
		r.labels = map[string]int{}
	}
	r.labels[l]++
}

func (r *vfRep) hit(l string) {
	r.nontrivial = true
	r.label(l)
}

// vfSub is one check of a property: a generator of cases and an oracle.
type vfSub struct {
	name   string
	weight int // relative number of cases; 0 if the cases are enumerated
	gen    func(t *rapid.T) any
	enum   func(shard, shards int, thorough bool, yield func(any) bool) // instead of gen
	run    func(c any, rep *vfRep) string
	dec    func(b []byte) (any, error)
	shrink func(c any) []any
	rule   string
}

func vfDec[C any](b []byte) (any, error) {
	var c C
	err := json.Unmarshal(b, &c)
	return c, err
}

func vfDecProg(b []byte) (any, error) { return vfDec[vfProg](b) }

// vfProgSub makes a check over histories.
func vfProgSub(name string, weight int, gen func(t *rapid.T) vfProg, run func(p vfProg, rep *vfRep) string, rule string) vfSub {
	return vfSub{
		name: name, weight: weight, rule: rule,
		gen:    func(t *rapid.T) any { return gen(t) },
		run:    func(c any, rep *vfRep) string { return run(c.(vfProg), rep) },
		dec:    vfDecProg,
		shrink: func(c any) []any { return vfShrinkProg(c.(vfProg)) },
	}
}

var vfProps = map[string][]vfSub{}

// vfCase is what a replay file holds.
type vfCase struct {
	Property string          `json:"property"`
	Check    string          `json:"check"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

type vfSubResult struct {
	Name        string         `json:"name"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Rule        string         `json:"rule"`
	WallS       float64        `json:"wall_s"`
}

type vfResult struct {
	Property  string        `json:"property"`
	Seed      uint64        `json:"seed"`
	Subs      []vfSubResult `json:"subs"`
	Violation *vfCase       `json:"violation"`
}

// vfGuard evaluates one case; a panic of the code under test is a failure.
func vfGuard(s *vfSub, c any, rep *vfRep) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok && err.Error() == "invalid data" {
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, vfStack())
		}
	}()
	return s.run(c, rep)
}

func vfStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "runtime/") && !strings.Contains(l, "vf_") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "\n")
}

type vfCurrent struct {
	sub   *vfSub
	c     any
	start time.Time
}

var vfCur atomic.Pointer[vfCurrent]

func vfEncodeCase(prop string, s *vfSub, c any, msg string) *vfCase {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return &vfCase{Property: prop, Check: s.name, Message: msg, Case: b}
}

func vfWriteJSON(path string, v any) {
	if path == "" {
		return
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}

func vfEnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// vfWatch ends the process with exit code 7 when one case takes too long.
func vfWatch(prop string, limit time.Duration) {
	for {
		time.Sleep(500 * time.Millisecond)
		cur := vfCur.Load()
		if cur == nil || time.Since(cur.start) < limit {
			continue
		}
		msg := fmt.Sprintf("no result after %v", limit)
		vfWriteJSON(os.Getenv("VF_OUT")+".hang", vfEncodeCase(prop, cur.sub, cur.c, msg))
		fmt.Fprintf(os.Stderr, "VF-HANG %s\n", msg)
		os.Exit(7)
	}
}

// vfCounter accumulates the cases of one check.
type vfCounter struct {
	mu     sync.Mutex
	res    vfSubResult
	hashes map[uint64]struct{}
}

func (k *vfCounter) add(c any, rep *vfRep) {
	k.res.Evaluations++
	for l, n := range rep.labels {
		k.res.Labels[l] += n
	}
	if !rep.nontrivial {
		return
	}
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	h := fnv.New64a()
	_, _ = h.Write([]byte(k.res.Name))
	_, _ = h.Write(b)
	if _, ok := k.hashes[h.Sum64()]; ok {
		return
	}
	k.hashes[h.Sum64()] = struct{}{}
	k.res.Nontrivial++
	if len(k.res.Samples) < 2 && len(b) < 1500 && k.res.Nontrivial%7 == 3 {
		k.res.Samples = append(k.res.Samples, json.RawMessage(b))
	}
}

func TestVF(t *testing.T) {
	prop := os.Getenv("VF_PROP")
	subs, ok := vfProps[prop]
	if !ok {
		t.Fatalf("no checks for property %q", prop)
	}
	if f := os.Getenv("VF_REPLAY"); f != "" {
		vfReplay(t, prop, subs, f)
		return
	}
	thorough := os.Getenv("VF_TIER") == "thorough"
	shard, shards := vfEnvInt("VF_SHARD", 0), vfEnvInt("VF_SHARDS", 1)
	base := vfEnvInt("VF_CASES", 1000)
	only := os.Getenv("VF_ONLY")
	hang := vfEnvInt("VF_HANG", 120)
	go vfWatch(prop, time.Duration(hang)*time.Second)
	trace := os.Getenv("VF_TRACE")

	out := vfResult{Property: prop, Seed: uint64(vfEnvInt("VF_SEED", 1))}
	hashes := map[uint64]struct{}{}
	for i := range subs {
		s := &subs[i]
		if only != "" && only != s.name || out.Violation != nil {
			continue
		}
		k := &vfCounter{hashes: hashes, res: vfSubResult{Name: s.name, Labels: map[string]int{}, Rule: s.rule}}
		var failed any
		var failMsg string
		eval := func(c any) string {
			rep := &vfRep{}
			if trace != "" {
				vfWriteJSON(trace, vfEncodeCase(prop, s, c, "the process ended while this case ran"))
			}
			vfCur.Store(&vfCurrent{s, c, time.Now()})
			msg := vfGuard(s, c, rep)
			vfCur.Store(nil)
			k.add(c, rep)
			if msg != "" {
				failed, failMsg = c, msg
			}
			return msg
		}
		start := time.Now()
		if s.enum != nil {
			s.enum(shard, shards, thorough, func(c any) bool { return eval(c) == "" })
		} else {
			_ = flag.Set("rapid.checks", strconv.Itoa(max(1, base*s.weight/100)))
			t.Run(s.name, func(t *testing.T) {
				rapid.Check(t, func(t *rapid.T) {
					if msg := eval(s.gen(t)); msg != "" {
						t.Fatal(msg)
					}
				})
			})
		}
		k.res.WallS = time.Since(start).Seconds()
		if failed != nil {
			failed, failMsg = vfMinimise(s, failed, failMsg)
			out.Violation = vfEncodeCase(prop, s, failed, failMsg)
			t.Errorf("%s/%s: %s", prop, s.name, failMsg)
		} else if t.Failed() {
			t.Errorf("%s/%s: the generator failed", prop, s.name)
			out.Subs = append(out.Subs, k.res)
			return // no result file: an error of the check
		}
		out.Subs = append(out.Subs, k.res)
	}
	path := os.Getenv("VF_OUT")
	if path == "" {
		for _, r := range out.Subs {
			b, _ := json.Marshal(r.Labels)
			fmt.Printf("%s/%s: %d cases, %d non-trivial, %.1fs %s\n", prop, r.Name, r.Evaluations, r.Nontrivial, r.WallS, b)
			if os.Getenv("VF_SAMPLES") != "" {
				for _, s := range r.Samples {
					fmt.Printf("   %s\n", s)
				}
			}
		}
		if out.Violation != nil {
			b, _ := json.Marshal(out.Violation)
			fmt.Println(string(b))
		}
		return
	}
	hs := make([]uint64, 0, len(hashes))
	for h := range hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 0, 8*len(hs))
	for _, h := range hs {
		for i := 0; i < 8; i++ {
			buf = append(buf, byte(h>>(8*i)))
		}
	}
	if err := os.WriteFile(path+".hashes", buf, 0o644); err != nil {
		t.Fatal(err)
	}
	vfWriteJSON(path, out)
}

func vfReplay(t *testing.T, prop string, subs []vfSub, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var rc vfCase
	if err := json.Unmarshal(b, &rc); err != nil {
		t.Fatal(err)
	}
	go vfWatch(prop, time.Duration(vfEnvInt("VF_HANG", 120))*time.Second)
	for i := range subs {
		s := &subs[i]
		if s.name != rc.Check {
			continue
		}
		c, err := s.dec(rc.Case)
		if err != nil {
			t.Fatal(err)
		}
		vfCur.Store(&vfCurrent{s, c, time.Now()})
		msg := vfGuard(s, c, &vfRep{})
		vfCur.Store(nil)
		res := vfResult{Property: prop}
		if msg != "" {
			res.Violation = vfEncodeCase(prop, s, c, msg)
			fmt.Printf("%s/%s: %s\n", prop, s.name, msg)
		}
		vfWriteJSON(os.Getenv("VF_OUT"), res)
		return
	}
	t.Fatalf("no check %q", rc.Check)
}

// vfMinimise makes a failing case smaller while it keeps failing.
func vfMinimise(s *vfSub, c any, msg string) (any, string) {
	if s.shrink == nil {
		return c, msg
	}
	deadline := time.Now().Add(20 * time.Second)
	for again := true; again; {
		again = false
		for _, d := range s.shrink(c) {
			if time.Now().After(deadline) {
				return c, msg
			}
			vfCur.Store(&vfCurrent{s, d, time.Now()})
			m := vfGuard(s, d, &vfRep{})
			vfCur.Store(nil)
			if m != "" {
				c, msg, again = d, m, true
				break
			}
		}
	}
	return c, msg
}

// vfShrinkOps proposes smaller histories.
func vfShrinkOps(ops []vfOp) [][]vfOp {
	var out [][]vfOp
	for n := len(ops) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(ops); i += n {
			c := append([]vfOp(nil), ops[:i]...)
			out = append(out, append(c, ops[i+n:]...))
		}
	}
	with := func(i int, o vfOp) {
		c := append([]vfOp(nil), ops...)
		c[i] = o
		out = append(out, c)
	}
	for i, o := range ops {
		if o.K == "fill" {
			c := append([]vfOp(nil), ops[:i]...)
			out = append(out, append(append(c, vfSplitOps(string(o.bytes()))...), ops[i+1:]...))
			if o.F != "0" {
				o.F = "0"
				with(i, o)
			}
			continue
		}
		if len(o.Cut) > 0 {
			d := o
			d.Cut = nil
			with(i, d)
			for j := range o.Cut {
				d.Cut = append(append([]int(nil), o.Cut[:j]...), o.Cut[j+1:]...)
				with(i, d)
			}
		}
		if len(o.S) > 1 && (o.K == "text" || o.K == "raw") {
			var parts []string
			if o.K == "text" {
				parts, _ = vfChars(string(o.S), TextReadModeGrapheme)
				if strings.Join(parts, "") != string(o.S) {
					parts = nil // invalid UTF-8 was replaced
				}
			}
			if parts == nil {
				for _, b := range []byte(o.S) {
					parts = append(parts, string([]byte{b}))
				}
			}
			for n := len(parts) / 2; n >= 1; n /= 2 {
				for j := 0; j+n <= len(parts); j += n {
					d := o
					d.Cut = nil
					d.S = vfB(strings.Join(parts[:j], "") + strings.Join(parts[j+n:], ""))
					if d.S != "" {
						with(i, d)
					}
				}
			}
		}
		if len(o.P) > 1 {
			for j := range o.P {
				d := o
				d.Cut = nil
				d.P = append(append([]string(nil), o.P[:j]...), o.P[j+1:]...)
				with(i, d)
			}
		}
	}
	return out
}

func vfShrinkProg(p vfProg) []any {
	var out []any
	for _, ops := range vfShrinkOps(p.Ops) {
		if len(ops) > 0 {
			out = append(out, vfProg{p.Cfg, ops})
		}
	}
	for _, c := range vfShrinkCfg(p.Cfg) {
		out = append(out, vfProg{c, p.Ops})
	}
	return out
}

func vfShrinkCfg(c vfCfg) []vfCfg {
	var out []vfCfg
	for _, w := range []int{4, 8, c.W / 2, c.W - 1} {
		if w >= 1 && w < c.W {
			d := c
			d.W = w
			out = append(out, d)
		}
	}
	for _, h := range []int{3, c.H / 2, c.H - 1} {
		if h >= 1 && h < c.H {
			d := c
			d.H = h
			out = append(out, d)
		}
	}
	if c.Short > 0 {
		c.Short = 0
		out = append(out, c)
	}
	return out
}
