package termemu

// C12 (keys) and C13 (mouse).

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- the protocol

// Numbers of the functional keys, from the table of keyboard-protocol.rst.
var vfKittyNum = func() map[KeyCode]int {
	m := map[KeyCode]int{}
	add := func(first int, codes ...KeyCode) {
		for i, c := range codes {
			m[c] = first + i
		}
	}
	add(57358, KeyCapsLock, KeyScrollLock, KeyNumLock, KeyPrintScreen, KeyPause, KeyMenu)
	add(57376, KeyF13, KeyF14, KeyF15, KeyF16, KeyF17, KeyF18, KeyF19, KeyF20, KeyF21, KeyF22, KeyF23, KeyF24, KeyF25, KeyF26, KeyF27, KeyF28, KeyF29, KeyF30, KeyF31, KeyF32, KeyF33, KeyF34, KeyF35)
	add(57399, KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9, KeyKPDecimal, KeyKPDivide, KeyKPMultiply, KeyKPSubtract, KeyKPAdd, KeyKPEnter, KeyKPEqual, KeyKPSeparator,
		KeyKPLeft, KeyKPRight, KeyKPUp, KeyKPDown, KeyKPPageUp, KeyKPPageDown, KeyKPHome, KeyKPEnd, KeyKPInsert, KeyKPDelete)
	add(57428, KeyMediaPlay, KeyMediaPause, KeyMediaPlayPause, KeyMediaReverse, KeyMediaStop, KeyMediaFastForward, KeyMediaRewind, KeyMediaTrackNext, KeyMediaTrackPrev, KeyMediaRecord, KeyVolumeDown, KeyVolumeUp, KeyVolumeMute)
	add(57441, KeyLeftShift, KeyLeftControl, KeyLeftAlt, KeyLeftSuper, KeyLeftHyper, KeyLeftMeta, KeyRightShift, KeyRightControl, KeyRightAlt, KeyRightSuper, KeyRightHyper, KeyRightMeta, KeyISOLevel3Shift, KeyISOLevel5Shift)
	return m
}()

// Keys of the forms CSI 1;m letter and CSI number;m ~.
var vfLetterKeys = map[KeyCode]string{KeyUp: "A", KeyDown: "B", KeyRight: "C", KeyLeft: "D", KeyHome: "H", KeyEnd: "F", KeyF1: "P", KeyF2: "Q", KeyF4: "S", KeyKPBegin: "E"}
var vfTildeKeys = map[KeyCode]int{KeyInsert: 2, KeyDelete: 3, KeyPageUp: 5, KeyPageDown: 6, KeyF3: 13, KeyF5: 15, KeyF6: 17, KeyF7: 18, KeyF8: 19, KeyF9: 20, KeyF10: 21, KeyF11: 23, KeyF12: 24}
var vfByteKeys = map[KeyCode]int{KeyEscape: 27, KeyEnter: 13, KeyTab: 9, KeyBackspace: 127}

var vfKeypadRunes = map[KeyCode]rune{KeyKP0: '0', KeyKP1: '1', KeyKP2: '2', KeyKP3: '3', KeyKP4: '4', KeyKP5: '5', KeyKP6: '6', KeyKP7: '7', KeyKP8: '8', KeyKP9: '9', KeyKPDecimal: '.', KeyKPDivide: '/', KeyKPMultiply: '*', KeyKPSubtract: '-', KeyKPAdd: '+', KeyKPEqual: '=', KeyKPSeparator: ','}
var vfKeypadKeys = map[KeyCode]KeyCode{KeyKPEnter: KeyEnter, KeyKPLeft: KeyLeft, KeyKPRight: KeyRight, KeyKPUp: KeyUp, KeyKPDown: KeyDown, KeyKPPageUp: KeyPageUp, KeyKPPageDown: KeyPageDown, KeyKPHome: KeyHome, KeyKPEnd: KeyEnd, KeyKPInsert: KeyInsert, KeyKPDelete: KeyDelete}

// vfKeypad returns the key of the main keyboard that a keypad key stands for.
func vfKeypad(ev KeyEvent) (KeyEvent, bool) {
	if r, ok := vfKeypadRunes[ev.Code]; ok {
		ev.Code, ev.Rune = KeyRune, r
		return ev, true
	}
	if c, ok := vfKeypadKeys[ev.Code]; ok {
		ev.Code = c
		return ev, true
	}
	if ev.Code == KeyKPBegin {
		ev.Code, ev.Rune = KeyRune, '5'
		return ev, true
	}
	return ev, false
}

const (
	vfTextMods  = ModShift | ModCapsLock | ModNumLock // text keys produce text with these
	vfLockMods  = ModCapsLock | ModNumLock
	vfExtraMods = ModSuper | ModHyper | ModMeta
)

// vfKeyState is what decides the encoding.
type vfKeyState struct {
	Flags int
	MOK   int
	App   bool
}

func (s vfKeyState) has(f KeyboardEnhancement) bool { return s.Flags&int(f) != 0 }

// vfKeyWant is the encoding the protocol prescribes.
func vfKeyWant(ev KeyEvent, s vfKeyState) string {
	if ev.Event == 0 {
		ev.Event = KeyPress
	}
	if ev.Event == KeyRelease && !s.has(KbdReportEvents) {
		return ""
	}
	if n := vfKittyNum[ev.Code]; n >= 57441 && n <= 57454 && !s.has(KbdReportAllKeys) {
		return "" // modifiers on their own
	}
	if s.has(KbdDisambiguate) || s.has(KbdReportEvents) || s.has(KbdReportAllKeys) {
		if k, ok := vfKittyWant(ev, s); ok {
			return k
		}
	}
	if ev.Event == KeyRelease {
		return ""
	}
	return vfLegacyWant(ev, s)
}

func vfKittyWant(ev KeyEvent, s vfKeyState) (string, bool) {
	if main, ok := vfKeypad(ev); ok && !s.has(KbdReportAllKeys) {
		text := main.Code == KeyRune && ev.Code != KeyKPBegin && ev.Mod&^vfTextMods == 0
		if text || !s.has(KbdDisambiguate) {
			return vfKittyWant(main, s)
		}
	}
	event := ""
	if s.has(KbdReportEvents) && ev.Event != KeyPress {
		event = fmt.Sprintf(":%d", ev.Event)
	}
	mods := func(m KeyMod) string {
		if m == 0 && event == "" {
			return ""
		}
		return strconv.Itoa(int(m)+1) + event
	}
	if l := vfLetterKeys[ev.Code]; l != "" {
		if m := mods(ev.Mod); m != "" {
			return "\x1b[1;" + m + l, true
		}
		return "\x1b[" + l, true
	}
	if n := vfTildeKeys[ev.Code]; n != 0 {
		if m := mods(ev.Mod); m != "" {
			return fmt.Sprintf("\x1b[%d;%s~", n, m), true
		}
		return fmt.Sprintf("\x1b[%d~", n), true
	}
	u := func(n int, m string, text string) string {
		b := fmt.Sprintf("\x1b[%d", n)
		if s.has(KbdReportAlternates) {
			shifted := ev.Shifted != 0 && ev.Mod&ModShift != 0
			switch {
			case shifted && ev.BaseLayout != 0:
				b += fmt.Sprintf(":%d:%d", ev.Shifted, ev.BaseLayout)
			case shifted:
				b += fmt.Sprintf(":%d", ev.Shifted)
			case ev.BaseLayout != 0:
				b += fmt.Sprintf("::%d", ev.BaseLayout)
			}
		}
		if m == "" && text != "" {
			m = "1"
		}
		if m != "" {
			b += ";" + m
		}
		if text != "" {
			b += ";" + text
		}
		return b + "u"
	}
	text := func() string {
		if !s.has(KbdReportAllKeys) || !s.has(KbdReportText) || ev.Event == KeyRelease {
			return ""
		}
		rs := ev.Text
		if len(rs) == 0 && ev.Code == KeyRune && ev.Mod&^vfTextMods == 0 {
			rs = []rune{vfShiftedRune(ev)}
		}
		var out []string
		for _, r := range rs {
			if !unicode.IsControl(r) {
				out = append(out, strconv.Itoa(int(r)))
			}
		}
		return strings.Join(out, ":")
	}
	if n := vfByteKeys[ev.Code]; n != 0 {
		if s.has(KbdReportAllKeys) || n == 27 && (s.has(KbdDisambiguate) || ev.Event != KeyPress) {
			return u(n, mods(ev.Mod), text()), true
		}
		return "", false
	}
	if n := vfKittyNum[ev.Code]; n != 0 {
		return u(n, mods(ev.Mod), text()), true
	}
	if ev.Code != KeyRune {
		return "", false
	}
	n := int(unicode.ToLower(ev.Rune))
	if s.has(KbdReportAllKeys) {
		return u(n, mods(ev.Mod), text()), true
	}
	if ev.Mod&^vfTextMods == 0 {
		return "", false
	}
	if s.has(KbdDisambiguate) || event != "" {
		return u(n, mods(ev.Mod&^vfLockMods), ""), true
	}
	return "", false
}

func vfShiftedRune(ev KeyEvent) rune {
	if ev.Mod&ModShift == 0 {
		return ev.Rune
	}
	if ev.Shifted != 0 {
		return ev.Shifted
	}
	return unicode.ToUpper(ev.Rune)
}

func vfLegacyWant(ev KeyEvent, s vfKeyState) string {
	ev.Mod &^= vfLockMods
	if main, ok := vfKeypad(ev); ok {
		ev = main
	}
	m := int(ev.Mod) + 1
	mok := s.MOK > 0 && s.Flags == 0
	alt, ctrl, shift := ev.Mod&ModAlt != 0, ev.Mod&ModCtrl != 0, ev.Mod&ModShift != 0
	if l := vfLetterKeys[ev.Code]; l != "" {
		switch {
		case ev.Mod != 0:
			return fmt.Sprintf("\x1b[1;%d%s", m, l)
		case strings.Contains("PQRS", l) || s.App:
			return "\x1bO" + l
		}
		return "\x1b[" + l
	}
	if ev.Code == KeyF3 && ev.Mod == 0 {
		return "\x1bOR"
	}
	tilde := vfTildeKeys[ev.Code]
	if ev.Code == KeyMenu {
		tilde = 29
	}
	if tilde != 0 {
		if ev.Mod != 0 {
			return fmt.Sprintf("\x1b[%d;%d~", tilde, m)
		}
		return fmt.Sprintf("\x1b[%d~", tilde)
	}
	if n := vfKittyNum[ev.Code]; n != 0 {
		if ev.Mod != 0 {
			return fmt.Sprintf("\x1b[%d;%du", n, m)
		}
		return fmt.Sprintf("\x1b[%du", n)
	}
	n, isByte := vfByteKeys[ev.Code], true
	if ev.Code == KeyRune {
		n, isByte = int(ev.Rune), false
	}
	if n == 0 {
		return ""
	}
	if mok && ev.Mod != 0 {
		if ev.Code == KeyTab && ev.Mod == ModShift {
			return "\x1b[Z"
		}
		return fmt.Sprintf("\x1b[27;%d;%d~", m, n)
	}
	lower := unicode.ToLower(rune(n))
	ambiguous := ev.Mod&vfExtraMods != 0 || alt && ctrl && shift ||
		ctrl && shift && !isByte && strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789`-=[]\\;',./", lower)
	if ambiguous {
		if !isByte {
			n = int(lower)
		}
		return fmt.Sprintf("\x1b[%d;%du", n, m)
	}
	out := ""
	switch {
	case ev.Code == KeyBackspace && ctrl:
		out = "\b"
	case ev.Code == KeyTab && shift:
		out = "\x1b[Z"
	case isByte:
		out = string(rune(n))
	case ctrl:
		out = string(rune(n))
		if c, ok := vfCtrlBytes[rune(n)]; ok {
			out = string([]byte{c})
		}
	default:
		out = string(vfShiftedRune(ev))
	}
	if alt {
		out = "\x1b" + out
	}
	return out
}

var vfCtrlBytes = func() map[rune]byte {
	m := map[rune]byte{'@': 0, ' ': 0, '2': 0, '[': 27, '3': 27, '\\': 28, '4': 28, ']': 29, '5': 29, '^': 30, '~': 30, '6': 30, '_': 31, '/': 31, '7': 31, '?': 127, '8': 127}
	for i := 1; i <= 26; i++ {
		m[rune('a'+i-1)], m[rune('A'+i-1)] = byte(i), byte(i)
	}
	return m
}()

// vfKeyDecode reads a CSI key report back.
func vfKeyDecode(seq string) (code KeyCode, r rune, mod KeyMod, event KeyEventType, ok bool) {
	if len(seq) < 3 || seq[:2] != "\x1b[" {
		return
	}
	final := seq[len(seq)-1:]
	fields := strings.Split(seq[2:len(seq)-1], ";")
	num := func(f string, i, def int) int {
		sub := strings.Split(f, ":")
		if i < len(sub) && sub[i] != "" {
			v, err := strconv.Atoi(sub[i])
			if err != nil {
				return -1
			}
			return v
		}
		return def
	}
	n := num(fields[0], 0, 1)
	event = KeyPress
	if len(fields) > 1 {
		mod = KeyMod(num(fields[1], 0, 1) - 1)
		event = KeyEventType(num(fields[1], 1, 1))
	}
	ok = true
	switch final {
	case "u":
		for c, k := range vfByteKeys {
			if k == n {
				return c, 0, mod, event, true
			}
		}
		if c, found := vfKittyKey[n]; found {
			return c, 0, mod, event, true
		}
		return KeyRune, rune(n), mod, event, true
	case "~":
		for c, k := range vfTildeKeys {
			if k == n {
				return c, 0, mod, event, true
			}
		}
	default:
		for c, l := range vfLetterKeys {
			if l == final && n == 1 {
				return c, 0, mod, event, true
			}
		}
	}
	return 0, 0, 0, 0, false
}

var vfKittyKey = func() map[int]KeyCode {
	m := map[int]KeyCode{}
	for c, n := range vfKittyNum {
		m[n] = c
	}
	return m
}()

// ---------------------------------------------------------------- C12

var vfAllCodes = func() []KeyCode {
	var out []KeyCode
	for c := KeyRune; c <= KeyISOLevel5Shift; c++ {
		out = append(out, c)
	}
	return out
}()

// vfKeyCase is a key with all its modifiers and event types in one mode.
type vfKeyCase struct {
	Ev     KeyEvent // Mod and Event are varied
	State  vfKeyState
	Alt    bool  // the alternate screen is active
	Mods   []int `json:",omitempty"` // nil: all 256
	Events []int `json:",omitempty"` // nil: unset, press, repeat, release
	Pad    bool  // application keypad mode, which does not matter
}

// vfKeyTerminal makes a terminal in the given state, by control sequences.
func vfKeyTerminal(c vfKeyCase) (*vfWorld, error) {
	w := vfNewWorld(vfCfg{W: 4, H: 2}, false)
	var b strings.Builder
	if c.Alt {
		b.WriteString("\x1b[=21u\x1b[?1049h") // other flags on the main screen
	}
	fmt.Fprintf(&b, "\x1b[=%du\x1b[>4;%dm", c.State.Flags, c.State.MOK)
	if c.State.App {
		b.WriteString("\x1b[?1h")
	}
	if c.Pad {
		b.WriteString("\x1b=")
	}
	if err := w.feed([]byte(b.String()), nil); err != nil {
		return nil, err
	}
	if w.t.keyboardFlags() != c.State.Flags {
		return nil, fmt.Errorf("state not reached") // another property's business
	}
	w.take()
	return w, nil
}

func vfSendKey(w *vfWorld, ev KeyEvent, s vfKeyState) string {
	n, err := w.t.SendKey(ev)
	got := w.take()
	want := vfKeyWant(ev, s)
	if got != want {
		return fmt.Sprintf("flags %05b modifyOtherKeys %d app cursor %v: %s is sent as %q, expected %q", s.Flags, s.MOK, s.App, vfKeyStr(ev), got, want)
	}
	if err != nil || n != len(got) {
		return fmt.Sprintf("%s: SendKey returned %d, %v; wrote %d bytes", vfKeyStr(ev), n, err, len(got))
	}
	if s.Flags&int(KbdDisambiguate|KbdReportEvents|KbdReportAllKeys) == 0 || !strings.HasPrefix(got, "\x1b[") || len(got) < 3 || got == "\x1b[Z" {
		return ""
	}
	if _, ok := vfKittyWant(vfNormal(ev), s); !ok {
		return "" // legacy
	}
	code, r, mod, event, ok := vfKeyDecode(got)
	exp := vfNormal(ev)
	if exp.Code == KeyRune && s.Flags&int(KbdReportAllKeys) == 0 {
		exp.Mod &^= vfLockMods
	}
	if s.Flags&int(KbdReportEvents) == 0 {
		exp.Event = KeyPress
	}
	main, pad := vfKeypad(exp)
	if pad && s.Flags&int(KbdReportAllKeys) == 0 && (s.Flags&int(KbdDisambiguate) == 0 || code == main.Code && main.Code == KeyRune) {
		exp = main
		if exp.Code == KeyRune {
			exp.Mod &^= vfLockMods
		}
	}
	if !ok || code != exp.Code || code == KeyRune && r != unicode.ToLower(exp.Rune) || mod != exp.Mod || event != exp.Event {
		return fmt.Sprintf("flags %05b: %s is sent as %q, which decodes to key %d %q mods %d event %d", s.Flags, vfKeyStr(ev), got, code, r, mod, event)
	}
	return ""
}

func vfNormal(ev KeyEvent) KeyEvent {
	if ev.Event == 0 {
		ev.Event = KeyPress
	}
	return ev
}

func vfKeyStr(ev KeyEvent) string {
	return fmt.Sprintf("key %d rune %q mods %08b event %d shifted %q base %q text %q", ev.Code, ev.Rune, ev.Mod, ev.Event, ev.Shifted, ev.BaseLayout, string(ev.Text))
}

func vfRunC12(c any, rep *vfRep) string {
	k := c.(vfKeyCase)
	w, err := vfKeyTerminal(k)
	if err != nil {
		return ""
	}
	mods, events := k.Mods, k.Events
	if mods == nil {
		for m := 0; m < 256; m++ {
			mods = append(mods, m)
		}
	}
	if events == nil {
		events = []int{1, 2, 3, 0}
	}
	for _, m := range mods {
		for _, e := range events {
			ev := k.Ev
			ev.Mod, ev.Event = KeyMod(m), KeyEventType(e)
			if e == 0 && m%16 != 3 && k.Mods == nil {
				continue // the unset event is the same as press
			}
			if msg := vfSendKey(w, ev, k.State); msg != "" {
				return msg
			}
			if rep.labels == nil {
				rep.labels = map[string]int{}
			}
			rep.labels["key events"]++
		}
	}
	rep.nontrivial = true
	if k.State.Flags != 0 {
		rep.label("kitty modes")
	} else if k.State.MOK > 0 {
		rep.label("modifyOtherKeys")
	} else {
		rep.label("legacy modes")
	}
	return ""
}

func vfShrinkKey(c any) []any {
	k := c.(vfKeyCase)
	var out []any
	if k.Mods == nil {
		for m := 0; m < 256; m++ {
			d := k
			d.Mods = []int{m}
			out = append(out, d)
		}
	} else if k.Events == nil {
		for _, e := range []int{1, 2, 3, 0} {
			d := k
			d.Events = []int{e}
			out = append(out, d)
		}
	}
	if k.Alt {
		d := k
		d.Alt = false
		out = append(out, d)
	}
	if k.Pad {
		d := k
		d.Pad = false
		out = append(out, d)
	}
	return out
}

var vfSampleRunes = []rune{'é', 'É', 'ß', 'ж', 'Ω', '世', '😀', 'ı', 'ǅ', '\u00a0', '\u00df', '\u0301'}

func vfEnumKeys(shard, shards int, thorough bool, yield func(any) bool) {
	var keys []KeyEvent
	for _, c := range vfAllCodes {
		if c == KeyRune {
			for r := rune(32); r < 127; r++ {
				keys = append(keys, KeyEvent{Code: c, Rune: r})
			}
			for _, r := range vfSampleRunes {
				keys = append(keys, KeyEvent{Code: c, Rune: r})
			}
			// with alternates and text
			for i, r := range []rune{'a', 'Z', '1', '/', 'ж', 'я'} {
				keys = append(keys, KeyEvent{Code: c, Rune: r, Shifted: []rune{'A', 'Q', '!', '?', 'Ж', 0}[i]},
					KeyEvent{Code: c, Rune: r, BaseLayout: []rune{'q', 'w', '1', '-', ';', 'z'}[i]},
					KeyEvent{Code: c, Rune: r, Shifted: []rune{'A', 'Q', '!', '?', 'Ж', 'Я'}[i], BaseLayout: 'c', Text: []rune("eé")},
					KeyEvent{Code: c, Rune: r, Text: []rune("\x01\n")})
			}
			continue
		}
		keys = append(keys, KeyEvent{Code: c})
		if c == KeyEnter || c == KeyKP5 || c == KeyEscape || c == KeyF13 {
			keys = append(keys, KeyEvent{Code: c, Text: []rune("5\r")}, KeyEvent{Code: c, BaseLayout: 'x', Shifted: 'Y', Rune: 'q'})
		}
	}
	n := 0
	one := func(k vfKeyCase) bool {
		n++
		if n%shards != shard {
			return true
		}
		return yield(k)
	}
	for i, ev := range keys {
		for f := 0; f < 32; f++ {
			k := vfKeyCase{Ev: ev, State: vfKeyState{Flags: f}, Alt: (i+f)%5 == 0}
			if f != 0 {
				k.State.MOK, k.State.App, k.Pad = (i+f)%3, (i+f)%2 == 1, (i+f)%4 == 3
			}
			if !one(k) {
				return
			}
		}
		for mok := 0; mok < 3; mok++ {
			for app := 0; app < 2; app++ {
				if !one(vfKeyCase{Ev: ev, State: vfKeyState{MOK: mok, App: app == 1}, Pad: (i+mok)%2 == 1}) {
					return
				}
			}
		}
	}
}

// vfInject checks that distinct keys have distinct encodings in one mode.
type vfInject struct {
	Flags int
}

func vfRunInject(c any, rep *vfRep) string {
	f := c.(vfInject).Flags
	s := vfKeyState{Flags: f}
	w, err := vfKeyTerminal(vfKeyCase{State: s})
	if err != nil {
		return ""
	}
	all := s.has(KbdReportAllKeys)
	seen := map[string]string{}
	var keys []KeyEvent
	for _, c := range vfAllCodes {
		if c != KeyRune {
			keys = append(keys, KeyEvent{Code: c})
		}
	}
	for r := rune(32); r < 127; r++ {
		if unicode.ToLower(r) == r {
			keys = append(keys, KeyEvent{Code: KeyRune, Rune: r})
		}
	}
	for _, r := range vfSampleRunes {
		if unicode.ToLower(r) == r && r != 'ß' {
			keys = append(keys, KeyEvent{Code: KeyRune, Rune: r})
		}
	}
	for _, ev := range keys {
		main, pad := vfKeypad(ev)
		for m := 0; m < 256; m++ {
			ev.Mod = KeyMod(m)
			if !all {
				if ev.Code == KeyEnter || ev.Code == KeyTab || ev.Code == KeyBackspace {
					continue // keep their legacy bytes
				}
				if ev.Code == KeyRune && (ev.Mod&^vfTextMods == 0 || ev.Mod&vfLockMods != 0) {
					continue // text; locks are not reported
				}
				if pad && main.Code == KeyRune && ev.Code != KeyKPBegin && ev.Mod&^vfTextMods == 0 {
					continue // text
				}
			}
			for _, e := range []KeyEventType{KeyPress, KeyRepeat, KeyRelease} {
				if e != KeyPress && !s.has(KbdReportEvents) {
					continue
				}
				ev.Event = e
				if _, err := w.t.SendKey(ev); err != nil {
					return err.Error()
				}
				got := w.take()
				if got == "" {
					if n := vfKittyNum[ev.Code]; n >= 57441 && !all {
						continue
					}
					return fmt.Sprintf("flags %05b: %s is not sent at all", f, vfKeyStr(ev))
				}
				if other, ok := seen[got]; ok {
					return fmt.Sprintf("flags %05b: %s and %s are both sent as %q", f, other, vfKeyStr(ev), got)
				}
				seen[got] = vfKeyStr(ev)
				if rep.labels == nil {
					rep.labels = map[string]int{}
				}
				rep.labels["distinct encodings"]++
			}
		}
	}
	rep.nontrivial = true
	return ""
}

// vfKeyHist is a history of mode changes and key events.
type vfKeyHist struct {
	Ops   []vfKeyOp
	Short int `json:",omitempty"` // the backend takes at most that many bytes per write
	W, H  int `json:",omitempty"`
}

type vfKeyOp struct {
	Seq vfOp     // a mode change, if not empty
	Ev  KeyEvent // else a key
}

func vfGenRune(t *rapid.T) rune {
	switch vfInt(t, 0, 7) {
	case 0, 1, 2:
		return rune(vfInt(t, 32, 126))
	case 3:
		return rune(vfInt(t, 0xa1, 0x24f))
	case 4:
		return rune(vfInt(t, 0x370, 0x52f))
	case 5:
		return rune(vfInt(t, 0x3041, 0x9fff))
	case 6:
		return rune(vfInt(t, 0x1f300, 0x1f64f))
	}
	return rune(vfInt(t, 0x10000, 0x10ffff))
}

func vfGenKey(t *rapid.T) KeyEvent {
	ev := KeyEvent{Code: KeyRune}
	if vfOneIn(t, 2) {
		ev.Code = vfAllCodes[vfInt(t, 0, len(vfAllCodes)-1)]
	}
	if ev.Code == KeyRune || vfOneIn(t, 8) {
		ev.Rune = vfGenRune(t)
	}
	ev.Mod = KeyMod(vfPick(t, 0, 1, vfInt(t, 0, 7), vfInt(t, 0, 255), 64, 128))
	ev.Event = KeyEventType(vfPick(t, 0, 1, 2, 3))
	if vfOneIn(t, 3) {
		ev.Shifted = vfGenRune(t)
	}
	if vfOneIn(t, 3) {
		ev.BaseLayout = vfGenRune(t)
	}
	if vfOneIn(t, 3) {
		for i, n := 0, vfInt(t, 1, 3); i < n; i++ {
			ev.Text = append(ev.Text, vfPick(t, vfGenRune(t), vfGenRune(t), vfGenRune(t), '\n', 0x7f, 0x9b, 1))
		}
	}
	return ev
}

func vfShrinkKeyHist(c any) []any {
	h := c.(vfKeyHist)
	var out []any
	for n := len(h.Ops) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(h.Ops); i += n {
			g := h
			g.Ops = append(append([]vfKeyOp(nil), h.Ops[:i]...), h.Ops[i+n:]...)
			out = append(out, g)
		}
	}
	return out
}

func vfRunKeyHist(c any, rep *vfRep) string {
	h := c.(vfKeyHist)
	if h.W == 0 {
		h.W, h.H = 4, 2
	}
	w := vfNewWorld(vfCfg{W: h.W, H: h.H, Short: h.Short}, false)
	var k [2]vfKbd
	act := 0
	var s vfKeyState
	for i, o := range h.Ops {
		if o.Seq.K == "" {
			s.Flags = k[act].flags
			if msg := vfSendKey(w, o.Ev, s); msg != "" {
				return fmt.Sprintf("op %d: %s", i, msg)
			}
			if s.Flags != 0 {
				rep.hit("key in a kitty mode")
			} else {
				rep.hit("key in a legacy mode")
			}
			continue
		}
		if !vfKbdSpecified(o.Seq) {
			return ""
		}
		if vfIsModeOp(o.Seq) {
			for j := range o.Seq.P {
				on := o.Seq.F == "h"
				switch o.Seq.par(j, 0) {
				case 1049:
					act = map[bool]int{true: 1, false: 0}[on]
				case 1:
					s.App = on
				}
			}
		}
		if o.Seq.K == "csi" && o.Seq.Pre == ">" && o.Seq.I == "" && o.Seq.F == "m" {
			if o.Seq.par(0, 0) != 4 || len(o.Seq.P) > 2 {
				return ""
			}
			s.MOK = o.Seq.par(1, 0)
		}
		k[act].apply(o.Seq)
		if w.do(o.Seq) != nil {
			return ""
		}
		w.take()
		if w.t.keyboardFlags() != k[act].flags {
			return "" // another property's business
		}
	}
	return ""
}

func init() {
	p := &vfProfile{}
	vfProps["C12"] = []vfSub{
		{name: "keys", enum: vfEnumKeys, run: vfRunC12, dec: vfDec[vfKeyCase], shrink: vfShrinkKey,
			rule: "enumerated: every key code, every printable ASCII and some other characters, with and without alternates and text, x all 256 modifier masks x press/repeat/release x all 32 flag sets, and x modifyOtherKeys 0/1/2 x application cursor keys; compared with an independent encoder of the protocol, Kitty forms also decoded; a case is one key in one mode"},
		{name: "distinct", run: vfRunInject, dec: vfDec[vfInject], rule: "enumerated: for every flag set that disambiguates, all keys x modifiers x event types have pairwise distinct encodings",
			enum: func(shard, shards int, thorough bool, yield func(any) bool) {
				n := 0
				for f := 0; f < 32; f++ {
					if f&int(KbdDisambiguate|KbdReportAllKeys) == 0 {
						continue
					}
					n++
					if n%shards == shard && !yield(vfInject{f}) {
						return
					}
				}
			}},
		{name: "history", weight: 100, run: vfRunKeyHist, dec: vfDec[vfKeyHist],
			gen: func(t *rapid.T) any {
				var h vfKeyHist
				if vfOneIn(t, 4) {
					h.Short = vfInt(t, 1, 6)
				}
				for i, n := 0, vfInt(t, 1, 24); i < n; i++ {
					if vfOneIn(t, 3) {
						o := vfGenOp(t, vfPick(t, "kbd", "kbd", "mok", "alt", "keypad", "appcur"), p, vfCfg{W: 4, H: 2})
						h.Ops = append(h.Ops, vfKeyOp{Seq: o})
					} else {
						h.Ops = append(h.Ops, vfKeyOp{Ev: vfGenKey(t)})
					}
				}
				return h
			},
			shrink: vfShrinkKeyHist,
			rule:   "random histories of flag pushes/pops/sets, modifyOtherKeys and application-cursor changes and screen switches with random key events (BMP and astral characters, alternates, text with controls) in between, sometimes with a backend that does short writes"},
	}
}

// ---------------------------------------------------------------- C13

type vfMouse struct {
	Btn   MouseBtn
	Press bool
	Mods  MouseFlag
	X, Y  int
}

var vfMouseModeNums = map[int]string{MMPress: "9", MMPressRelease: "1000", MMPressReleaseMove: "1002", MMPressReleaseMoveAll: "1003"}

// vfMouseCase is a button with all flags in one mode and encoding, at some
// coordinates.
type vfMouseCase struct {
	Mode, Enc int
	Urxvt     bool // select the UTF-8 encoding with 1015
	Btn       int
	Press     bool
	Flags     []int `json:",omitempty"` // nil: all
	Coords    [][2]int
	Pre       []string `json:",omitempty"` // other modes set before
}

// vfMouseWanted says whether the mode reports the event.
func vfMouseWanted(mode int, m vfMouse) bool {
	motion := m.Mods&MMotion != 0
	switch mode {
	case MMNone:
		return false
	case MMPress:
		return m.Press && !motion
	case MMPressRelease:
		return !motion
	case MMPressReleaseMove:
		return !motion || m.Btn != MRelease
	}
	return true
}

// vfMouseDecode reads one report; it fails if there is anything else.
func vfMouseDecode(enc int, out string) (b, x, y int, release bool, err error) {
	switch enc {
	case MESGR:
		var f byte
		if n, e := fmt.Sscanf(out, "\x1b[<%d;%d;%d%c", &b, &x, &y, &f); n != 4 || e != nil || f != 'M' && f != 'm' || fmt.Sprintf("\x1b[<%d;%d;%d%c", b, x, y, f) != out {
			return 0, 0, 0, false, fmt.Errorf("not an SGR report: %q", out)
		}
		return b, x, y, f == 'm', nil
	case MEX10:
		if len(out) != 6 || out[:3] != "\x1b[M" {
			return 0, 0, 0, false, fmt.Errorf("not an X10 report: %q", out)
		}
		return int(out[3]) - 32, int(out[4]) - 32, int(out[5]) - 32, out[3]-32&3 == 3, nil
	}
	if len(out) < 3 || out[:3] != "\x1b[M" || !utf8.ValidString(out) {
		return 0, 0, 0, false, fmt.Errorf("not a UTF-8 report: %q", out)
	}
	rs := []rune(out[3:])
	if len(rs) != 3 {
		return 0, 0, 0, false, fmt.Errorf("not one UTF-8 report: %q", out)
	}
	return int(rs[0]) - 32, int(rs[1]) - 32, int(rs[2]) - 32, (rs[0]-32)&3 == 3, nil
}

// vfMouseCheck judges what was written for one event.
func vfMouseCheck(mode, enc int, m vfMouse, out string) string {
	what := fmt.Sprintf("mode %d encoding %d: %+v", mode, enc, m)
	if !vfMouseWanted(mode, m) {
		if out != "" {
			return fmt.Sprintf("%s is excluded by the mode, but %q was written", what, out)
		}
		return ""
	}
	b, x, y, release, err := vfMouseDecode(enc, out)
	if err != nil {
		return fmt.Sprintf("%s: %v", what, err)
	}
	wx, wy := m.X, m.Y
	if enc == MEX10 {
		wx, wy = min(wx, 223), min(wy, 223)
	}
	if x != wx || y != wy {
		return fmt.Sprintf("%s: %q reports (%d,%d)", what, out, x, y)
	}
	flags := int(m.Mods)
	if b&^3 != flags {
		return fmt.Sprintf("%s: %q reports flags %d", what, out, b&^3)
	}
	if enc == MESGR {
		if release == m.Press || b&3 != int(m.Btn)&3 {
			return fmt.Sprintf("%s: %q reports button %d, release %v", what, out, b&3, release)
		}
		return ""
	}
	want := int(m.Btn) & 3
	if !m.Press {
		want = 3
	}
	if b&3 != want {
		return fmt.Sprintf("%s: %q reports button %d", what, out, b&3)
	}
	return ""
}

var vfMouseFlagSets = func() []int {
	// all sets of shift, alt, ctrl, motion, wheel
	var out []int
	for i := 0; i < 32; i++ {
		out = append(out, i<<2)
	}
	return out
}()

// vfMouseTerminal makes a terminal with the mode and encoding selected by the
// application.
func vfMouseTerminal(c vfMouseCase) (*vfWorld, error) {
	w := vfNewWorld(vfCfg{W: 8, H: 3}, false)
	var b strings.Builder
	for _, p := range c.Pre {
		b.WriteString("\x1b[?" + p)
	}
	if len(c.Pre) > 0 {
		b.WriteString("\x1b[?1000l\x1b[?1006l")
	}
	if n := vfMouseModeNums[c.Mode]; n != "" {
		b.WriteString("\x1b[?" + n + "h")
	}
	switch c.Enc {
	case MEUTF8:
		if c.Urxvt {
			b.WriteString("\x1b[?1015h")
		} else {
			b.WriteString("\x1b[?1005h")
		}
	case MESGR:
		b.WriteString("\x1b[?1006h")
	}
	if err := w.feed([]byte(b.String()), nil); err != nil {
		return nil, err
	}
	if w.t.viewInts[VIMouseMode] != c.Mode || w.t.viewInts[VIMouseEncoding] != c.Enc {
		return w, fmt.Errorf("after %q the mouse mode is %d and the encoding %d", b.String(), w.t.viewInts[VIMouseMode], w.t.viewInts[VIMouseEncoding])
	}
	w.take()
	return w, nil
}

type vfMouseSender interface {
	SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error
}

func vfRunC13(c any, rep *vfRep) string {
	k := c.(vfMouseCase)
	w, err := vfMouseTerminal(k)
	if err != nil {
		return err.Error()
	}
	flags := k.Flags
	if flags == nil {
		flags = vfMouseFlagSets
	}
	if rep.labels == nil {
		rep.labels = map[string]int{}
	}
	var t any = w.t
	for _, f := range flags {
		for _, co := range k.Coords {
			m := vfMouse{MouseBtn(k.Btn), k.Press, MouseFlag(f), co[0], co[1]}
			if err := t.(vfMouseSender).SendMouseRaw(m.Btn, m.Press, m.Mods, m.X, m.Y); err != nil {
				return fmt.Sprintf("%+v: %v", m, err)
			}
			out := w.take()
			if msg := vfMouseCheck(k.Mode, k.Enc, m, out); msg != "" {
				return msg
			}
			if out != "" {
				rep.nontrivial = true
				rep.labels["reports"]++
				if co[0] > 95 || co[1] > 95 {
					rep.labels["coordinates above 95"]++
				}
			} else {
				rep.labels["filtered events"]++
			}
		}
	}
	return ""
}

var vfMouseEdges = []int{1, 2, 94, 95, 96, 97, 127, 128, 129, 191, 192, 222, 223, 224, 225, 254, 255, 256, 257, 511, 512, 1000, 2014, 2015, 2016, 2017, 9999, 30000, 60000, 65503, 65504, 70000}

func vfEnumMouse(shard, shards int, thorough bool, yield func(any) bool) {
	n := 0
	var coords [][2]int
	for i, x := range vfMouseEdges {
		coords = append(coords, [2]int{x, 1}, [2]int{1, x}, [2]int{x, x}, [2]int{x, vfMouseEdges[(i*7+3)%len(vfMouseEdges)]})
	}
	for mode := MMNone; mode <= MMPressReleaseMoveAll; mode++ {
		for enc := MEX10; enc <= MESGR; enc++ {
			for btn := 0; btn < 4; btn++ {
				for press := 0; press < 2; press++ {
					for part := 0; part < len(coords); part += 16 {
						n++
						if n%shards != shard {
							continue
						}
						k := vfMouseCase{Mode: mode, Enc: enc, Btn: btn, Press: press == 1, Coords: coords[part:min(part+16, len(coords))], Urxvt: n%3 == 0}
						if !yield(k) {
							return
						}
					}
				}
			}
		}
	}
	if !thorough {
		return
	}
	// every coordinate up to 2100
	for enc := MEX10; enc <= MESGR; enc++ {
		for x := 1; x <= 2100; x++ {
			n++
			if n%shards != shard {
				continue
			}
			if !yield(vfMouseCase{Mode: MMPressReleaseMoveAll, Enc: enc, Btn: x % 4, Press: x%3 != 0, Coords: [][2]int{{x, 2101 - x}, {2101 - x, x}}}) {
				return
			}
		}
	}
}

func vfShrinkMouse(c any) []any {
	k := c.(vfMouseCase)
	var out []any
	if k.Flags == nil {
		for _, f := range vfMouseFlagSets {
			d := k
			d.Flags = []int{f}
			out = append(out, d)
		}
	}
	if len(k.Coords) > 1 {
		for _, co := range k.Coords {
			d := k
			d.Coords = [][2]int{co}
			out = append(out, d)
		}
	}
	for i := range k.Pre {
		d := k
		d.Pre = append(append([]string(nil), k.Pre[:i]...), k.Pre[i+1:]...)
		out = append(out, d)
	}
	return out
}

// vfFaultWriter writes what its script allows: each entry is the number of bytes
// accepted by one Write; a negative entry fails after -n-1 bytes. Afterwards all
// is accepted.
type vfFaultWriter struct {
	script []int
	got    []byte
	calls  int
	failed bool
}

var errVfWrite = errors.New("the backend failed")

func (f *vfFaultWriter) Write(p []byte) (int, error) {
	f.calls++
	n := len(p)
	var err error
	if len(f.script) > 0 {
		e := f.script[0]
		f.script = f.script[1:]
		if e < 0 {
			n, err = min(-e-1, len(p)), errVfWrite
			f.failed = true
		} else {
			n = min(e, len(p))
		}
	}
	f.got = append(f.got, p[:n]...)
	return n, err
}
func (f *vfFaultWriter) Read(p []byte) (int, error) { return 0, io.EOF }
func (f *vfFaultWriter) SetSize(w, h int) error     { return nil }

// vfMouseFault is a mouse event sent through a failing or short-writing backend.
type vfMouseFault struct {
	Mode, Enc int
	Ev        vfMouse
	Script    []int
}

func vfRunMouseFault(c any, rep *vfRep) string {
	k := c.(vfMouseFault)
	ok, err := vfMouseTerminal(vfMouseCase{Mode: k.Mode, Enc: k.Enc})
	if err != nil {
		return err.Error()
	}
	if err := ok.t.SendMouseRaw(k.Ev.Btn, k.Ev.Press, k.Ev.Mods, k.Ev.X, k.Ev.Y); err != nil {
		return err.Error()
	}
	want := ok.take()
	fw := &vfFaultWriter{script: append([]int(nil), k.Script...)}
	w, err := vfMouseTerminal(vfMouseCase{Mode: k.Mode, Enc: k.Enc})
	if err != nil {
		return err.Error()
	}
	w.t.backend = fw
	err = w.t.SendMouseRaw(k.Ev.Btn, k.Ev.Press, k.Ev.Mods, k.Ev.X, k.Ev.Y)
	got := string(fw.got)
	if !strings.HasPrefix(want, got) {
		return fmt.Sprintf("mode %d encoding %d %+v with writes %v: wrote %q, the report is %q", k.Mode, k.Enc, k.Ev, k.Script, got, want)
	}
	if err == nil && got != want {
		return fmt.Sprintf("mode %d encoding %d %+v with writes %v: only %q of %q was written, but no error returned", k.Mode, k.Enc, k.Ev, k.Script, got, want)
	}
	if fw.failed && err == nil {
		return fmt.Sprintf("mode %d encoding %d %+v with writes %v: a failed write was not returned", k.Mode, k.Enc, k.Ev, k.Script)
	}
	if err != nil && !fw.failed && !errors.Is(err, io.ErrShortWrite) {
		return fmt.Sprintf("mode %d encoding %d %+v with writes %v: error %v", k.Mode, k.Enc, k.Ev, k.Script, err)
	}
	if want == "" && fw.calls > 0 {
		return fmt.Sprintf("mode %d encoding %d %+v: an excluded event was written", k.Mode, k.Enc, k.Ev)
	}
	if fw.failed {
		rep.hit("failed write")
	} else if len(k.Script) > 0 && want != "" {
		rep.hit("short write")
	}
	return ""
}

func vfGenMouse(t *rapid.T) vfMouse {
	co := func() int {
		return vfPick(t, vfInt(t, 1, 80), vfInt(t, 90, 300), vfMouseEdges[vfInt(t, 0, len(vfMouseEdges)-1)])
	}
	return vfMouse{MouseBtn(vfInt(t, 0, 3)), vfBool(t), MouseFlag(vfMouseFlagSets[vfInt(t, 0, 31)]), co(), co()}
}

func init() {
	vfProps["C13"] = []vfSub{
		{name: "reports", enum: vfEnumMouse, run: vfRunC13, dec: vfDec[vfMouseCase], shrink: vfShrinkMouse,
			rule: "enumerated: 5 modes x 3 encodings x 4 buttons x press/release x 32 flag sets x coordinates at all encoding boundaries (thorough: every coordinate up to 2100); an independent filter and decoder say whether there is exactly one report and what it says; non-trivial: at least one report"},
		{name: "modes", weight: 60, run: vfRunC13, dec: vfDec[vfMouseCase], shrink: vfShrinkMouse,
			gen: func(t *rapid.T) any {
				k := vfMouseCase{Mode: vfInt(t, 0, 4), Enc: vfInt(t, 0, 2), Urxvt: vfOneIn(t, 3), Btn: vfInt(t, 0, 3), Press: vfBool(t)}
				for i, n := 0, vfInt(t, 1, 4); i < n; i++ {
					m := vfGenMouse(t)
					k.Coords = append(k.Coords, [2]int{m.X, m.Y})
				}
				for i, n := 0, vfInt(t, 0, 4); i < n; i++ {
					k.Pre = append(k.Pre, vfPick(t, "9", "1000", "1002", "1003", "1005", "1006", "1015", "1049", "1;25", "1000;1006")+vfPick(t, "h", "l"))
				}
				return k
			}, rule: "random events after other modes were set and reset by the application"},
		{name: "faults", weight: 60, run: vfRunMouseFault, dec: vfDec[vfMouseFault],
			gen: func(t *rapid.T) any {
				k := vfMouseFault{Mode: vfInt(t, 1, 4), Enc: vfInt(t, 0, 2), Ev: vfGenMouse(t)}
				for i, n := 0, vfInt(t, 0, 4); i < n; i++ {
					k.Script = append(k.Script, vfInt(t, 1, 6))
				}
				if vfOneIn(t, 2) {
					k.Script = append(k.Script, -1-vfInt(t, 0, 8))
				} else if vfOneIn(t, 3) {
					k.Script = append(k.Script, 0) // writes nothing, without an error
				}
				return k
			}, rule: "random events through a backend that accepts a few bytes per write, fails after some bytes, or accepts none: what is written is a prefix of the report, all of it unless an error is returned, and a failure is returned"},
	}
}
