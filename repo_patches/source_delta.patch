From bb26bddf7ca33c97e4e01f1e03c2b6bfc58c087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 01/61] fix: Region.Clamp bounds Y2 by the clamp region's
 height

Y2 was clamped to rc.X2, so erasing on a screen taller than it is wide
stopped short of the bottom rows.
---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From fe9ca92ca89ac4f202c6d142ce46096e18cc4265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 02/61] fix: saturate CSI parameters instead of overflowing int

---
 escapes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/escapes.go b/escapes.go
index a70bc01..3346e1d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -252,6 +252,9 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 	return true
 }
 
+// maxCSIParam bounds CSI parameters so that arithmetic on them cannot overflow.
+const maxCSIParam = 1<<30 - 1
+
 func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	b, err := r.ReadByte()
@@ -295,6 +298,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			sawSeparator = true
 		} else {
 			param = param*10 + int(b-'0')
+			if param > maxCSIParam {
+				param = maxCSIParam
+			}
 			paramSet = true
 			sawSeparator = false
 		}
-- 
2.43.0


From 740d7ddc9e14b09684e9552d0c2e1bddf24ebbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 03/61] fix: keep every CSI parameter instead of dropping those
 after the eighth

A long SGR (or DEC private mode) list lost its tail; the fold must see all
of its parameters.
---
 escapes.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3346e1d..645a02d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -279,6 +279,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
+	params := paramStore[:0]
 	paramCount := 0
 	param := 0
 	paramSet := false
@@ -289,10 +290,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if paramSet || sawSeparator || paramCount > 0 {
 				value = param
 			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, value)
+			paramCount++
 			param = 0
 			paramSet = false
 			sawSeparator = true
@@ -318,14 +317,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramSet {
 			value = param
 		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, value)
+		paramCount++
 	}
 
-	params := paramStore[:paramCount]
-
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From 68b3b9cd34a70f3da070ec92bc6efb8a8833c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 04/61] fix: omitted CSI parameters take the default of their
 function

---
 escapes.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/escapes.go b/escapes.go
index 645a02d..b0f649f 100644
--- a/escapes.go
+++ b/escapes.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 )
 
 // colorModes maps SGR codes 1-7 to their Mode values
@@ -255,6 +256,9 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 // maxCSIParam bounds CSI parameters so that arithmetic on them cannot overflow.
 const maxCSIParam = 1<<30 - 1
 
+// omittedCSIParam marks an empty parameter, as the first one in "CSI ; 5 H".
+const omittedCSIParam = -1
+
 func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	b, err := r.ReadByte()
@@ -286,8 +290,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	sawSeparator := false
 	for b == ';' || (b >= '0' && b <= '9') {
 		if b == ';' {
-			value := 0
-			if paramSet || sawSeparator || paramCount > 0 {
+			value := omittedCSIParam
+			if paramSet {
 				value = param
 			}
 			params = append(params, value)
@@ -313,7 +317,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		}
 	}
 	if paramSet || sawSeparator {
-		value := 0
+		value := omittedCSIParam
 		if paramSet {
 			value = param
 		}
@@ -321,6 +325,18 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		paramCount++
 	}
 
+	// An omitted parameter takes the default value of its function: 1 for the
+	// functions that take a count or a position, 0 for everything else.
+	defaultParam := 0
+	if prefix == 0 && strings.IndexByte("ABCDGHLMPSTXdf", b) >= 0 {
+		defaultParam = 1
+	}
+	for i := range params {
+		if params[i] == omittedCSIParam {
+			params[i] = defaultParam
+		}
+	}
+
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From 8f4fa2b28577a2951effc508d57ab67f48f36d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:59 +0000
Subject: [PATCH 05/61] fix: consume CSI sub-parameters and intermediate bytes
 with their sequence

---
 escapes.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/escapes.go b/escapes.go
index b0f649f..2492c13 100644
--- a/escapes.go
+++ b/escapes.go
@@ -288,8 +288,12 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	param := 0
 	paramSet := false
 	sawSeparator := false
-	for b == ';' || (b >= '0' && b <= '9') {
-		if b == ';' {
+	ignore := false
+	for b >= 0x30 && b <= 0x3f {
+		if b < '0' || b > '9' && b != ';' {
+			// sub-parameters and misplaced private markers are not supported
+			ignore = true
+		} else if b == ';' {
 			value := omittedCSIParam
 			if paramSet {
 				value = param
@@ -325,6 +329,22 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		paramCount++
 	}
 
+	// No sequence with intermediate bytes is supported
+	for b >= 0x20 && b <= 0x2f {
+		ignore = true
+		b, err = r.ReadByte()
+		if err != nil {
+			if err != io.EOF {
+				debugPrintln(debugErrors, "ERR ReadByte10:", err)
+			}
+			return true
+		}
+	}
+	if ignore {
+		debugPrintf(debugTodo, "TODO: Unhandled CSI sequence: %v %#v\n", append([]int(nil), params...), string(b))
+		return true
+	}
+
 	// An omitted parameter takes the default value of its function: 1 for the
 	// functions that take a count or a position, 0 for everything else.
 	defaultParam := 0
@@ -735,14 +755,6 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				debugPrintln(debugTodo, "TODO: Unhandled DSR params: ", append([]int(nil), params...))
 			}
 
-		case '%': // Select character set (ignored)
-			// ignored
-
-		case '<': // SGR mouse or other private mode (ignored)
-			if *debugCmd {
-				debugPrintf(debugCmd, "CSI < params: %v\n", append([]int(nil), params...))
-			}
-
 		default:
 			debugPrintf(debugTodo, "TODO: Unhandled CSI Command: %v %#v\n", append([]int(nil), params...), string(b))
 			return true
-- 
2.43.0


From 119c5cb22c1a292e2e778ca8b563f08eb116af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 06/61] fix: consume ESC sequences with intermediate bytes
 whole

---
 escapes.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 2492c13..1c4f527 100644
--- a/escapes.go
+++ b/escapes.go
@@ -229,8 +229,7 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 			}
 			return false
 		}
-		_ = C
-		return true
+		return skipIntermediates(r, C)
 
 	case '=': // Application Keypad
 		t.setViewFlag(VFAppKeypad, true)
@@ -248,11 +247,31 @@ func (t *terminal) handleCommand(r escapeReader) bool {
 		debugPrintln("Memory Unlock") // TODO*/
 
 	default:
+		if b >= 0x20 && b <= 0x2f {
+			return skipIntermediates(r, b)
+		}
 		return false
 	}
 	return true
 }
 
+// skipIntermediates consumes the rest of an ESC sequence with intermediate
+// bytes, up to and including its final byte. b is the first byte after ESC or
+// after the first intermediate.
+func skipIntermediates(r escapeReader, b byte) bool {
+	for b >= 0x20 && b <= 0x2f {
+		var err error
+		b, err = r.ReadByte()
+		if err != nil {
+			if err != io.EOF {
+				debugPrintln(debugErrors, "ERR ReadByte11:", err)
+			}
+			return false
+		}
+	}
+	return true
+}
+
 // maxCSIParam bounds CSI parameters so that arithmetic on them cannot overflow.
 const maxCSIParam = 1<<30 - 1
 
-- 
2.43.0


From bdf68172295f2ebae7283f260ca646c8bb801d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 07/61] fix: CUD stops at the bottom instead of scrolling

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 1c4f527..74d65c7 100644
--- a/escapes.go
+++ b/escapes.go
@@ -391,7 +391,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if paramCount == 0 {
 				paramStore[0] = 1
-- 
2.43.0


From 57a82423e66a322a17c8d95d7a31a983d43d8493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 08/61] fix: EL 1 erases through the cursor position

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 74d65c7..bffd9cb 100644
--- a/escapes.go
+++ b/escapes.go
@@ -623,7 +623,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From f69ebd695c413d18539bf157fe62d19221fe9669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 09/61] fix: IL and DL do nothing when the cursor is outside
 the scroll region

---
 escapes.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index bffd9cb..790e62d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -698,7 +698,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -706,7 +708,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.cursorInScrollRegion() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
@@ -959,6 +963,11 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 	return true
 }
 
+func (t *terminal) cursorInScrollRegion() bool {
+	y := t.screen().CursorPos().Y
+	return y >= t.screen().TopMargin() && y <= t.screen().BottomMargin()
+}
+
 func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	paramBytes := []byte{}
 	var err error
-- 
2.43.0


From 704ac803ec6acb0ab4102e37d0e490421a4f7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 10/61] fix: DECSTBM ignores inverted margins and defaults an
 omitted or zero bottom

---
 escapes.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/escapes.go b/escapes.go
index 790e62d..a2086e6 100644
--- a/escapes.go
+++ b/escapes.go
@@ -752,14 +752,16 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		case 'r': // Set Scroll margins
 			top := 1
 			bottom := t.screen().Size().Y
-			if len(params) >= 1 {
+			if len(params) >= 1 && params[0] > 0 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] > 0 {
 				bottom = params[1]
 			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
-			t.screen().setScrollMarginTopBottom(top-1, bottom-1)
+			if top <= bottom {
+				t.screen().setScrollMarginTopBottom(top-1, bottom-1)
+			}
 
 		case 'n': // Device Status Report
 			if paramCount == 0 {
-- 
2.43.0


From e7f7041e02321f04f4224e41681fdbd96dcd8a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 11/61] fix: CSI c without a parameter is a primary device
 attributes query

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a2086e6..dc962ed 100644
--- a/escapes.go
+++ b/escapes.go
@@ -417,7 +417,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From fa7a1351978406d114a24a0d670ee0eef657b916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 12/61] fix: do not apply the parameters of a truncated
 extended color as modes

---
 escapes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/escapes.go b/escapes.go
index dc962ed..6d7ebd1 100644
--- a/escapes.go
+++ b/escapes.go
@@ -564,11 +564,15 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 								}
 								style.SetColorRGB(component, params[i+2], params[i+3], params[i+4])
 								i += 4
+							} else {
+								i = len(params) // truncated
 							}
 						default:
 							debugPrintln(debugTodo, "TODO: unhandled extended color: ", params[i+1])
 							continue
 						}
+					} else {
+						i = len(params) // truncated
 					}
 
 				case p >= 90 && p <= 97:
-- 
2.43.0


From 00c24987bf7a5dae1e0a0f63886dfb7b6bbf495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 13/61] fix: ?1049 selects a screen instead of toggling

---
 escapes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index 6d7ebd1..02cf8a3 100644
--- a/escapes.go
+++ b/escapes.go
@@ -876,7 +876,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if t.onAltScreen != value {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
-- 
2.43.0


From 6d53062476ac0605920ab3edc6824546d93c46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 14/61] fix: announce the cursor and style of the screen
 switched to

---
 terminal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminal.go b/terminal.go
index 245d013..bf9ab02 100644
--- a/terminal.go
+++ b/terminal.go
@@ -330,6 +330,9 @@ func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
 	size := t.screen().Size()
 	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	cursorPos := t.screen().CursorPos()
+	t.frontend.CursorMoved(cursorPos.X, cursorPos.Y)
+	t.frontend.StyleChanged(t.screen().Style())
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From 04c64c36db066d784a36aae58bcc059c22f70590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:59 +0000
Subject: [PATCH 15/61] fix: a 0x9c byte inside a UTF-8 character does not
 terminate OSC or DCS

---
 escapes.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 02cf8a3..3f4c94d 100644
--- a/escapes.go
+++ b/escapes.go
@@ -999,6 +999,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	param, _ := strconv.Atoi(string(paramBytes))
 
 	param2 := []byte{}
+	var utf8Tail utf8Tail
 
 	if b == ';' {
 		// skip the ';'
@@ -1010,9 +1011,10 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 				}
 				return false
 			}
-			if b == 7 || b == 0x9c { // BEL , ST
+			if b == 7 || b == 0x9c && !utf8Tail.inside() { // BEL , ST
 				break
 			}
+			utf8Tail.next(b)
 			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
 				param2 = param2[:len(param2)-1]
 				break
@@ -1065,8 +1067,32 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 	return true
 }
 
+// utf8Tail tracks how many continuation bytes are left of a UTF-8 character, to
+// tell the C1 control ST from a 0x9c byte inside a character.
+type utf8Tail int
+
+func (u *utf8Tail) inside() bool {
+	return *u > 0
+}
+
+func (u *utf8Tail) next(b byte) {
+	switch {
+	case b >= 0xf0 && b <= 0xf4:
+		*u = 3
+	case b >= 0xe0 && b <= 0xef:
+		*u = 2
+	case b >= 0xc2 && b <= 0xdf:
+		*u = 1
+	case *u > 0 && b >= 0x80 && b <= 0xbf:
+		*u--
+	default:
+		*u = 0
+	}
+}
+
 func (t *terminal) handleDCS(r escapeReader) bool {
 	prev := byte(0)
+	var utf8Tail utf8Tail
 	var payload []byte
 	for {
 		b, err := r.ReadByte()
@@ -1076,7 +1102,7 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
+		if b == 0x9c && !utf8Tail.inside() {
 			if *debugCmd {
 				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
 			}
@@ -1094,6 +1120,7 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 		if *debugCmd {
 			payload = append(payload, b)
 		}
+		utf8Tail.next(b)
 		prev = b
 	}
 }
-- 
2.43.0


From 3b59992079ce2e5752ddc2c4a690fda2ea0a71f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 16/61] fix: consume OSC commands without a number and
 separator up to their terminator

---
 escapes.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3f4c94d..b8b98f4 100644
--- a/escapes.go
+++ b/escapes.go
@@ -1023,8 +1023,26 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 			param2 = append(param2, byte(b))
 		}
 	} else if b != 7 && b != 0x9c { // BEL, ST
-		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
-		return false
+		// ESC \ is also ST; anything else is not a command we know, so skip it
+		skipped := []byte{b}
+		for !bytes.HasSuffix(skipped, []byte("\x1b\\")) {
+			utf8Tail.next(b)
+			b, err = r.ReadByte()
+			if err != nil {
+				if err != io.EOF {
+					debugPrintln(debugErrors, "ERR ReadByte12:", err)
+				}
+				return false
+			}
+			if b == 7 || b == 0x9c && !utf8Tail.inside() { // BEL , ST
+				break
+			}
+			skipped = append(skipped, b)
+		}
+		if string(skipped) != "\x1b\\" {
+			debugPrintf(debugErrors, "OSC command number not followed by ;, BEL, or ST? %#v\n", string(skipped))
+			return true
+		}
 	}
 
 	switch param {
-- 
2.43.0


From a5642bc5bf57b535240b1e9901b1ef5319584c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 17/61] fix: release the lock while waiting inside an escape
 sequence, and stop on its read error

---
 escapes.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index b8b98f4..406a8e1 100644
--- a/escapes.go
+++ b/escapes.go
@@ -136,10 +136,11 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 
 	case 27: // ESC ^[ Escape Character
 
+		cmdSource := &unlockingReader{t: t, r: gr}
 		t.WithLock(func() {
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: cmdSource, buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -149,9 +150,12 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(cmdSource)
 			}
 		})
+		if cmdSource.err != nil {
+			return cmdSource.err
+		}
 
 	case 127: // DEL  Delete Character (treat as backspace)
 		t.WithLock(func() {
@@ -168,6 +172,27 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// unlockingReader reads the bytes of an escape sequence for handleCommand, which
+// runs with the terminal locked: it releases the lock while waiting for more
+// input, and keeps the error that ended the input, if any.
+type unlockingReader struct {
+	t   *terminal
+	r   *GraphemeReader
+	err error
+}
+
+func (u *unlockingReader) ReadByte() (byte, error) {
+	if u.r.Buffered() == 0 {
+		u.t.Unlock()
+		defer u.t.Lock()
+	}
+	b, err := u.r.ReadByte()
+	if err != nil {
+		u.err = err
+	}
+	return b, err
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From 61a501e4d32a24a4b46d559bf2aa445dda782e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 18/61] fix: read the screen state under the lock in the read
 loop

---
 escapes.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/escapes.go b/escapes.go
index 406a8e1..68a3f02 100644
--- a/escapes.go
+++ b/escapes.go
@@ -37,12 +37,14 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 	})
 	if useBytes {
 		maxWidth := 0
-		if t.screen().AutoWrap() {
-			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
-			if maxWidth < 1 {
-				maxWidth = 1
+		t.WithLock(func() {
+			if t.screen().AutoWrap() {
+				maxWidth = t.screen().Size().X - t.screen().CursorPos().X
+				if maxWidth < 1 {
+					maxWidth = 1
+				}
 			}
-		}
+		})
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
-- 
2.43.0


From a0273893a4d3b90b069b951353556c65b8e1dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 19/61] fix: keep an error that a read returns together with
 data

---
 grapheme_reader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..0176758 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -37,6 +37,7 @@ type GraphemeReader struct {
 	forceMergeNext bool
 	lastWasRI      bool
 	mode           TextReadMode
+	pendingErr     error
 }
 
 const graphemeReadBufferSize = 4096
@@ -237,9 +238,16 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
+	if err := r.pendingErr; err != nil {
+		r.pendingErr = nil
+		return err
+	}
 	n, err := r.src.Read(r.data[r.end:])
 	if n > 0 {
 		r.end += n
+		// report the error once the bytes that came with it are used up
+		r.pendingErr = err
+		return nil
 	}
 	return err
 }
-- 
2.43.0


From 8d4e69f103c8dd0434d9eed58150dca82acd6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 20/61] fix: a zero-length read neither loses the next byte nor
 ends the input

---
 grapheme_reader.go | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 0176758..5000774 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -77,13 +77,13 @@ func (r *GraphemeReader) Buffered() int {
 // the total cell width returned; pass <=0 for unlimited. merge is true when the
 // returned text should be merged into the previous cell.
 func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, error) {
-	if r.Buffered() == 0 {
+	for r.Buffered() == 0 {
 		err := r.fill()
 		if err != nil && r.Buffered() == 0 {
 			return "", 0, false, err
 		}
 	}
-	if r.Buffered() == 0 || !isPrintableByte(r.data[r.start]) {
+	if !isPrintableByte(r.data[r.start]) {
 		return "", 0, false, nil
 	}
 
@@ -116,11 +116,8 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 				before := r.Buffered()
 				err := r.fill()
 				runStart = r.start
-				if r.Buffered() == before {
-					if err != nil {
-						return "", 0, false, err
-					}
-					return "", 0, false, io.EOF
+				if r.Buffered() == before && err != nil {
+					return "", 0, false, err
 				}
 				continue
 			}
@@ -168,7 +165,7 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 	out := dst[:0]
 	widthUsed := 0
 	for {
-		if r.Buffered() == 0 {
+		for r.Buffered() == 0 {
 			if len(out) > 0 {
 				return out, nil
 			}
@@ -179,9 +176,6 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 				}
 			}
 		}
-		if r.Buffered() == 0 {
-			return out, nil
-		}
 		if !isPrintableByte(r.data[r.start]) {
 			return out, nil
 		}
@@ -193,11 +187,8 @@ func (r *GraphemeReader) ReadPrintableTokensInto(maxWidth int, dst []GraphemeTok
 			}
 			before := r.Buffered()
 			err := r.fill()
-			if r.Buffered() == before {
-				if err != nil {
-					return nil, err
-				}
-				return nil, io.EOF
+			if r.Buffered() == before && err != nil {
+				return nil, err
 			}
 			continue
 		}
-- 
2.43.0


From 9a72d5d77945c8d3b366a39130650be8c55bee15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 21/61] fix: forget the text segmentation state at a control
 byte

---
 grapheme_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 5000774..65e7bfe 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -65,6 +65,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// the text on both sides of this byte does not combine
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
-- 
2.43.0


From a0d45548c707bda7900d65c396f5c3b5d5e6d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 22/61] fix: do not reuse the segmenter state for text read
 after it was computed

---
 grapheme_reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 65e7bfe..0d40780 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -278,7 +278,10 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 	if !utf8.FullRune(buf) {
 		return nil, 0, 0, state, false
 	}
-	cluster, rest, boundaries, newState := uniseg.Step(buf, state)
+	// Every call starts at a cluster boundary, so no state is needed from the
+	// bytes before buf. uniseg's state also describes the first rune of buf, which
+	// had not been read yet when state was computed at the end of the last buffer.
+	cluster, rest, boundaries, newState := uniseg.Step(buf, -1)
 	if cluster == nil {
 		return nil, 0, 0, state, false
 	}
-- 
2.43.0


From 0f39d305b01ee6d64e47ee2f1fcc25ae80632576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 23/61] fix: give zero-width graphemes one cell, as every text
 write does

---
 grapheme_reader.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 0d40780..e7aee5a 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -286,6 +286,9 @@ func stepGraphemeCluster(buf []byte, state int) ([]byte, int, int, int, bool) {
 		return nil, 0, 0, state, false
 	}
 	width := boundaries >> uniseg.ShiftWidth
+	if width <= 0 {
+		width = 1
+	}
 	consumed := len(buf) - len(rest)
 	return cluster, consumed, width, newState, true
 }
-- 
2.43.0


From 9624085e40bf4e95f326e71a3a7959f169fe242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:38 +0000
Subject: [PATCH 24/61] fix: only a lone regional indicator pairs up across
 reads, and merges are runs of their own

---
 grapheme_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index e7aee5a..e766cad 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -127,7 +127,7 @@ func (r *GraphemeReader) ReadPrintableBytes(maxWidth int) (string, int, bool, er
 			}
 			break
 		}
-		if mergeRun && !merge {
+		if mergeRun != merge && r.start > runStart {
 			break
 		}
 
@@ -330,7 +330,7 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 		nextForceMergeNext = true
 	case isVariationSelectorOnly(cluster):
 		merge = true
-	case isRegionalIndicator(cluster):
+	case isRegionalIndicator(cluster) && utf8.RuneCount(cluster) == 1:
 		if nextLastWasRI {
 			merge = true
 			nextLastWasRI = false
-- 
2.43.0


From c659c8dc998b94c9f5b4f4545e7963ac616d9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:57 +0000
Subject: [PATCH 25/61] fix: limit scroll counts to the height of the scrolled
 region

---
 screen.go      | 5 +++--
 screen_grid.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 4d652f9..c08e0e3 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 )
 
@@ -435,8 +434,10 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y1 = clamp(y1, 0, s.size.Y-1)
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		debugPrintln(debugErrors, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..d655f96 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 	"unicode/utf8"
 
@@ -579,8 +578,10 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// 	fmt.Println("scroll outside margin", y, s.topMargin, s.bottomMargin)
 	// }
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		debugPrintln(debugErrors, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
-- 
2.43.0


From 81c54db27894d16a74595d410393fe899e31b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 26/61] fix: index and line feed scroll only from inside the
 scroll region

---
 screen.go      |  9 +++++----
 screen_grid.go | 16 +++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/screen.go b/screen.go
index c08e0e3..cfd0af9 100644
--- a/screen.go
+++ b/screen.go
@@ -466,6 +466,7 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	fromY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -483,17 +484,17 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only moving out of the scroll region scrolls it
+		if fromY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if fromY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index d655f96..f983dfd 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -630,6 +630,7 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	fromY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -647,23 +648,24 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		// only moving out of the scroll region scrolls it
+		if fromY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if fromY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
+	} /* else {
+		for s.cursorPos.Y < 0 {
 			s.cursorPos.Y += s.size.Y
 		}
 		for s.cursorPos.Y >= s.size.Y {
 			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
-	}
+		}
+	}*/
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From df83ceb2de8bb721f33afc7f2ef4d2b41e87b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 27/61] fix: announce lines scrolled off the top of the main
 screen with ScrollLines

---
 frontend.go    | 12 ++++++++++--
 screen.go      |  3 +++
 screen_grid.go |  3 +++
 terminal.go    |  4 ++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/frontend.go b/frontend.go
index 27c1474..ae8a0f9 100644
--- a/frontend.go
+++ b/frontend.go
@@ -81,8 +81,8 @@ type Frontend interface {
 	RegionChanged(Region, ChangeReason)
 
 	// ScrollLines is called when lines are about to be scrolled off the
-	// top of the main (not alternate) screen. If you want to save to a scrollback
-	// buffer, do it now.
+	// top of the main (not alternate) screen. y is the number of lines. If you want
+	// to save to a scrollback buffer, do it now.
 	ScrollLines(y int)
 	CursorMoved(x, y int)
 	StyleChanged(s Style)
@@ -91,6 +91,14 @@ type Frontend interface {
 	ViewStringChanged(vs ViewString, value string)
 }
 
+// altScreenFrontend is the frontend of the alternate screen, whose lines do not
+// go to the scrollback.
+type altScreenFrontend struct {
+	Frontend
+}
+
+func (altScreenFrontend) ScrollLines(y int) {}
+
 // EmptyFrontend is a simple frontend that does nothing
 type EmptyFrontend struct{}
 
diff --git a/screen.go b/screen.go
index cfd0af9..e5ae671 100644
--- a/screen.go
+++ b/screen.go
@@ -450,6 +450,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 		debugPrintln(debugScroll, "scroll changed region:", Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X})
 		s.frontend.RegionChanged(Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X}, CRScroll)
 	} else {
+		if y1 == 0 && dy < 0 {
+			s.frontend.ScrollLines(-dy)
+		}
 		for y := y1; y <= y2+dy; y++ {
 			s.lines[y] = s.lines[y-dy]
 		}
diff --git a/screen_grid.go b/screen_grid.go
index f983dfd..09c5d1e 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -597,6 +597,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 		debugPrintln(debugScroll, "scroll changed region:", Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X})
 		s.eraseRegion(Region{Y: y1, Y2: y1 + dy, X: 0, X2: s.size.X}, CRScroll)
 	} else {
+		if y1 == 0 && dy < 0 {
+			s.frontend.ScrollLines(-dy)
+		}
 		for y := y1; y <= y2+dy; y++ {
 			// fmt.Println("   3: ", y, y1, y2+dy)
 			copy(s.chars[y], s.chars[y-dy])
diff --git a/terminal.go b/terminal.go
index bf9ab02..397c72f 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altScreenFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -95,7 +95,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altScreenFrontend{f})
 }
 
 // func NewNoPTY(f Frontend) Terminal {
-- 
2.43.0


From d9044eb230c16e1882433135db7a0e43dcb16d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 28/61] fix: resizing brings the cursor, saved cursor and
 scroll region inside the screen

---
 screen.go      | 15 +++++++++------
 screen_grid.go | 16 +++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/screen.go b/screen.go
index e5ae671..5fd1d5d 100644
--- a/screen.go
+++ b/screen.go
@@ -274,18 +274,21 @@ func (s *spanScreen) setSize(w, h int) {
 	s.lines = newLines
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	if s.topMargin > s.bottomMargin || s.bottomMargin >= h {
+		// the scroll region does not fit the new size
+		s.topMargin = 0
+		s.bottomMargin = h - 1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 09c5d1e..a150898 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -267,16 +267,18 @@ func (s *gridScreen) setSize(w, h int) {
 	s.cellStyles = styleRect
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
+	if s.topMargin > s.bottomMargin || s.bottomMargin >= h {
+		// the scroll region does not fit the new size
+		s.topMargin = 0
+		s.bottomMargin = h - 1
+	}
 
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
-- 
2.43.0


From c15bdc4dfa88aba58e85eda2b6f6a1e6200670c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 29/61] fix: Resize holds the lock and announces the screen and
 cursor it changed

---
 screen.go      | 2 --
 screen_grid.go | 2 --
 terminal.go    | 9 +++++++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 5fd1d5d..460fffe 100644
--- a/screen.go
+++ b/screen.go
@@ -289,8 +289,6 @@ func (s *spanScreen) setSize(w, h int) {
 	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
 	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
 	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
-
-	s.setStyle(s.style)
 }
 
 func (s *spanScreen) eraseRegion(r Region, cr ChangeReason) {
diff --git a/screen_grid.go b/screen_grid.go
index a150898..74387d4 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -279,8 +279,6 @@ func (s *gridScreen) setSize(w, h int) {
 	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
 	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
 	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
-
-	s.setStyle(s.style)
 }
 
 func (s *gridScreen) eraseRegion(r Region, cr ChangeReason) {
diff --git a/terminal.go b/terminal.go
index 397c72f..1b1d20c 100644
--- a/terminal.go
+++ b/terminal.go
@@ -143,10 +143,19 @@ type winsize struct {
 	wsYPixel uint16
 }
 
+// Resize changes the size of the terminal and its backend.
+// The caller must not hold the terminal lock.
 func (t *terminal) Resize(w, h int) error {
+	t.Lock()
+	defer t.Unlock()
+
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
 
+	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: w, Y2: h}, CRRedraw)
+	cursorPos := t.screen().CursorPos()
+	t.frontend.CursorMoved(cursorPos.X, cursorPos.Y)
+
 	if t.backend == nil {
 		return nil
 	}
-- 
2.43.0


From d8d2b2397dbef9f7960ae926adc207cdb19c4b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 30/61] fix: do not take multi-byte text as wide as it is long
 for ASCII

---
 screen.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 460fffe..f4c89ea 100644
--- a/screen.go
+++ b/screen.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type screen interface {
@@ -624,7 +625,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		return left, right, Span{}
 	}
 
-	if mode == TextReadModeRune && sp.Width == len(sp.Text) {
+	if mode == TextReadModeRune && sp.Width == len(sp.Text) && sp.Width == utf8.RuneCountInString(sp.Text) {
 		// Simple mode where each rune is one cell - can't have wide clusters
 		leftText := sp.Text[:cellOffset]
 		rightText := sp.Text[cellOffset:]
@@ -885,7 +886,8 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) {
+			if sp.Text != "" && insert.Text != "" && mode == TextReadModeRune && sp.Width == len(sp.Text) && insert.Width == len(insert.Text) &&
+				sp.Width == utf8.RuneCountInString(sp.Text) && insert.Width == utf8.RuneCountInString(insert.Text) {
 				sp.Text = sp.Text[:startOffset] + insert.Text + sp.Text[startOffset+n:]
 				spans[startIdx] = sp
 				line.width = totalWidth
-- 
2.43.0


From f311c7a3601e4900219b3dac9a81691b1290e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 31/61] fix: overwriting a cell replaces its style even if the
 color values look alike

---
 screen.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/screen.go b/screen.go
index f4c89ea..f7af55a 100644
--- a/screen.go
+++ b/screen.go
@@ -877,12 +877,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-- 
2.43.0


From c4e6f758f393bee8a8b72bfc3a92734e53b104b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 32/61] fix: deleting whole runs leaves no empty run behind

---
 screen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index f7af55a..09aa54b 100644
--- a/screen.go
+++ b/screen.go
@@ -855,7 +855,10 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
+		line.spans = line.spans[:0]
+		if insert.Width > 0 {
+			line.spans = append(line.spans, insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -872,7 +875,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	// Fast paths for in-place replacements inside a single span.
 	if startIdx == endIdx {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
+		if startOffset == 0 && endOffset == sp.Width && insert.Width > 0 {
 			spans[startIdx] = insert
 			line.width = totalWidth - n + insert.Width
 			return
-- 
2.43.0


From 96bdc36b0432c1f3bcb4bb08c36b76f1c663c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 33/61] fix: span rows keep their width when a wide character
 is cut

---
 screen.go | 77 ++++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 73 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 09aa54b..39fbfc1 100644
--- a/screen.go
+++ b/screen.go
@@ -264,6 +264,7 @@ func (s *spanScreen) setSize(w, h int) {
 	for y := 0; y < h; y++ {
 		switch {
 		case y < prevH && len(s.lines) > 0:
+			s.blankSplitChar(y, w)
 			line := s.lines[y]
 			resizeLine(&line, w, s.style, s.textMode)
 			newLines[y] = line
@@ -367,8 +368,68 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
-	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
+	line := &s.lines[y]
+	x1, x2 := s.blankSplitChar(y, x+sp.Width)
+	x1 = min(x1, x)
+	if start, _ := charRange(line, x, s.textMode); start < x {
+		x1 = start
+		if sp.Text == "" {
+			s.blankSplitChar(y, x)
+		} else {
+			// the text goes after the wide character and shifts the rest of the row
+			x2 = s.size.X
+		}
+	}
+	replaceRange(line, x, sp.Width, sp, s.textMode)
+	if lineCellWidth(line) > s.size.X {
+		s.blankSplitChar(y, s.size.X)
+		truncateLine(line, s.size.X, s.textMode)
+	}
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
+}
+
+// charRange returns the range of cells of the character that covers cell x.
+func charRange(line *spanLine, x int, mode TextReadMode) (int, int) {
+	pos := 0
+	for _, sp := range line.spans {
+		if x >= pos+sp.Width {
+			pos += sp.Width
+			continue
+		}
+		if sp.Text == "" {
+			break
+		}
+		text := []byte(sp.Text)
+		for len(text) > 0 {
+			_, consumed, width, _, ok := stepTextCluster(text, -1, mode)
+			if !ok {
+				break
+			}
+			if x < pos+width {
+				return pos, pos + width
+			}
+			pos += width
+			text = text[consumed:]
+		}
+		break
+	}
+	return x, x + 1
+}
+
+// blankSplitChar blanks the wide character on line y that has cells on both sides
+// of the left edge of cell x, if there is one. It returns the range of blanked
+// cells, or x, x. The caller must announce the change.
+func (s *spanScreen) blankSplitChar(y int, x int) (int, int) {
+	line := &s.lines[y]
+	if x <= 0 || x >= lineCellWidth(line) {
+		return x, x
+	}
+	x1, x2 := charRange(line, x, s.textMode)
+	if x1 == x {
+		return x, x
+	}
+	replaceRange(line, x1, x2-x1, Span{Style: s.style, Rune: ' ', Width: x2 - x1}, s.textMode)
+	return x1, x2
 }
 
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -405,6 +466,12 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	x1, _ := s.blankSplitChar(y, x+n)
+	x1 = min(x1, x)
+	if start, _ := s.blankSplitChar(y, x); start < x1 {
+		x1 = start
+	}
+
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
 	replaceRange(line, x, n, Span{}, s.textMode)
@@ -415,7 +482,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		line.width = s.size.X
 	}
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: s.size.X}, cr)
 }
 
 func (s *spanScreen) setCursorPos(x, y int) {
@@ -915,7 +982,9 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 
 	// If we're splitting in the right cell of a wide character at the start,
 	// we should insert after the wide character rather than overwriting it
+	keptWidth := 0 // cells of the wide character that are kept at or after x
 	if splitWideAtStart.Width > 0 {
+		keptWidth = left.Width + splitWideAtStart.Width - startOffset
 		// splitSpan gave us the wide character - include it in the left part
 		// and insert after it
 		if hasLeft {
@@ -958,7 +1027,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	if suffixStart < len(spans) {
 		newLen += len(spans) - suffixStart
 	}
-	newWidth := totalWidth - n + insert.Width
+	newWidth := totalWidth - n + insert.Width + keptWidth
 
 	// Ensure capacity then populate the new span layout.
 	if cap(spans) < newLen {
-- 
2.43.0


From e101c528929a6684b95e40bc2e4dea0897191c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 34/61] fix: StyledLine shows blanks for a wide character cut
 by the requested range

---
 screen.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 39fbfc1..d25fe02 100644
--- a/screen.go
+++ b/screen.go
@@ -200,12 +200,24 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 				spans = append(spans, sp)
 			} else {
 				// We need a sub-span
-				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
+				_, sub, wide := splitSpan(sp, offset, s.textMode) // skip left part
+				if wide.Width > 0 {
+					// the left edge cuts a wide character, show its visible part as blanks
+					blank := min(sp.Width-sub.Width-offset, width)
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: blank})
+					width -= blank
+				}
 				// now sub is from offset to end. we might need to truncate it if it's too long
 				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
+					keep, _, wide := splitSpan(sub, width, s.textMode)
+					if width > 0 && keep.Width > 0 {
+						spans = append(spans, keep)
+					}
+					if wide.Width > 0 {
+						// the right edge cuts a wide character
+						spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: width - keep.Width})
+					}
+				} else if sub.Width > 0 {
 					spans = append(spans, sub)
 				}
 			}
-- 
2.43.0


From ca150cf795eab3b4d732717700047b1c3fce23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:48 +0000
Subject: [PATCH 35/61] fix: text that does not fit in the row wraps or pins
 character by character

---
 screen.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/screen.go b/screen.go
index d25fe02..9031258 100644
--- a/screen.go
+++ b/screen.go
@@ -330,6 +330,9 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 		return
 	}
 	s.textMode = mode
+	if !utf8.ValidString(text) {
+		text = string([]rune(text)) // every invalid byte is one U+FFFD
+	}
 	if merge {
 		s.mergeIntoPreviousCell(text)
 		return
@@ -337,8 +340,49 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 	if width < 1 {
 		width = 1
 	}
+	for {
+		n, runWidth := s.fitText(text, width)
+		s.writeRun(text[:n], runWidth)
+		if n == len(text) {
+			return
+		}
+		text = text[n:]
+		width -= runWidth
+	}
+}
+
+// fitText returns how many bytes of text can be written in one piece at the
+// cursor, at least one character, and their width. width is the width of text.
+func (s *spanScreen) fitText(text string, width int) (int, int) {
+	start, _ := charRange(&s.lines[s.cursorPos.Y], s.cursorPos.X, s.textMode)
+	insideWide := start < s.cursorPos.X
+	avail := s.size.X - s.cursorPos.X
+	if width <= avail && !insideWide {
+		return len(text), width
+	}
+	n := 0
+	used := 0
+	textBytes := []byte(text)
+	for n < len(text) {
+		_, consumed, charWidth, _, ok := stepTextCluster(textBytes[n:], -1, s.textMode)
+		if !ok || consumed <= 0 {
+			break
+		}
+		if n > 0 && (insideWide || used+charWidth > avail) {
+			return n, used
+		}
+		n += consumed
+		used += charWidth
+	}
+	return len(text), used
+}
+
+// writeRun writes text that fits in the rest of the row, or a single character.
+func (s *spanScreen) writeRun(text string, width int) {
 	if width > s.size.X {
+		// a character wider than the screen
 		width = s.size.X
+		text = strings.Repeat(" ", width)
 	}
 	if s.cursorPos.X+width > s.size.X {
 		if s.autoWrap {
-- 
2.43.0


From 01334f4a41d65e02deefc319dd1edb34c4994212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:28 +0000
Subject: [PATCH 36/61] fix: text is merged into the previous character only if
 it extends it, and is announced

---
 grapheme_reader.go | 21 ++++++++++++++++
 screen.go          | 61 ++++++++++++++++++++--------------------------
 screen_grid.go     | 29 +++++++++++++++++++---
 3 files changed, 73 insertions(+), 38 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index e766cad..4a37c91 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -347,6 +347,27 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 	return cluster, consumed, width, merge, newState, nextForceMergeNext, nextLastWasRI, true
 }
 
+// mergedCluster returns prev followed by cluster, if that is one grapheme cluster
+// that is width cells wide.
+func mergedCluster(prev string, cluster []byte, width int) (string, bool) {
+	merged := prev + string(cluster)
+	_, consumed, mergedWidth, _, ok := stepGraphemeCluster([]byte(merged), -1)
+	return merged, ok && consumed == len(merged) && mergedWidth == width
+}
+
+// isExtenderOnly reports whether b only has runes that extend the character
+// before them.
+func isExtenderOnly(b []byte) bool {
+	for len(b) > 0 {
+		_, size := utf8.DecodeRune(b)
+		if !isCombiningOnly(b[:size]) && !isZWJOnly(b[:size]) && !isVariationSelectorOnly(b[:size]) {
+			return false
+		}
+		b = b[size:]
+	}
+	return true
+}
+
 func isCombiningOnly(b []byte) bool {
 	if len(b) == 0 {
 		return false
diff --git a/screen.go b/screen.go
index 9031258..4772eba 100644
--- a/screen.go
+++ b/screen.go
@@ -1154,45 +1154,36 @@ func truncateLine(line *spanLine, width int, mode TextReadMode) {
 }
 
 func (s *spanScreen) mergeIntoPreviousCell(text string) {
+	rest := []byte(text)
+	for len(rest) > 0 {
+		cluster, consumed, width, _, ok := stepGraphemeCluster(rest, -1)
+		if !ok || consumed <= 0 {
+			return
+		}
+		rest = rest[consumed:]
+		if !s.mergeCluster(cluster) && !isExtenderOnly(cluster) {
+			s.writeString(string(cluster), width, false, s.textMode)
+		}
+	}
+}
+
+// mergeCluster appends cluster to the character before the cursor, if together
+// they are one character of the same width.
+func (s *spanScreen) mergeCluster(cluster []byte) bool {
 	if s.cursorPos.X <= 0 {
-		return
+		return false
 	}
 	y := s.cursorPos.Y
 	line := &s.lines[y]
-	cell := s.cursorPos.X - 1
-
-	// Find the span at cell position
-	idx, offset := findSpanAtX(line, cell)
-	if idx >= len(line.spans) {
-		return
-	}
-
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
-	}
-
-	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
-	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
-	}
-	sp.Text += text
-	// Width doesn't change for merge
-
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+	x1, x2 := charRange(line, s.cursorPos.X-1, s.textMode)
+	prev := s.StyledLine(x1, x2-x1, y)
+	merged, ok := mergedCluster(prev.PlainTextString(), cluster, x2-x1)
+	if !ok {
+		return false
+	}
+	replaceRange(line, x1, x2-x1, Span{Style: prev.Spans[0].Style, Text: merged, Width: x2 - x1}, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, CRText)
+	return true
 }
 
 func max(a, b int) int {
diff --git a/screen_grid.go b/screen_grid.go
index 74387d4..0602ebe 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -368,15 +368,38 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 }
 
 func (s *gridScreen) mergeIntoPreviousCell(text string) {
-	if len(text) == 0 || s.cursorPos.X <= 0 {
-		return
+	rest := []byte(text)
+	for len(rest) > 0 {
+		cluster, consumed, width, _, ok := stepGraphemeCluster(rest, -1)
+		if !ok || consumed <= 0 {
+			return
+		}
+		rest = rest[consumed:]
+		if !s.mergeCluster(cluster) && !isExtenderOnly(cluster) {
+			s.writeTokens([]GraphemeToken{{Bytes: cluster, Width: width}})
+		}
+	}
+}
+
+// mergeCluster appends cluster to the character before the cursor, if together
+// they are one character of the same width.
+func (s *gridScreen) mergeCluster(cluster []byte) bool {
+	if s.cursorPos.X <= 0 {
+		return false
 	}
 	y := s.cursorPos.Y
 	x := s.cursorPos.X - 1
 	for x > 0 && s.cellCont[y][x] {
 		x--
 	}
-	s.cellText[y][x] += text
+	width := int(s.cellWidth[y][x])
+	merged, ok := mergedCluster(s.cellText[y][x], cluster, width)
+	if !ok {
+		return false
+	}
+	s.cellText[y][x] = merged
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, CRText)
+	return true
 }
 
 // This is like writeRunes, but it moves existing runes to the right
-- 
2.43.0


From e54a4f984c846b78eaabc43f076f97e0a465e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 37/61] fix: grid rows hold only whole characters after a wide
 character is cut

---
 screen_grid.go | 61 ++++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 37 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 0602ebe..d10f979 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -191,6 +191,10 @@ func (s *gridScreen) setSize(w, h int) {
 		panic("Size must be > 0")
 	}
 
+	for y := range s.chars {
+		s.blankSplitChar(y, w)
+	}
+
 	// resize screen. copy current screen to upper-left corner of new screen
 
 	prevW := s.size.X
@@ -430,18 +434,17 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
+	x1, _ := s.blankSplitChar(y, x)
+	_, x2 := s.blankSplitChar(y, x+len(b))
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
 		contRow[idx] = false
 	}
 	s.rawWriteStyles(y, x, x+len(b))
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + len(b)}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: max(x2, x+len(b))}, cr)
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -451,14 +454,8 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	if y >= s.size.Y || x+width > s.size.X {
 		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
 	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
-	}
-
-	prevWidth := int(s.cellWidth[y][x])
-	if prevWidth < 1 {
-		prevWidth = 1
-	}
+	x1, _ := s.blankSplitChar(y, x)
+	_, x2 := s.blankSplitChar(y, x+width)
 
 	s.chars[y][x] = r
 	s.cellText[y][x] = string(r)
@@ -471,36 +468,22 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellWidth[y][idx] = 0
 		s.cellCont[y][idx] = true
 	}
-	for i := width; i < prevWidth; i++ {
-		idx := x + i
-		if idx >= s.size.X {
-			break
-		}
-		s.chars[y][idx] = ' '
-		s.cellText[y][idx] = " "
-		s.cellWidth[y][idx] = 1
-		s.cellCont[y][idx] = false
-	}
-	end := x + width
-	if prevWidth > width {
-		end = x + prevWidth
-	}
-	if end > s.size.X {
-		end = s.size.X
-	}
-	s.rawWriteStyles(y, x, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: end}, cr)
+	s.rawWriteStyles(y, x, x+width)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: max(x2, x+width)}, cr)
 }
 
-func (s *gridScreen) clearWideAt(y int, x int) {
+// blankSplitChar blanks the wide character on line y that has cells on both sides
+// of the left edge of cell x, if there is one. It returns the range of blanked
+// cells, or x, x. The caller must announce the change.
+func (s *gridScreen) blankSplitChar(y int, x int) (int, int) {
+	if x <= 0 || x >= s.size.X || !s.cellCont[y][x] {
+		return x, x
+	}
 	base := x
 	for base > 0 && s.cellCont[y][base] {
 		base--
 	}
 	width := int(s.cellWidth[y][base])
-	if width <= 1 {
-		return
-	}
 	end := min(base+width, s.size.X)
 	for i := base; i < end; i++ {
 		s.chars[y][i] = ' '
@@ -509,7 +492,7 @@ func (s *gridScreen) clearWideAt(y int, x int) {
 		s.cellCont[y][i] = false
 	}
 	s.rawWriteStyles(y, base, end)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: base, X2: end}, CRClear)
+	return base, end
 }
 
 func runeCellWidth(r rune) int {
@@ -547,6 +530,10 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	x1, _ := s.blankSplitChar(y, x)
+	start, _ := s.blankSplitChar(y, x+n)
+	x1 = min(x1, start)
+
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
@@ -566,7 +553,7 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 	copy(styleLine[x:], styleLine[x+n:])
 	s.rawWriteStyles(y, s.size.X-n, s.size.X)
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: s.size.X}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: s.size.X}, cr)
 }
 
 // func (s *gridScreen) advanceLine(auto bool) {
-- 
2.43.0


From e3a06dea602eda051313da797693e04f7928f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 38/61] fix: grid announces every cell blanked around a write

---
 screen_grid.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index d10f979..a2b1d19 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -434,8 +434,11 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	textRow := s.cellText[y]
 	widthRow := s.cellWidth[y]
 	contRow := s.cellCont[y]
-	x1, _ := s.blankSplitChar(y, x)
-	_, x2 := s.blankSplitChar(y, x+len(b))
+	x1, x2 := s.blankSplitChar(y, x+len(b))
+	x1 = min(x1, x)
+	if start, _ := s.blankSplitChar(y, x); start < x {
+		x1 = start
+	}
 	for i, r := range b {
 		idx := x + i
 		s.chars[y][idx] = r
@@ -444,7 +447,7 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 		contRow[idx] = false
 	}
 	s.rawWriteStyles(y, x, x+len(b))
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: max(x2, x+len(b))}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -454,8 +457,11 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	if y >= s.size.Y || x+width > s.size.X {
 		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
 	}
-	x1, _ := s.blankSplitChar(y, x)
-	_, x2 := s.blankSplitChar(y, x+width)
+	x1, x2 := s.blankSplitChar(y, x+width)
+	x1 = min(x1, x)
+	if start, _ := s.blankSplitChar(y, x); start < x {
+		x1 = start
+	}
 
 	s.chars[y][x] = r
 	s.cellText[y][x] = string(r)
@@ -469,7 +475,7 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		s.cellCont[y][idx] = true
 	}
 	s.rawWriteStyles(y, x, x+width)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: max(x2, x+width)}, cr)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
 }
 
 // blankSplitChar blanks the wide character on line y that has cells on both sides
@@ -530,9 +536,11 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
-	x1, _ := s.blankSplitChar(y, x)
-	start, _ := s.blankSplitChar(y, x+n)
-	x1 = min(x1, start)
+	x1, _ := s.blankSplitChar(y, x+n)
+	x1 = min(x1, x)
+	if start, _ := s.blankSplitChar(y, x); start < x {
+		x1 = start
+	}
 
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
-- 
2.43.0


From 9b80f15efada89b0583713446fed12df9fdacf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 39/61] fix: grid stores a grapheme cluster in one cell

---
 screen_grid.go | 71 ++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index a2b1d19..1efa3fd 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -328,46 +328,32 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 			s.mergeIntoPreviousCell(text)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
+		width := tok.Width
+		if width < 1 {
+			width = 1
 		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
+		if !utf8.ValidString(text) {
+			text = string([]rune(text)) // every invalid byte is one U+FFFD
+		}
+		blanks := 0
+		if width > s.size.X {
+			// a character wider than the screen
+			width = s.size.X
+			blanks = width
+		}
+		if s.cursorPos.X+width > s.size.X {
+			if s.autoWrap {
+				s.moveCursor(-s.cursorPos.X, 1, false, true)
+			} else {
+				s.cursorPos.X = s.size.X - width
 			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
 		}
+		if blanks > 0 {
+			s.rawWriteRunes(s.cursorPos.X, s.cursorPos.Y, []rune(strings.Repeat(" ", blanks)), CRText)
+		} else {
+			s.rawWriteCell(s.cursorPos.X, s.cursorPos.Y, text, width, CRText)
+		}
+		s.moveCursor(width, 0, true, true)
 	}
 }
 
@@ -451,11 +437,16 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteCell(x, y, string(r), width, cr)
+}
+
+// rawWriteCell writes one character, which may have more than one rune.
+func (s *gridScreen) rawWriteCell(x int, y int, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
-		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
+		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, text))
 	}
 	x1, x2 := s.blankSplitChar(y, x+width)
 	x1 = min(x1, x)
@@ -463,8 +454,8 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		x1 = start
 	}
 
-	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.chars[y][x], _ = utf8.DecodeRuneInString(text)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
-- 
2.43.0


From f8e7165a8e9299b223300554382e7c87e3cac3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 40/61] fix: grid renders the text of merged, multi-rune and
 cut characters

---
 screen_grid.go | 101 +++++++++++++++++++++++--------------------------
 1 file changed, 48 insertions(+), 53 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 1efa3fd..9d48867 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -1,7 +1,6 @@
 package termemu
 
 import (
-	"bytes"
 	"fmt"
 	"strings"
 	"unicode/utf8"
@@ -91,61 +90,48 @@ func (s *gridScreen) Line(y int) string {
 }
 
 func (s *gridScreen) StyledLine(x, w, y int) Line {
-	text := s.getLine(y)
 	styles := s.cellStyles[y]
-	cellText := s.cellText[y]
 
 	var spans []Span
 
 	if w < 0 || x+w > len(styles) {
 		w = len(styles) - x
 	}
+	if w < 0 {
+		w = 0
+	}
 
 	for i := x; i < x+w; {
 		style := styles[i]
-		width := 0
 		start := i
+		first := s.visibleText(y, i, x, x+w)
+		prev := ""
 
-		// Find run of identical styles
+		// Find run of identical styles. If it is the same narrow rune over and over
+		// it is a repeat, otherwise it is text.
+		isRepeat := utf8.RuneCountInString(first) == 1
+		var sb strings.Builder
 		for i < x+w && styles[i] == style {
-			width++
-			i++
-		}
-
-		// For this run, check if we can represent it as a single repeat or simple text
-		// We have text[start:start+width] and cellText[start:start+width]
-
-		// Optimization: check if all runes are same and simple (width 1)
-		firstRune := text[start]
-		isRepeat := true
-		for k := 0; k < width; k++ {
-			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
-				isRepeat = false
+			text := s.visibleText(y, i, x, x+w)
+			if text != "" && prev != "" && joinsCluster(prev, text) {
+				// separate characters, which would be one in the same text
 				break
 			}
+			if text != first {
+				isRepeat = false
+			}
+			if text != "" {
+				prev = text
+			}
+			sb.WriteString(text)
+			i++
 		}
 
 		if isRepeat {
-			spans = append(spans, Span{Style: style, Rune: firstRune, Width: width})
+			firstRune, _ := utf8.DecodeRuneInString(first)
+			spans = append(spans, Span{Style: style, Rune: firstRune, Width: i - start})
 		} else {
-			// Construct text for span
-			var sb strings.Builder
-			spanWidth := 0
-			for k := 0; k < width; k++ {
-				idx := start + k
-				if s.cellCont[y][idx] {
-					// continuation cell, don't add text, it's part of previous
-					spanWidth++ // visual width increases
-					continue
-				}
-				// It's a start of a char
-				// If visual width is > 1, next cells will be cont.
-				sb.WriteString(cellText[idx])
-				spanWidth++
-			}
-
-			spans = append(spans, Span{Style: style, Text: sb.String(), Width: spanWidth})
+			spans = append(spans, Span{Style: style, Text: sb.String(), Width: i - start})
 		}
 	}
 	return Line{
@@ -154,6 +140,30 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 	}
 }
 
+// visibleText returns the text of the cell, which is a blank if it belongs to a
+// wide character that is not entirely between x1 and x2, and empty if it is
+// a continuation of the wide character before it.
+func (s *gridScreen) visibleText(y, x, x1, x2 int) string {
+	base := x
+	for base > 0 && s.cellCont[y][base] {
+		base--
+	}
+	if base < x1 || base+int(s.cellWidth[y][base]) > x2 {
+		return " "
+	}
+	return s.cellText[y][x]
+}
+
+// joinsCluster reports whether next would become part of the grapheme cluster
+// prev if it was written right after it.
+func joinsCluster(prev, next string) bool {
+	if prev[len(prev)-1] < utf8.RuneSelf && next[0] < utf8.RuneSelf {
+		return false
+	}
+	_, consumed, _, _, ok := stepGraphemeCluster([]byte(prev+next), -1)
+	return ok && consumed > len(prev)
+}
+
 func (s *gridScreen) StyledLines(r Region) []Line {
 	var lines []Line
 	for y := r.Y; y < r.Y2; y++ {
@@ -163,22 +173,7 @@ func (s *gridScreen) StyledLines(r Region) []Line {
 }
 
 func (s *gridScreen) renderLineANSI(y int) string {
-	line := s.getLine(y)
-	styles := s.cellStyles[y]
-	buf := bytes.NewBuffer(make([]byte, 0, len(line)+10))
-	x := 0
-	for x < len(line) {
-		currentStyle := styles[x]
-		buf.Write(currentStyle.ANSIEscape())
-
-		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
-			}
-			x++
-		}
-	}
-	return buf.String()
+	return string(renderStyledLineANSI(s.StyledLine(0, s.size.X, y)))
 }
 
 func (s *gridScreen) setStyle(style Style) {
-- 
2.43.0


From a191ffc3ce0418848b298effca44de76fa83c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 41/61] fix: mouse modes without motion, or without hover,
 filter those events

---
 terminal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 1b1d20c..dc14846 100644
--- a/terminal.go
+++ b/terminal.go
@@ -241,7 +241,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -249,7 +249,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
 			return nil
 		}
 	case MMPressReleaseMoveAll:
-- 
2.43.0


From 833e91c2d27aff1c9cfe9ff98882fbdc7edc0f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 42/61] fix: X10 mouse reports use single bytes and return
 write errors

---
 terminal.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/terminal.go b/terminal.go
index dc14846..0fa07ae 100644
--- a/terminal.go
+++ b/terminal.go
@@ -270,11 +270,8 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			y = 255 - 32
 		}
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
+		mouseCmd := []byte{'\033', '[', 'M', 32 + btnByte, byte(32 + x), byte(32 + y)}
 		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
 		return err
 
 	case MEUTF8:
-- 
2.43.0


From a4eba7554c625370082e5311f5384371f9e00fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 43/61] fix: SendKey and mouse reports read the terminal state
 under the lock

---
 keys.go     | 7 ++++++-
 terminal.go | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/keys.go b/keys.go
index a30d8e9..2c67cbd 100644
--- a/keys.go
+++ b/keys.go
@@ -184,8 +184,13 @@ type KeyEvent struct {
 	Text []rune
 }
 
+// SendKey writes the encoding of a key event to the application.
+// The caller must not hold the terminal lock.
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
-	seq := t.encodeKey(ev)
+	var seq []byte
+	t.WithLock(func() {
+		seq = t.encodeKey(ev)
+	})
 	if len(seq) == 0 {
 		return 0, nil
 	}
diff --git a/terminal.go b/terminal.go
index 0fa07ae..7e44c4a 100644
--- a/terminal.go
+++ b/terminal.go
@@ -235,9 +235,15 @@ const (
 )
 
 // x and y should start at 1
+// The caller must not hold the terminal lock.
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	var mouseMode, mouseEncoding int
+	t.WithLock(func() {
+		mouseMode = t.viewInts[VIMouseMode]
+		mouseEncoding = t.viewInts[VIMouseEncoding]
+	})
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -255,7 +261,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From 9e2db249c21dd3a6eebca51c62357704e6cd0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:13 +0000
Subject: [PATCH 44/61] fix: initialise debug output once even from several
 goroutines

---
 debug.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/debug.go b/debug.go
index 4efdb11..53a980b 100644
--- a/debug.go
+++ b/debug.go
@@ -5,12 +5,13 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sync"
 )
 
 var (
-	debugOutput     io.Writer = os.Stderr
-	debugFile                 = flag.String("debugFile", "", "File to send debug info to")
-	debugInitCalled           = false
+	debugOutput   io.Writer = os.Stderr
+	debugFile               = flag.String("debugFile", "", "File to send debug info to")
+	debugInitOnce sync.Once
 
 	debugCursor  = new(bool)
 	debugCharSet = new(bool)
@@ -38,7 +39,6 @@ func DebugFlags() {
 }
 
 func initDebug() {
-	debugInitCalled = true
 	if *debugFile != "" {
 		f, err := os.OpenFile(*debugFile, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
 		if err != nil {
@@ -59,9 +59,7 @@ func debugPause(debugFlag *bool) {
 }
 
 func debugPrintln(debugFlag *bool, args ...interface{}) {
-	if !debugInitCalled {
-		initDebug()
-	}
+	debugInitOnce.Do(initDebug)
 	if *debugFlag {
 		fmt.Fprintln(debugOutput, args...)
 		debugPause(debugFlag)
@@ -69,9 +67,7 @@ func debugPrintln(debugFlag *bool, args ...interface{}) {
 }
 
 func debugPrintf(debugFlag *bool, f string, args ...interface{}) {
-	if !debugInitCalled {
-		initDebug()
-	}
+	debugInitOnce.Do(initDebug)
 	if *debugFlag {
 		fmt.Fprintf(debugOutput, f, args...)
 		debugPause(debugFlag)
-- 
2.43.0


From e0655d8e356eeb789b38c3ab9d2831a3777d7709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:41 +0000
Subject: [PATCH 45/61] fix: report key events the legacy encoding lacks only
 to applications that asked

---
 keys.go | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/keys.go b/keys.go
index 2c67cbd..a0d6c98 100644
--- a/keys.go
+++ b/keys.go
@@ -199,14 +199,29 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
-	if flags != 0 {
+	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
+	if isModifierKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
+	// The other enhancements only add to the escape codes of these.
+	if flags&int(KbdDisambiguate|KbdReportEvents|KbdReportAllKeys) != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
 	}
+	// The legacy encoding has no release events.
+	if ev.Event == KeyRelease {
+		return nil
+	}
 	return t.encodeLegacyKey(ev)
 }
 
+func isModifierKey(code KeyCode) bool {
+	return code >= KeyLeftShift && code <= KeyISOLevel5Shift
+}
+
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
@@ -331,7 +346,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF12:
 		return kittyCSITilde(24, modField)
 	case KeyEscape:
-		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
+		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 || normalizeEventType(ev.Event) != KeyPress {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
@@ -365,14 +380,21 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if flags&int(KbdReportAllKeys) != 0 {
 		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
-	if flags&int(KbdDisambiguate) != 0 {
-		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
-			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
-		}
+	if modsProduceText(ev.Mod) {
+		return nil
+	}
+	reportedEvent := flags&int(KbdReportEvents) != 0 && normalizeEventType(ev.Event) != KeyPress
+	if flags&int(KbdDisambiguate) != 0 || reportedEvent {
+		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 	}
 	return nil
 }
 
+// modsProduceText returns whether a text key still produces text with the modifiers.
+func modsProduceText(mod KeyMod) bool {
+	return mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) == 0
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
-- 
2.43.0


From 6b6cb13e0f82bb0882c90176d30640dae60e9325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 46/61] fix: report-all-keys disambiguates keypad keys, and
 keypad text stays text without it

---
 keys.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index a0d6c98..fa324bd 100644
--- a/keys.go
+++ b/keys.go
@@ -292,9 +292,12 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
+	if isKeypadKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
-			return t.encodeKittyKey(mapped, flags)
+			producesText := mapped.Code == KeyRune && ev.Code != KeyKPBegin && modsProduceText(ev.Mod)
+			if producesText || flags&int(KbdDisambiguate) == 0 {
+				return t.encodeKittyKey(mapped, flags)
+			}
 		}
 	}
 	modField := kittyModField(ev.Mod, ev.Event, flags)
-- 
2.43.0


From 7d150c3684c2b29ae34e2064482d4616824993c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 47/61] fix: encode F3 as 13~ instead of a cursor position
 report

---
 keys.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index fa324bd..23133fc 100644
--- a/keys.go
+++ b/keys.go
@@ -264,6 +264,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	case KeyF2:
 		return encodeFunctionKey('Q', ev.Mod)
 	case KeyF3:
+		if ev.Mod != 0 {
+			// CSI R with parameters is a cursor position report.
+			return encodeTildeKey(13, ev.Mod)
+		}
 		return encodeFunctionKey('R', ev.Mod)
 	case KeyF4:
 		return encodeFunctionKey('S', ev.Mod)
@@ -329,7 +333,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField)
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
-- 
2.43.0


From cbdba2b77d53af63d90d9130bff1fc03f90cb726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 48/61] fix: encode KP_Begin as CSI E and the legacy Menu key
 as 29~

---
 keys.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/keys.go b/keys.go
index 23133fc..5f1464b 100644
--- a/keys.go
+++ b/keys.go
@@ -287,6 +287,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
@@ -372,6 +374,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 			return kittyCSIu(kittyKeyField(127, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, flags), modField, kittyTextField(ev, flags))
-- 
2.43.0


From 3a39bf93af5963006608ff2d92c9621fb4a3cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 49/61] fix: encode super, hyper and meta but no lock modifiers
 in legacy and text keys

---
 keys.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/keys.go b/keys.go
index 5f1464b..65f60d8 100644
--- a/keys.go
+++ b/keys.go
@@ -19,6 +19,8 @@ const (
 	ModMeta
 	ModCapsLock
 	ModNumLock
+
+	modLocks = ModCapsLock | ModNumLock
 )
 
 // KeyEventType is press/repeat/release. Zero is treated as press.
@@ -223,6 +225,8 @@ func isModifierKey(code KeyCode) bool {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	// The legacy encoding has no lock modifiers.
+	ev.Mod &^= modLocks
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
@@ -391,6 +395,8 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if flags&int(KbdReportAllKeys) != 0 {
 		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
+	// The lock modifiers are not reported for text keys.
+	ev.Mod &^= modLocks
 	if modsProduceText(ev.Mod) {
 		return nil
 	}
@@ -862,17 +868,7 @@ func kittyCSIu(keyField, modField, textField string) []byte {
 }
 
 func xtermModParam(mod KeyMod) int {
-	param := 1
-	if mod&ModShift != 0 {
-		param += 1
-	}
-	if mod&ModAlt != 0 {
-		param += 2
-	}
-	if mod&ModCtrl != 0 {
-		param += 4
-	}
-	return param
+	return 1 + int(mod&^modLocks)
 }
 
 func normalizeEventType(event KeyEventType) KeyEventType {
-- 
2.43.0


From 03e1c9c0ec32037dcad1698dd643bc97cbab2102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 50/61] fix: modifyOtherKeys does not apply while Kitty
 keyboard flags are set

---
 keys.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/keys.go b/keys.go
index 65f60d8..b6936b7 100644
--- a/keys.go
+++ b/keys.go
@@ -668,11 +668,17 @@ func kittyFunctionalCode(code KeyCode) (int, bool) {
 	}
 }
 
+// modifyOtherKeys returns whether xterm's modifyOtherKeys is in effect. The
+// Kitty protocol replaces it.
+func (t *terminal) modifyOtherKeys() bool {
+	return t.viewInts[VIModifyOtherKeys] > 0 && t.keyboardFlags() == 0
+}
+
 func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
 	if r == 0 {
 		return nil
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 && mod != 0 {
+	if t.modifyOtherKeys() && mod != 0 {
 		return encodeModifyOtherKeys(int(r), mod)
 	}
 	if mod&ModCtrl != 0 {
@@ -714,7 +720,7 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x7f}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(127, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -730,7 +736,7 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if mod == ModShift {
 		return []byte{0x1b, '[', 'Z'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(9, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -743,7 +749,7 @@ func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{'\r'}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(13, mod)
 	}
 	if mod&ModAlt != 0 {
@@ -756,7 +762,7 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if mod == 0 {
 		return []byte{0x1b}
 	}
-	if t.viewInts[VIModifyOtherKeys] > 0 {
+	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(27, mod)
 	}
 	return []byte{0x1b}
-- 
2.43.0


From 8f71af291077227faaf5e439a6ea814cbf6a3791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 51/61] fix: map every key of the ctrl table to its control
 byte

---
 keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index b6936b7..a6343de 100644
--- a/keys.go
+++ b/keys.go
@@ -892,19 +892,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case '@', ' ', '2':
 		return 0, true
-	case '[':
+	case '[', '3':
 		return 27, true
-	case '\\':
+	case '\\', '4':
 		return 28, true
-	case ']':
+	case ']', '5':
 		return 29, true
-	case '^':
+	case '^', '~', '6':
 		return 30, true
-	case '_':
+	case '_', '/', '7':
 		return 31, true
-	case '?':
+	case '?', '8':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From ddf6c78c00f6f27e1155d956236f605c8efea958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 52/61] fix: encode Backspace, Tab and Escape with modifiers as
 the legacy table says

---
 keys.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/keys.go b/keys.go
index a6343de..24d2271 100644
--- a/keys.go
+++ b/keys.go
@@ -723,10 +723,14 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(127, mod)
 	}
+	out := byte(0x7f)
+	if mod&ModCtrl != 0 {
+		out = 0x08
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return []byte{0x1b, out}
 	}
-	return []byte{0x7f}
+	return []byte{out}
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
@@ -739,10 +743,14 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(9, mod)
 	}
+	out := []byte{'\t'}
+	if mod&ModShift != 0 {
+		out = []byte{0x1b, '[', 'Z'}
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, '\t'}
+		return append([]byte{0x1b}, out...)
 	}
-	return []byte{'\t'}
+	return out
 }
 
 func (t *terminal) encodeEnterKey(mod KeyMod) []byte {
@@ -765,6 +773,9 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if t.modifyOtherKeys() {
 		return encodeModifyOtherKeys(27, mod)
 	}
+	if mod&ModAlt != 0 {
+		return []byte{0x1b, 0x1b}
+	}
 	return []byte{0x1b}
 }
 
-- 
2.43.0


From 5330215acda383afacf8b6de46cbd0b9f1d3708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 53/61] fix: encode text keys with modifiers the legacy
 encoding lacks as CSI u

---
 keys.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/keys.go b/keys.go
index 24d2271..d1af5d9 100644
--- a/keys.go
+++ b/keys.go
@@ -4,8 +4,11 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"unicode"
 )
 
+const legacyTextKeys = "abcdefghijklmnopqrstuvwxyz0123456789`-=[]\\;',./"
+
 // KeyMod is a bitmask of active modifier keys.
 // It follows the Kitty keyboard protocol bit assignments.
 type KeyMod uint8
@@ -232,6 +235,23 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 			return t.encodeLegacyKey(mapped)
 		}
 	}
+	if !t.modifyOtherKeys() && !legacyHasMods(ev) {
+		switch ev.Code {
+		case KeyRune:
+			if ev.Rune == 0 {
+				return nil
+			}
+			return kittyCSIu(kittyKeyField(int(unicode.ToLower(ev.Rune)), ev, 0), kittyModField(ev.Mod, KeyPress, 0), "")
+		case KeyEnter:
+			return kittyCSIu("13", kittyModField(ev.Mod, KeyPress, 0), "")
+		case KeyEscape:
+			return kittyCSIu("27", kittyModField(ev.Mod, KeyPress, 0), "")
+		case KeyBackspace:
+			return kittyCSIu("127", kittyModField(ev.Mod, KeyPress, 0), "")
+		case KeyTab:
+			return kittyCSIu("9", kittyModField(ev.Mod, KeyPress, 0), "")
+		}
+	}
 	switch ev.Code {
 	case KeyRune:
 		return t.encodeRuneKey(ev.Rune, ev.Mod)
@@ -301,6 +321,21 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 }
 
+// legacyHasMods returns whether the legacy encoding of text keys, Enter,
+// Escape, Backspace and Tab can represent the modifiers.
+func legacyHasMods(ev KeyEvent) bool {
+	if ev.Mod&(ModSuper|ModHyper|ModMeta) != 0 {
+		return false
+	}
+	switch ev.Mod & (ModShift | ModAlt | ModCtrl) {
+	case ModShift | ModAlt | ModCtrl:
+		return false
+	case ModShift | ModCtrl:
+		return ev.Code != KeyRune || !strings.ContainsRune(legacyTextKeys, unicode.ToLower(ev.Rune))
+	}
+	return true
+}
+
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	if isKeypadKey(ev.Code) && flags&int(KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
-- 
2.43.0


From bdd1873b14443b67e1dff12e7efa131ccd0b5dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 54/61] fix: Kitty key codes are unshifted, and shifted keys
 produce the shifted text

---
 keys.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/keys.go b/keys.go
index d1af5d9..8c3c2d4 100644
--- a/keys.go
+++ b/keys.go
@@ -254,7 +254,10 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
-		return t.encodeRuneKey(ev.Rune, ev.Mod)
+		if t.modifyOtherKeys() || ev.Mod&ModShift == 0 || ev.Mod&ModCtrl != 0 {
+			return t.encodeRuneKey(ev.Rune, ev.Mod)
+		}
+		return t.encodeRuneKey(shiftedRune(ev), ev.Mod)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
 	case KeyDown:
@@ -427,8 +430,10 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if ev.Rune == 0 {
 		return nil
 	}
+	// The key code is that of the key without shift.
+	code := int(unicode.ToLower(ev.Rune))
 	if flags&int(KbdReportAllKeys) != 0 {
-		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
 	// The lock modifiers are not reported for text keys.
 	ev.Mod &^= modLocks
@@ -437,7 +442,7 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	}
 	reportedEvent := flags&int(KbdReportEvents) != 0 && normalizeEventType(ev.Event) != KeyPress
 	if flags&int(KbdDisambiguate) != 0 || reportedEvent {
-		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
+		return kittyCSIu(kittyKeyField(code, ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 	}
 	return nil
 }
@@ -873,20 +878,35 @@ func kittyKeyField(code int, ev KeyEvent, flags int) string {
 	}
 }
 
+// shiftedRune returns the character that a text key produces.
+func shiftedRune(ev KeyEvent) rune {
+	if ev.Mod&ModShift == 0 {
+		return ev.Rune
+	}
+	if ev.Shifted != 0 {
+		return ev.Shifted
+	}
+	return unicode.ToUpper(ev.Rune)
+}
+
 func kittyTextField(ev KeyEvent, flags int) string {
 	if flags&int(KbdReportAllKeys) == 0 || flags&int(KbdReportText) == 0 {
 		return ""
 	}
-	text := ev.Text
-	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
-		text = []rune{ev.Rune}
-	}
-	if len(text) == 0 {
+	// Releasing a key generates no text.
+	if ev.Event == KeyRelease {
 		return ""
 	}
+	text := ev.Text
+	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 && modsProduceText(ev.Mod) {
+		text = []rune{shiftedRune(ev)}
+	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
-		parts = append(parts, strconv.Itoa(int(r)))
+		// The text must not contain control codes.
+		if !unicode.IsControl(r) {
+			parts = append(parts, strconv.Itoa(int(r)))
+		}
 	}
 	return strings.Join(parts, ":")
 }
-- 
2.43.0


From e3047630490c70e6b20f3aa81d3fe08bcb2717a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:42 +0000
Subject: [PATCH 55/61] fix: TTYFrontend.Attach locks in the order callbacks do

---
 tty_frontend.go | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..8729d95 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,21 +49,30 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
+	term := t.term
+	t.mu.Unlock()
 
-	t.region = r
-	t.attached = true
-	if !t.showCur {
-		t.showCur = true
+	attach := func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
+
+		t.region = r
+		t.attached = true
+		if !t.showCur {
+			t.showCur = true
+		}
+
+		if term != nil {
+			t.renderRegionLocked(t.region)
+		}
 	}
 
-	if t.term == nil {
+	if term == nil {
+		attach()
 		return
 	}
-
-	t.term.WithLock(func() {
-		t.renderRegionLocked(t.region)
-	})
+	// Callbacks take t.mu with the terminal locked, so lock in that order.
+	term.WithLock(attach)
 }
 
 // Detach stops updating the attached region.
-- 
2.43.0


From aba4567cb787b53f516f6226da45862c086d54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 56/61] fix: TTYFrontend writes nothing while detached and
 keeps a hidden cursor hidden

---
 tty_frontend.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index 8729d95..a29f10a 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -58,9 +58,6 @@ func (t *TTYFrontend) Attach(r Region) {
 
 		t.region = r
 		t.attached = true
-		if !t.showCur {
-			t.showCur = true
-		}
 
 		if term != nil {
 			t.renderRegionLocked(t.region)
@@ -177,10 +174,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From ce140cb8ffffb5bfaba0d3b6757d024add1935f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 57/61] fix: TTYFrontend writes to its output only under its
 lock

---
 tty_frontend.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index a29f10a..9c8102a 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -75,11 +75,10 @@ func (t *TTYFrontend) Attach(r Region) {
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -94,11 +93,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
-- 
2.43.0


From 0470e400f256f8db75a41da04c6e07d9db4c24cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:53 +0000
Subject: [PATCH 58/61] fix: replacing cells at the start of a row keeps the
 rest of the row

---
 screen.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/screen.go b/screen.go
index 4772eba..349552a 100644
--- a/screen.go
+++ b/screen.go
@@ -959,14 +959,16 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		if x+n <= endPos {
 			endIdx = i
 			endOffset = x + n - pos
-			pos = endPos
 			break
 		}
 		pos = endPos
 	}
 
-	// Clamp to total width (tracked by pos after the scan).
-	totalWidth := pos
+	// Clamp to total width.
+	totalWidth := 0
+	for _, sp := range spans {
+		totalWidth += sp.Width
+	}
 	if x > totalWidth {
 		x = totalWidth
 	}
-- 
2.43.0


From 3d1eb266db41b14fe02df10242dccc27f75645b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 59/61] fix: a split at the start of a wide character does not
 cut it

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 349552a..84fa7ef 100644
--- a/screen.go
+++ b/screen.go
@@ -777,7 +777,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From f096b06a6b80a79bbebeb331c698006ef7378f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 60/61] fix: attaching to a region the cursor is not in hides
 it, even when nothing is drawn

---
 tty_frontend.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tty_frontend.go b/tty_frontend.go
index 9c8102a..c205e68 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -61,6 +61,8 @@ func (t *TTYFrontend) Attach(r Region) {
 
 		if term != nil {
 			t.renderRegionLocked(t.region)
+			// The cursor depends on the region even where nothing is drawn.
+			t.renderCursorLocked()
 		}
 	}
 
-- 
2.43.0


From 338ce12c79ec88eba75938beed09c97d40d88b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 61/61] fix: erasing no cells changes nothing on the grid
 screen

---
 screen_grid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/screen_grid.go b/screen_grid.go
index 9d48867..9d7b82c 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -409,6 +409,9 @@ func (s *gridScreen) insertRunes(b []rune) {
 // This is a very raw write function. It assumes all the bytes are printable bytes
 // If you use this to write beyond the end of the line, it will panic.
 func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
+	if len(b) == 0 {
+		return
+	}
 	if y >= s.size.Y || x+len(b) > s.size.X {
 		panic(fmt.Sprintf("rawWriteBytes out of range: %v  %v,%v,%v %v %#v, %v,%v\n", s.size, x, y, x+len(b), len(b), string(b), len(s.chars), len(s.chars[0])))
 	}
-- 
2.43.0

