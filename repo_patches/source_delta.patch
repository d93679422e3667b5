From 5a1c42c1afefe44f14b8a10377cf3512c8aaff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 01/36] fix: do not report or escape-prefix keys whose
 character has no UTF-8 form

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 82dca19..40be652 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3110,6 +3110,10 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 			vte_write_raw(vte, &val, 1);
 		} else {
 			len = tsm_ucs4_to_utf8(tsm_symbol_make(unicode), u8);
+			if (!len) {
+				vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+				return false;
+			}
 			vte_write_raw(vte, u8, len);
 		}
 		return true;
-- 
2.43.0


From 99621f9e75420795dcb2ce2301bef75beb6d09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 02/36] fix: map every non-ASCII key to '?' in 7-bit mode, not
 only those with bit 7 set

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 40be652..c490f95 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3094,7 +3094,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	if (unicode != TSM_VTE_INVALID) {
 		if (vte->flags & TSM_VTE_FLAG_7BIT_MODE) {
 			val = unicode;
-			if (unicode & 0x80) {
+			if (unicode > 0x7f) {
 				llog_debug(vte, "invalid keyboard input in 7bit mode U+%x; mapping to '?'",
 					   unicode);
 				val = '?';
-- 
2.43.0


From 22b9337ce45e64fca07a03b0c54393fb2ea62812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 03/36] fix: tolerate a missing terminal in two public calls

---
 src/tsm/tsm-vte.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index c490f95..f008727 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2538,6 +2538,9 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 SHL_EXPORT
 void tsm_vte_set_backspace_sends_delete(struct tsm_vte *vte, bool enable)
 {
+	if (!vte)
+		return;
+
 	vte->backspace_sends_delete = enable;
 }
 
@@ -3131,6 +3134,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
+	if (!vte)
+		return false;
+
 	/* drop move event if we don't wait for move events */
 	if ((vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10 || vte->mouse_event != TSM_VTE_MOUSE_EVENT_ANY) && (event & TSM_MOUSE_EVENT_MOVED)) {
 		return false;
-- 
2.43.0


From 73ed9df70751d94fb99a88b75cfb62744759865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 04/36] fix: export the public functions that were hidden in
 the shared library

---
 src/tsm/tsm-screen.c | 2 ++
 src/tsm/tsm-vte.c    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index b8202d4..a211bba 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -934,6 +934,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->sb_pos_num = 0;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 {
 	if (!con) {
@@ -943,6 +944,7 @@ unsigned int tsm_screen_sb_get_line_count(struct tsm_screen *con)
 	return con->sb_count;
 }
 
+SHL_EXPORT
 unsigned int tsm_screen_sb_get_line_pos(struct tsm_screen *con)
 {
 	if (!con) {
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index f008727..857cf08 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3126,6 +3126,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 	return false;
 }
 
+SHL_EXPORT
 bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
-- 
2.43.0


From b6efa85d6880f173f1ed2aed702ed31497354028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 05/36] fix: do not sign-extend input bytes in 8-bit mode

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 857cf08..1a804ba 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2522,7 +2522,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 					   (int)u8[i]);
 			parse_data(vte, u8[i] & 0x7f);
 		} else if (vte->flags & TSM_VTE_FLAG_8BIT_MODE) {
-			parse_data(vte, u8[i]);
+			parse_data(vte, (uint8_t)u8[i]);
 		} else {
 			state = tsm_utf8_mach_feed(vte->mach, u8[i]);
 			if (state == TSM_UTF8_ACCEPT ||
-- 
2.43.0


From 31cdcd0d04bdec43c3c4af5accefa6e303eb482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 06/36] fix: do not read past the parameter list in extended
 color sequences

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 1a804ba..033c793 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1380,6 +1380,10 @@ static void csi_attribute(struct tsm_vte *vte)
 			/* fallthrough */
 		case 48:
 			val = vte->csi_argv[i];
+			if (i + 1 >= vte->csi_argc) {
+				llog_debug(vte, "truncated color SGR");
+				break;
+			}
 			if (vte->csi_argv[i + 1] == 5) { // 256color mode
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
-- 
2.43.0


From 5ae2430903656957b3fa3a1de6237dfba3265fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 07/36] fix: keep the Alt escape prefix away from replies
 generated by local echo

---
 src/tsm/tsm-vte.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 033c793..8fe20ac 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -682,6 +682,8 @@ unsigned int tsm_vte_get_mouse_event(struct tsm_vte *vte)
 static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 			    bool raw, const char *file, int line)
 {
+	bool prepend;
+
 #ifdef BUILD_ENABLE_DEBUG
 	/* in debug mode we check that escape sequences are always <0x7f so they
 	 * are correctly parsed by non-unicode and non-8bit-mode clients. */
@@ -696,18 +698,21 @@ static void vte_write_debug(struct tsm_vte *vte, const char *u8, size_t len,
 	}
 #endif
 
+	/* The escape prefix belongs to this output only. Parsing the echo below
+	 * may generate replies, which must neither get nor drop it. */
+	prepend = vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE;
+	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
+
 	/* in local echo mode, directly parse the data again */
 	if (!vte->parse_cnt && !(vte->flags & TSM_VTE_FLAG_SEND_RECEIVE_MODE)) {
-		if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+		if (prepend)
 			tsm_vte_input(vte, "\e", 1);
 		tsm_vte_input(vte, u8, len);
 	}
 
-	if (vte->flags & TSM_VTE_FLAG_PREPEND_ESCAPE)
+	if (prepend)
 		vte->write_cb(vte, "\e", 1, vte->data);
 	vte->write_cb(vte, u8, len, vte->data);
-
-	vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 }
 
 #define vte_write(_vte, _u8, _len) \
-- 
2.43.0


From 7fcf5ce042a2059bf97e4d7ea17ef6764476fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 08/36] fix: forget the cursor saved with the alternate screen
 on reset

---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 8fe20ac..9ea0ffe 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -821,6 +821,8 @@ void tsm_vte_reset(struct tsm_vte *vte)
 	vte->mouse_event = 0;
 	vte->mouse_last_col = 0;
 	vte->mouse_last_row = 0;
+	vte->alt_cursor_x = 0;
+	vte->alt_cursor_y = 0;
 
 	memcpy(&vte->cattr, &vte->def_attr, sizeof(vte->cattr));
 	to_rgb(vte, &vte->cattr);
-- 
2.43.0


From 1db180f89021a53353f22488e82f8cd2c20da838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:45 +0000
Subject: [PATCH 09/36] fix: never truncate mouse reports or give them negative
 coordinates

---
 src/tsm/tsm-vte.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 9ea0ffe..2ded1b4 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3142,7 +3142,8 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		unsigned int cell_y, unsigned int pixel_x, unsigned int pixel_y,
 		unsigned int button, unsigned int event, unsigned char modifiers)
 {
-	char buffer[24];
+	char buffer[64];
+	int len;
 	unsigned char reply_flags = 0;
 	bool pressed = event & TSM_MOUSE_EVENT_PRESSED;
 
@@ -3172,16 +3173,8 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_X10) {
 		/* + 0x20 to start in the range of visible characters
 		 * and + 1 to start at 1,1 */
-		cell_x += 0x21;
-		cell_y += 0x21;
-
-		if (cell_x > 0xff) {
-			cell_x = 0xff;
-		}
-
-		if (cell_y > 0xff) {
-			cell_y = 0xff;
-		}
+		cell_x = cell_x > 0xff - 0x21 ? 0xff : cell_x + 0x21;
+		cell_y = cell_y > 0xff - 0x21 ? 0xff : cell_y + 0x21;
 
 		if (event & TSM_MOUSE_EVENT_RELEASED) {
 			/* translates to released but the information which key is
@@ -3190,9 +3183,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		}
 
 		reply_flags = (button | modifiers) + 0x20;
-		snprintf((char*) &buffer, sizeof(buffer), "\e[M%c%c%c", reply_flags, cell_x, cell_y);
+		len = snprintf((char*) &buffer, sizeof(buffer), "\e[M%c%c%c", reply_flags, cell_x, cell_y);
 
-		vte_write(vte, buffer, strlen(buffer));
+		vte_write(vte, buffer, len);
 		return true;
 	} else if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR && vte->mouse_event) {
 		if (event & TSM_MOUSE_EVENT_MOVED) {
@@ -3207,9 +3200,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			vte->mouse_last_row = cell_y;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
+		len = snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, cell_x, cell_y, pressed ? 'M' : 'm');
 
-		vte_write(vte, buffer, strlen(buffer));
+		vte_write(vte, buffer, len);
 		return true;
 	} else if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL && vte->mouse_event) {
 		if (event == TSM_MOUSE_EVENT_MOVED) {
@@ -3217,9 +3210,9 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 			pressed = true;
 		}
 
-		snprintf((char*) &buffer, sizeof(buffer), "\e[<%d;%d;%d%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
+		len = snprintf((char*) &buffer, sizeof(buffer), "\e[<%u;%u;%u%c", reply_flags, pixel_x, pixel_y, pressed ? 'M' : 'm');
 
-		vte_write(vte, buffer, strlen(buffer));
+		vte_write(vte, buffer, len);
 		return true;
 	}
 
-- 
2.43.0


From 3e9bfde1bf253d2c060064b46651a3baff7bf93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 10/36] fix: reject overlong, surrogate and out-of-range UTF-8
 input

---
 src/tsm/tsm-unicode.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index bc1609a..13aa2b1 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -501,7 +501,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 	if (!mach)
 		return TSM_UTF8_START;
 
-	c = ci;
+	c = (unsigned char)ci;
 
 	switch (mach->state) {
 	case TSM_UTF8_START:
@@ -525,7 +525,7 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 			/* start of three byte sequence */
 			mach->ch = (c & 0x0F) << 12;
 			mach->state = TSM_UTF8_EXPECT2;
-		} else if ((c & 0xF8) == 0xF0) {
+		} else if ((c & 0xF8) == 0xF0 && c <= 0xF4) {
 			/* start of four byte sequence */
 			mach->ch = (c & 0x07) << 18;
 			mach->state = TSM_UTF8_EXPECT3;
@@ -536,14 +536,18 @@ int tsm_utf8_mach_feed(struct tsm_utf8_mach *mach, char ci)
 		break;
 	case TSM_UTF8_EXPECT3:
 		mach->ch |= (c & 0x3F) << 12;
-		if ((c & 0xC0) == 0x80)
+		/* overlong encodings and values above U+10FFFF are invalid */
+		if ((c & 0xC0) == 0x80 &&
+		    mach->ch >= 0x10000 && mach->ch <= 0x10FFFF)
 			mach->state = TSM_UTF8_EXPECT2;
 		else
 			mach->state = TSM_UTF8_REJECT;
 		break;
 	case TSM_UTF8_EXPECT2:
 		mach->ch |= (c & 0x3F) << 6;
-		if ((c & 0xC0) == 0x80)
+		/* overlong encodings and surrogates are invalid */
+		if ((c & 0xC0) == 0x80 && mach->ch >= 0x800 &&
+		    (mach->ch < 0xD800 || mach->ch > 0xDFFF))
 			mach->state = TSM_UTF8_EXPECT1;
 		else
 			mach->state = TSM_UTF8_REJECT;
-- 
2.43.0


From 70bd4926d960b8fc19ead6fe31ca749f5d8af3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 11/36] fix: do not shift cells in insert mode when the
 character is wider than the screen

---
 src/tsm/tsm-screen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index a211bba..80186bf 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -404,7 +404,7 @@ static void screen_write(struct tsm_screen *con, unsigned int x,
 	line = con->lines[y];
 
 	if ((con->flags & TSM_SCREEN_INSERT_MODE) &&
-	    (int)x < ((int)con->size_x - len)) {
+	    x + len < con->size_x) {
 		line->age = con->age_cnt;
 		memmove(&line->cells[x + len], &line->cells[x],
 			sizeof(struct cell) * (con->size_x - len - x));
-- 
2.43.0


From 77c37ea05813a8ae4e232a29c860250974278ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 12/36] fix: keep the cursor at most one column past the right
 edge after wide characters

---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 80186bf..242ec4f 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1139,6 +1139,8 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 	}
 
 	screen_write(con, con->cursor_x, con->cursor_y, ch, len, attr);
+	if (len > con->size_x - con->cursor_x)
+		len = con->size_x - con->cursor_x;
 	move_cursor(con, con->cursor_x + len, con->cursor_y);
 }
 
-- 
2.43.0


From 171d948cdf95db4c6a7c1b715ea29b59531970c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:56 +0000
Subject: [PATCH 13/36] fix: clip huge counts instead of letting coordinates
 wrap around

---
 src/tsm/tsm-screen.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 242ec4f..6bb413b 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -470,6 +470,10 @@ static inline unsigned int to_abs_y(struct tsm_screen *con, unsigned int y)
 	if (!(con->flags & TSM_SCREEN_REL_ORIGIN))
 		return y;
 
+	/* saturate, the caller clips to the screen */
+	if (y > con->size_y)
+		y = con->size_y;
+
 	return con->margin_top + y;
 }
 
@@ -1557,6 +1561,9 @@ void tsm_screen_erase_chars(struct tsm_screen *con, unsigned int num)
 	else
 		x = con->cursor_x;
 
+	if (num > con->size_x)
+		num = con->size_x;
+
 	screen_erase_region(con, x, con->cursor_y, x + num - 1, con->cursor_y,
 			     false);
 }
-- 
2.43.0


From 1284b49c08fdbb4d7c5c4612334f03780bfb1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 14/36] fix: do not send NUL for key characters beyond the UCS4
 range

---
 src/tsm/tsm-vte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 2ded1b4..d357f48 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3123,7 +3123,7 @@ bool tsm_vte_handle_keyboard(struct tsm_vte *vte, uint32_t keysym,
 			}
 			vte_write_raw(vte, &val, 1);
 		} else {
-			len = tsm_ucs4_to_utf8(tsm_symbol_make(unicode), u8);
+			len = tsm_ucs4_to_utf8(unicode, u8);
 			if (!len) {
 				vte->flags &= ~TSM_VTE_FLAG_PREPEND_ESCAPE;
 				return false;
-- 
2.43.0


From 0576f53136117389a37c28f1806a5174f303b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:40 +0000
Subject: [PATCH 15/36] fix: do not execute escape sequences with unknown
 intermediates as if they had none

---
 src/tsm/tsm-vte.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index d357f48..97511fe 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -110,6 +110,7 @@ enum parser_action {
 #define CSI_PLUS	0x0100		/* CSI: + */
 #define CSI_POPEN	0x0200		/* CSI: ( */
 #define CSI_PCLOSE	0x0400		/* CSI: ) */
+#define CSI_OTHER	0x0800		/* CSI: any other marker or intermediate */
 
 /* max CSI arguments */
 #define CSI_ARG_MAX 16
@@ -1006,6 +1007,9 @@ static void do_collect(struct tsm_vte *vte, uint32_t data)
 	case ')':
 		vte->csi_flags |= CSI_PCLOSE;
 		break;
+	default:
+		vte->csi_flags |= CSI_OTHER;
+		break;
 	}
 }
 
-- 
2.43.0


From f4b2704d288ec15bca640bed5967de4fecbd8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 16/36] fix: do not add the origin to cursor positions read
 back from the screen

---
 src/tsm/tsm-vte.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 97511fe..bae2652 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -758,10 +758,23 @@ static void save_state(struct tsm_vte *vte)
 	vte->saved_state.origin_mode = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
 }
 
+/* Move to a position as returned by tsm_screen_get_cursor_{x,y}(), which is
+ * never relative to the origin, not even in origin mode. */
+static void move_to_abs(struct tsm_vte *vte, unsigned int x, unsigned int y)
+{
+	bool origin = vte->flags & TSM_VTE_FLAG_ORIGIN_MODE;
+
+	if (origin)
+		tsm_screen_reset_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+	tsm_screen_move_to(vte->con, x, y);
+	if (origin)
+		tsm_screen_set_flags(vte->con, TSM_SCREEN_REL_ORIGIN);
+}
+
 static void restore_state(struct tsm_vte *vte)
 {
-	tsm_screen_move_to(vte->con, vte->saved_state.cursor_x,
-			       vte->saved_state.cursor_y);
+	move_to_abs(vte, vte->saved_state.cursor_x,
+		    vte->saved_state.cursor_y);
 	vte->cattr = vte->saved_state.cattr;
 	to_rgb(vte, &vte->cattr);
 	if (vte->flags & TSM_VTE_FLAG_BACKGROUND_COLOR_ERASE_MODE)
@@ -1687,8 +1700,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 				vte->alt_cursor_y =
 					tsm_screen_get_cursor_y(vte->con);
 			} else {
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case 1049: /* Alternate screen buffer with pre-erase+cursor */
@@ -1706,8 +1719,8 @@ static void csi_mode(struct tsm_vte *vte, bool set)
 			} else {
 				tsm_screen_reset_flags(vte->con,
 						       TSM_SCREEN_ALTERNATE);
-				tsm_screen_move_to(vte->con, vte->alt_cursor_x,
-						   vte->alt_cursor_y);
+				move_to_abs(vte, vte->alt_cursor_x,
+					    vte->alt_cursor_y);
 			}
 			continue;
 		case TSM_VTE_MOUSE_EVENT_BTN:
@@ -1848,7 +1861,10 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 			num = 1;
 		x = tsm_screen_get_cursor_x(vte->con);
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, x, y + num);
+		if (vte->flags & TSM_VTE_FLAG_ORIGIN_MODE)
+			tsm_screen_move_down(vte->con, num, false);
+		else
+			tsm_screen_move_to(vte->con, x, y + num);
 		break;
 	case 'F': /* CPL */
 		/* Move cursor up the indicated # of rows, to column 1 */
@@ -1875,7 +1891,7 @@ static void do_csi(struct tsm_vte *vte, uint32_t data)
 		if (num <= 0)
 			num = 1;
 		y = tsm_screen_get_cursor_y(vte->con);
-		tsm_screen_move_to(vte->con, num - 1, y);
+		move_to_abs(vte, num - 1, y);
 		break;
 	case 'J':
 		if (vte->csi_flags & CSI_WHAT)
-- 
2.43.0


From e6bcaa94708b3870e8ed14ef208eeec4684313e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 17/36] fix: do not take the arguments of malformed extended
 colors for attributes

---
 src/tsm/tsm-vte.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index bae2652..e3cfabd 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -1412,6 +1412,7 @@ static void csi_attribute(struct tsm_vte *vte)
 				if (i + 2 >= vte->csi_argc ||
 					vte->csi_argv[i + 2] < 0) {
 					llog_debug(vte, "invalid 256color SGR");
+					i += 2;
 					break;
 				}
 				code = vte->csi_argv[i + 2];
@@ -1440,6 +1441,7 @@ static void csi_attribute(struct tsm_vte *vte)
 					vte->csi_argv[i + 3] < 0 ||
 					vte->csi_argv[i + 4] < 0) {
 						llog_debug(vte, "invalid true color SGR");
+						i += 4;
 						break;
 					}
 				cr = vte->csi_argv[i + 2];
-- 
2.43.0


From 5a3e5eed2b69fc40d0bae323648779f522abbcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:55 +0000
Subject: [PATCH 18/36] fix: report wheel buttons distinguishably in X10 mouse
 mode

---
 src/tsm/tsm-vte.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index e3cfabd..08f3330 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -3177,18 +3177,19 @@ bool tsm_vte_handle_mouse(struct tsm_vte *vte, unsigned int cell_x,
 		return false;
 	}
 
+	/* the bits of the plain wheel button numbers are taken by modifiers */
+	if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
+		button = 64;
+	} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
+		button = 65;
+	}
+
 	if (vte->mouse_mode == TSM_VTE_MOUSE_MODE_SGR || vte->mouse_mode == TSM_VTE_MOUSE_MODE_PIXEL) {
 		/* internally we use zero indexing but the xterm spec requires the
 		 * top left cell to have the coordinates 1,1 */
 		cell_x++;
 		cell_y++;
 
-		if (button == TSM_MOUSE_BUTTON_WHEEL_UP) {
-			button = 64;
-		} else if (button == TSM_MOUSE_BUTTON_WHEEL_DOWN) {
-			button = 65;
-		}
-
 		reply_flags = button | modifiers;
 	}
 
-- 
2.43.0


From b7bf8a3662d052e0fe1efe2e39593bf4dbdf7994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 19/36] fix: resize marks the whole screen as changed

---
 src/tsm/tsm-screen.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 6bb413b..54da82c 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -685,6 +685,8 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	}
 
 	screen_inc_age(con);
+	/* rows and the cursor may be displayed at other cells than before */
+	con->age = con->age_cnt;
 
 	/* clear expansion/padding area */
 	start = x;
-- 
2.43.0


From a567b4f335742df77694799f0179f629369c2222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 20/36] fix: selection copy stays inside the screen and its
 buffer

---
 src/tsm/tsm-selection.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 7821f03..03daba4 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -193,6 +193,10 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 	struct line *iter;
 	struct selection_pos *buffer;
 
+	/* nothing comes before the top of the scroll-back buffer */
+	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP)
+		return;
+
 	if ((*end)->line == NULL && (*end)->y == SELECTION_TOP) {
 		swap_selections(start, end);
 
@@ -290,6 +294,9 @@ static int selection_count_lines(struct selection_pos *start, struct selection_p
 		return 0;
 	}
 
+	if (end->y < start->y)
+		return 0;
+
 	return end->y - start->y + 1;
 }
 
@@ -346,10 +353,10 @@ static int calc_selection_line_len(struct tsm_screen *con, struct selection_pos
 /*
  * Calculate the maximum needed space for the number of lines given
  */
-static unsigned int calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
+static size_t calc_line_copy_buffer(struct tsm_screen *con, unsigned int num_lines)
 {
-	// 4 is the max size of a Unicode character
-	return con->size_x * num_lines * 4 + 1;
+	// 4 is the max size of a Unicode character, each line ends with a newline
+	return ((size_t)con->size_x * 4 + 1) * num_lines + 1;
 }
 
 /*
@@ -415,7 +422,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 {
 	struct selection_pos *start, *end;
 	struct selection_pos start_copy, end_copy;
-	int buf_size = 0;
+	size_t buf_size = 0;
 	int pos = 0;
 	int total_lines;
 
@@ -440,7 +447,7 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 	if (start->y == SELECTION_TOP && start->line == NULL &&
 		end->y == SELECTION_TOP && end->line == NULL) {
 		*out = strdup("");
-		return 0;
+		return *out ? 0 : -ENOMEM;
 	}
 
 	norm_selection(con, &start, &end);
@@ -455,6 +462,24 @@ int tsm_screen_selection_copy(struct tsm_screen *con, char **out)
 		}
 	}
 
+	/* scroll-back lines precede the first line of the screen */
+	if (start->line)
+		start->y = 0;
+
+	/* only cells of the screen can be selected */
+	if (!start->line && start->y < 0) {
+		start->y = 0;
+		start->x = 0;
+	}
+	if (!end->line && end->y >= (int)con->size_y) {
+		end->y = con->size_y - 1;
+		end->x = con->size_x - 1;
+	}
+	if (start->x > con->size_x)
+		start->x = con->size_x;
+	if (end->x >= con->size_x)
+		end->x = con->size_x - 1;
+
 	total_lines =  selection_count_lines_sb(con, start, end);
 	total_lines += selection_count_lines(start, end);
 	buf_size = calc_line_copy_buffer(con, total_lines);
-- 
2.43.0


From 4797d350638a2b700471a2e63357a399bea9210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 21/36] fix: selection copy writes spaces for empty cells
 instead of NUL bytes

---
 src/tsm/tsm-selection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 03daba4..3fc9e4d 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -163,7 +163,11 @@ static unsigned int copy_line(struct line *line, char *buf,
 	}
 
 	for (i = start; i < line->size && i < end; ++i) {
-		if (i < line->size || !line->cells[i].ch)
+		/* covered by the wide character in front of it */
+		if (!line->cells[i].width)
+			continue;
+
+		if (line->cells[i].ch)
 			pos += tsm_ucs4_to_utf8(line->cells[i].ch, pos);
 		else
 			pos += tsm_ucs4_to_utf8(' ', pos);
-- 
2.43.0


From ea58f147b9508aaa5ee651f5dbfcaf0fd5b67395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 22/36] fix: selection ending at the newest scrollback line is
 put in order

---
 src/tsm/tsm-selection.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/src/tsm/tsm-selection.c b/src/tsm/tsm-selection.c
index 3fc9e4d..5d43d49 100644
--- a/src/tsm/tsm-selection.c
+++ b/src/tsm/tsm-selection.c
@@ -194,9 +194,6 @@ static void swap_selections(struct selection_pos **a, struct selection_pos **b)
  */
 static void norm_selection(struct tsm_screen *con, struct selection_pos **start, struct selection_pos **end)
 {
-	struct line *iter;
-	struct selection_pos *buffer;
-
 	/* nothing comes before the top of the scroll-back buffer */
 	if ((*start)->line == NULL && (*start)->y == SELECTION_TOP)
 		return;
@@ -217,21 +214,9 @@ static void norm_selection(struct tsm_screen *con, struct selection_pos **start,
 			return;
 		}
 
-		/*
-		 * multi line selection
-		 *
-		 * search from end->line to con->sb_last
-		 * if we find start->line on the way we
-		 * need to change start and end
-		*/
-		iter = (*end)->line;
-		while (iter && iter != con->sb_last) {
-			if (iter == (*start)->line) {
-				swap_selections(start, end);
-			}
-
-			iter = iter->next;
-		}
+		/* multi line selection; ids grow from the top to the bottom */
+		if ((*start)->line->sb_id > (*end)->line->sb_id)
+			swap_selections(start, end);
 
 		return;
 	}
-- 
2.43.0


From d3e4adc5fba91f48b61bc187ea7821b5f3671e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 23/36] fix: drawing a selection clipped at the top while
 scrolled back

---
 src/tsm/tsm-render.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 88ad847..34c2bab 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -100,13 +100,13 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line ||
-			    (!con->sel_start.line &&
+			    (!con->sel_start.line && k &&
 			     con->sel_start.y == k - 1))
 				sel_start = true;
 			else
 				sel_start = false;
 			if (con->sel_end.line == line ||
-			    (!con->sel_end.line &&
+			    (!con->sel_end.line && k &&
 			     con->sel_end.y == k - 1))
 				sel_end = true;
 			else
-- 
2.43.0


From 551129bace9585cf20635ce76a48d63a3beecefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 24/36] fix: scroll position number follows evictions and
 resets

---
 src/tsm/tsm-screen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 54da82c..7186a12 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -231,12 +231,14 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 			if (con->sb_pos == tmp ||
 			    !(con->flags & TSM_SCREEN_FIXED_POS)) {
 				if (con->sb_pos->next) {
+					/* same index, the first line is gone */
 					con->sb_pos = con->sb_pos->next;
-					++con->sb_pos_num;
 				} else {
 					con->sb_pos = line;
-					con->sb_pos_num = 0;
+					con->sb_pos_num = con->sb_count;
 				}
+			} else {
+				--con->sb_pos_num;
 			}
 		}
 
@@ -806,6 +808,8 @@ void tsm_screen_set_max_sb(struct tsm_screen *con,
 		 * remove lines from the TOP of the scrollback buffer. */
 		if (con->sb_pos == line)
 			con->sb_pos = con->sb_first;
+		else if (con->sb_pos_num)
+			--con->sb_pos_num;
 
 		if (con->sel_active) {
 			if (con->sel_start.line == line) {
@@ -937,7 +941,7 @@ void tsm_screen_sb_reset(struct tsm_screen *con)
 	con->age = con->age_cnt;
 
 	con->sb_pos = NULL;
-	con->sb_pos_num = 0;
+	con->sb_pos_num = con->sb_count;
 }
 
 SHL_EXPORT
-- 
2.43.0


From 7b6d59ccd60f40e1c4ac8ecfee8ea0c61a6528d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 25/36] fix: page scrolling by a huge count goes to the end

---
 src/tsm/tsm-screen.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 7186a12..ce32e3a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -58,6 +58,7 @@
 
 #include <errno.h>
 #include <inttypes.h>
+#include <limits.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -917,6 +918,8 @@ void tsm_screen_sb_page_up(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_up(con, num * con->size_y);
 }
 
@@ -927,6 +930,8 @@ void tsm_screen_sb_page_down(struct tsm_screen *con, unsigned int num)
 		return;
 
 	screen_inc_age(con);
+	if (num > UINT_MAX / con->size_y)
+		num = UINT_MAX / con->size_y;
 	tsm_screen_sb_down(con, num * con->size_y);
 }
 
-- 
2.43.0


From a638428a4a3689d58e017e0907469a7d55d85f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 26/36] fix: ids of composed symbols match their table index

---
 src/tsm/tsm-unicode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 13aa2b1..5d29d4c 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -155,7 +155,8 @@ int tsm_symbol_table_new(struct tsm_symbol_table **out)
 		return -ENOMEM;
 	memset(tbl, 0, sizeof(*tbl));
 	tbl->ref = 1;
-	tbl->next_id = TSM_UCS4_MAX + 2;
+	/* the next symbol gets next_id + 1; its index is id - (UCS4_MAX + 1) */
+	tbl->next_id = TSM_UCS4_MAX + 1;
 	shl_htable_init(&tbl->symbols, cmp_ucs4, hash_ucs4, NULL);
 
 	ret = shl_array_new(&tbl->index, sizeof(uint32_t*), 4);
-- 
2.43.0


From ea8d9549dc5da725f01eec232a1bd68bbf2f44a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 27/36] fix: symbol error path frees the allocated pointer

---
 src/tsm/tsm-unicode.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 5d29d4c..45ae363 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -308,7 +308,8 @@ err_symbol:
 	shl_htable_remove(&tbl->symbols, nval, hash_ucs4(nval, NULL), NULL);
 err_id:
 	--tbl->next_id;
-	free(nval);
+	/* key is prefixed with the ID, so pass the allocated pointer */
+	free(nval - 1);
 	return sym;
 }
 
-- 
2.43.0


From c13953be6a7c0cb8c0ee6100e5ee599a515cdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 28/36] fix: move the selection along with scroll regions,
 inserted and deleted lines

---
 src/tsm/tsm-screen.c | 95 ++++++++++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 26 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index ce32e3a..0421f2a 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -272,6 +272,68 @@ static void link_to_scrollback(struct tsm_screen *con, struct line *line)
 	}
 }
 
+/* Does a selection end sit in the rows from @top to the bottom margin? It may be
+ * below the screen, too, where it is clipped when used. */
+static bool sel_in_region(struct tsm_screen *con, struct selection_pos *pos,
+			  unsigned int top)
+{
+	return !pos->line && pos->y >= (int)top &&
+	       (pos->y <= (int)con->margin_bottom ||
+		con->margin_bottom + 1 >= con->size_y);
+}
+
+/* Move the selection along when the rows from @top to the bottom margin scroll
+ * up by @num. If @pushed is set, the topmost rows went into the scrollback,
+ * otherwise they are gone and the selection is dropped if it ended there. */
+static void sel_scroll_up(struct tsm_screen *con, unsigned int top,
+			  unsigned int num, bool pushed)
+{
+	struct selection_pos *pos[] = { &con->sel_start, &con->sel_end };
+	unsigned int i;
+	int y;
+
+	if (!con->sel_active)
+		return;
+
+	for (i = 0; i < 2; ++i) {
+		if (!sel_in_region(con, pos[i], top))
+			continue;
+
+		y = pos[i]->y - (int)num;
+		if (y >= (int)top) {
+			pos[i]->y = y;
+		} else if (pushed) {
+			pos[i]->line = con->sb_last;
+			while (pos[i]->line && ++y < (int)top)
+				pos[i]->line = pos[i]->line->prev;
+			pos[i]->y = SELECTION_TOP;
+		} else {
+			con->sel_active = false;
+		}
+	}
+}
+
+/* Same for scrolling down; rows at the bottom margin are gone. */
+static void sel_scroll_down(struct tsm_screen *con, unsigned int top,
+			    unsigned int num)
+{
+	struct selection_pos *pos[] = { &con->sel_start, &con->sel_end };
+	unsigned int i;
+
+	if (!con->sel_active)
+		return;
+
+	for (i = 0; i < 2; ++i) {
+		if (!sel_in_region(con, pos[i], top))
+			continue;
+
+		pos[i]->y += num;
+		if (pos[i]->y > (int)con->margin_bottom &&
+		    con->margin_bottom + 1 < con->size_y)
+			con->sel_active = false;
+	}
+}
+
 static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 {
 	unsigned int i, j, max, pos;
@@ -323,26 +385,8 @@ static void screen_scroll_up(struct tsm_screen *con, unsigned int num)
 	memcpy(&con->lines[con->margin_top + (max - num)],
 	       cache, num * sizeof(struct line*));
 
-	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0) {
-			con->sel_start.y -= num;
-			if (con->sel_start.y < 0) {
-				con->sel_start.line = con->sb_last;
-				while (con->sel_start.line && ++con->sel_start.y < 0)
-					con->sel_start.line = con->sel_start.line->prev;
-				con->sel_start.y = SELECTION_TOP;
-			}
-		}
-		if (!con->sel_end.line && con->sel_end.y >= 0) {
-			con->sel_end.y -= num;
-			if (con->sel_end.y < 0) {
-				con->sel_end.line = con->sb_last;
-				while (con->sel_end.line && ++con->sel_end.y < 0)
-					con->sel_end.line = con->sel_end.line->prev;
-				con->sel_end.y = SELECTION_TOP;
-			}
-		}
-	}
+	sel_scroll_up(con, con->margin_top, num,
+		      !(con->flags & TSM_SCREEN_ALTERNATE));
 }
 
 static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
@@ -381,12 +425,7 @@ static void screen_scroll_down(struct tsm_screen *con, unsigned int num)
 	memcpy(&con->lines[con->margin_top],
 	       cache, num * sizeof(struct line*));
 
-	if (con->sel_active) {
-		if (!con->sel_start.line && con->sel_start.y >= 0)
-			con->sel_start.y += num;
-		if (!con->sel_end.line && con->sel_end.y >= 0)
-			con->sel_end.y += num;
-	}
+	sel_scroll_down(con, con->margin_top, num);
 }
 
 static void screen_write(struct tsm_screen *con, unsigned int x,
@@ -1430,6 +1469,8 @@ void tsm_screen_insert_lines(struct tsm_screen *con, unsigned int num)
 		       cache, num * sizeof(struct line*));
 	}
 
+	sel_scroll_down(con, con->cursor_y, num);
+
 	con->cursor_x = 0;
 }
 
@@ -1470,6 +1511,8 @@ void tsm_screen_delete_lines(struct tsm_screen *con, unsigned int num)
 		       cache, num * sizeof(struct line*));
 	}
 
+	sel_scroll_up(con, con->cursor_y, num, false);
+
 	con->cursor_x = 0;
 }
 
-- 
2.43.0


From 89e95409e4ad4bf88db12e988c72026a770b6a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 29/36] fix: drawing ids of composed symbols keep the
 attributes apart

---
 src/tsm/tsm-render.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index 34c2bab..c0b5526 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -162,18 +162,19 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 					age = con->age;
 			}
 
-			/* Encode attributes into the id to avoid caching problems */
+			/* Encode attributes into the id to avoid caching problems.
+			 * Composed symbols use all 32 bits of tsm_symbol_t. */
 			id = cell->ch;
 			if (attr.bold)
-				id |= 1ULL << TSM_UCS4_MAX_BITS;
-			if (attr.italic)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 1);
-			if (attr.underline)
+			if (attr.italic)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 2);
-			if (attr.inverse)
+			if (attr.underline)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 3);
-			if (attr.blink)
+			if (attr.inverse)
 				id |= 1ULL << (TSM_UCS4_MAX_BITS + 4);
+			if (attr.blink)
+				id |= 1ULL << (TSM_UCS4_MAX_BITS + 5);
 
 			ch = tsm_symbol_get(con->sym_table, &cell->ch, &len);
 			if (cell->ch == 0 || (cell->ch == ' ' && !attr.underline))
-- 
2.43.0


From 517b1fbbba10e1816ecb4dc6507b9bc4964ac6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:57 +0000
Subject: [PATCH 30/36] fix: highlight a selection that ends beyond the right
 edge only up to its end

---
 src/tsm/tsm-render.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tsm/tsm-render.c b/src/tsm/tsm-render.c
index c0b5526..ddda847 100644
--- a/src/tsm/tsm-render.c
+++ b/src/tsm/tsm-render.c
@@ -190,6 +190,14 @@ tsm_age_t tsm_screen_draw(struct tsm_screen *con, tsm_screen_draw_cb draw_cb,
 						   "suppressing further warnings during this rendering round");
 			}
 		}
+
+		/* ends of the selection beyond the right edge */
+		if (con->sel_active) {
+			if (sel_start && con->sel_start.x >= con->size_x)
+				in_sel = !in_sel;
+			if (sel_end && con->sel_end.x >= con->size_x)
+				in_sel = !in_sel;
+		}
 	}
 
 	if (con->age_reset) {
-- 
2.43.0


From ec3ad624aab75d288b0e74a0a5e8ab61b9a965c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 31/36] fix: single shifts end with the next character even if
 that is not mapped

---
 src/tsm/tsm-vte.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 08f3330..021d420 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2061,23 +2061,23 @@ static uint32_t vte_map(struct tsm_vte *vte, uint32_t val)
 	/* 32, 127, 160 and 255 map to identity like all values >255 */
 	switch (val) {
 	case 33 ... 126:
-		if (vte->glt) {
+		if (vte->glt)
 			val = (**vte->glt)[val - 32];
-			vte->glt = NULL;
-		} else {
+		else
 			val = (**vte->gl)[val - 32];
-		}
 		break;
 	case 161 ... 254:
-		if (vte->grt) {
+		if (vte->grt)
 			val = (**vte->grt)[val - 160];
-			vte->grt = NULL;
-		} else {
+		else
 			val = (**vte->gr)[val - 160];
-		}
 		break;
 	}
 
+	/* single shifts apply to the next character only, mapped or not */
+	vte->glt = NULL;
+	vte->grt = NULL;
+
 	return val;
 }
 
-- 
2.43.0


From aa06e8bf103baa3a7f8175901001ad3ccbcdb3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:55 +0000
Subject: [PATCH 32/36] fix: tolerate missing text and attribute pointers in
 public calls

---
 src/tsm/tsm-screen.c  | 2 +-
 src/tsm/tsm-unicode.c | 5 +++++
 src/tsm/tsm-vte.c     | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 0421f2a..0ca5243 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -1165,7 +1165,7 @@ void tsm_screen_write(struct tsm_screen *con, tsm_symbol_t ch,
 {
 	unsigned int last, len;
 
-	if (!con)
+	if (!con || !attr)
 		return;
 
 	len = tsm_symbol_get_width(con->sym_table, ch);
diff --git a/src/tsm/tsm-unicode.c b/src/tsm/tsm-unicode.c
index 45ae363..af114ab 100644
--- a/src/tsm/tsm-unicode.c
+++ b/src/tsm/tsm-unicode.c
@@ -363,6 +363,8 @@ unsigned int tsm_ucs4_get_width(uint32_t ucs4)
 SHL_EXPORT
 size_t tsm_ucs4_to_utf8(uint32_t g, char *txt)
 {
+	if (!txt)
+		return 0;
 	if (g >= 0xd800 && g <= 0xdfff)
 		return 0;
 	if (g > 0x10ffff || (g & 0xffff) == 0xffff || (g & 0xffff) == 0xfffe)
@@ -399,6 +401,9 @@ char *tsm_ucs4_to_utf8_alloc(const uint32_t *ucs4, size_t len, size_t *len_out)
 	char *val;
 	size_t i, pos;
 
+	if (!ucs4)
+		return NULL;
+
 	val = malloc(4 * len);
 	if (!val)
 		return NULL;
diff --git a/src/tsm/tsm-vte.c b/src/tsm/tsm-vte.c
index 021d420..27bfd7b 100644
--- a/src/tsm/tsm-vte.c
+++ b/src/tsm/tsm-vte.c
@@ -2544,7 +2544,7 @@ void tsm_vte_input(struct tsm_vte *vte, const char *u8, size_t len)
 	uint32_t ucs4;
 	size_t i;
 
-	if (!vte || !vte->con)
+	if (!vte || !vte->con || !u8)
 		return;
 
 	++vte->parse_cnt;
-- 
2.43.0


From 3f0094567b0aceb321818f9d6a4a7a61f28ea7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 33/36] fix: rearm the pty in the bridge's epoll set

The descriptor is already part of the set, so EPOLL_CTL_ADD always fails
with EEXIST and the edge-triggered event is never raised again.
---
 src/shared/shl-pty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 8c8bb32..5aa1152 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -484,7 +484,7 @@ int shl_pty_bridge_dispatch_pty(int bridge, struct shl_pty *pty)
 		up.events = EPOLLHUP | EPOLLERR | EPOLLIN | EPOLLOUT | EPOLLET;
 		up.data.ptr = pty;
 		epoll_ctl(bridge,
-			  EPOLL_CTL_ADD,
+			  EPOLL_CTL_MOD,
 			  shl_pty_get_fd(pty),
 			  &up);
 	}
-- 
2.43.0


From b9b3583e887628c7c21904a9ab64ab2f8e57de7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:16 +0000
Subject: [PATCH 34/36] fix: report unfinished writes from shl_pty_dispatch()

An interrupted or incomplete write leaves data in the output queue but
the caller was never told to dispatch again.
---
 src/shared/shl-pty.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-pty.c b/src/shared/shl-pty.c
index 5aa1152..a13bd4a 100644
--- a/src/shared/shl-pty.c
+++ b/src/shared/shl-pty.c
@@ -398,7 +398,10 @@ int shl_pty_dispatch(struct shl_pty *pty)
 		return -ENODEV;
 
 	r = pty_read(pty);
-	pty_write(pty);
+	/* unwritten data needs another round just like unread data does */
+	if (pty_write(pty) == -EAGAIN && !r)
+		r = -EAGAIN;
+
 	return r;
 }
 
-- 
2.43.0


From 50d787e7bf2bb4876d273ed4380ec7afb80fc52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 35/36] fix: blank the columns and rows a resize adds in the
 attributes in effect

tsm_screen_resize() filled added cells of the main screen with the
attributes saved at the last switch to the alternate screen even while the
main screen is active. They are all zero on a screen that never switched,
so the added cells had palette color 0 as background.
---
 src/tsm/tsm-screen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tsm/tsm-screen.c b/src/tsm/tsm-screen.c
index 0ca5243..0d7ca4e 100644
--- a/src/tsm/tsm-screen.c
+++ b/src/tsm/tsm-screen.c
@@ -649,6 +649,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 {
 	struct line **cache;
 	unsigned int i, j, width, diff, start;
+	struct tsm_screen_attr *main_attr;
 	int ret;
 	bool *tab_ruler;
 
@@ -730,6 +731,12 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 	/* rows and the cursor may be displayed at other cells than before */
 	con->age = con->age_cnt;
 
+	/* the saved attributes of the main screen are only valid while the
+	 * alternate screen is active */
+	main_attr = &con->def_attr;
+	if (con->flags & TSM_SCREEN_ALTERNATE)
+		main_attr = &con->def_attr_main;
+
 	/* clear expansion/padding area */
 	start = x;
 	if (x > con->size_x)
@@ -742,7 +749,7 @@ int tsm_screen_resize(struct tsm_screen *con, unsigned int x,
 
 		for ( ; i < con->main_lines[j]->size; ++i)
 			screen_cell_init_generic(con, &con->main_lines[j]->cells[i],
-				&con->def_attr_main);
+				main_attr);
 
 		/* alt-lines never go into SB, only clear visible cells */
 		i = 0;
-- 
2.43.0


From 0a551790405e304de187064a87734db32caab1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:10 +0000
Subject: [PATCH 36/36] fix: keep hash table entries distinguishable from empty
 and deleted slots

An element whose address has none of the revealed bits set got an entry
made of hash bits only, which reads as an empty or deleted slot if they
are zero; the element could then never be found again.
---
 src/shared/shl-htable.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/shared/shl-htable.c b/src/shared/shl-htable.c
index 74e3d09..220cc83 100644
--- a/src/shared/shl-htable.c
+++ b/src/shared/shl-htable.c
@@ -270,6 +270,16 @@ static COLD void update_common(struct htable *ht, const void *p)
 	/* Find bits which are unequal to old common set. */
 	maskdiff = ht->common_bits ^ ((uintptr_t)p & ht->common_mask);
 
+	/* Reveal one bit of this pointer, too, for the same reason. */
+	if (!entry_is_valid((uintptr_t)p & (~ht->common_mask | maskdiff))) {
+		for (i = sizeof(uintptr_t)*CHAR_BIT - 1; i > 0; i--) {
+			if ((uintptr_t)p & ((uintptr_t)1 << i))
+				break;
+		}
+
+		maskdiff |= (uintptr_t)1 << i;
+	}
+
 	/* These are the bits which go there in existing entries. */
 	bitsdiff = ht->common_bits & maskdiff;
 
@@ -295,7 +305,8 @@ static bool htable_add(struct htable *ht, size_t hash, const void *p)
 	if (ht->elems+1 + ht->deleted > ht->max_with_deleted)
 		rehash_table(ht);
 	assert(p);
-	if (((uintptr_t)p & ht->common_mask) != ht->common_bits)
+	if (((uintptr_t)p & ht->common_mask) != ht->common_bits ||
+	    !entry_is_valid(make_hval(ht, p, 0)))
 		update_common(ht, p);
 
 	ht_add(ht, p, hash);
-- 
2.43.0

