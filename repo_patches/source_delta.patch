From af97fa8571b1e151654fd43296c2b24da67cce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 01/12] fix: do not wrap mouse coordinates that exceed a SHORT

---
 src/agent/ConsoleInput.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/agent/ConsoleInput.cc b/src/agent/ConsoleInput.cc
index 192cac2..978cff6 100644
--- a/src/agent/ConsoleInput.cc
+++ b/src/agent/ConsoleInput.cc
@@ -66,6 +66,12 @@ std::string MouseRecord::toString() const {
 
 const unsigned int kIncompleteEscapeTimeoutMs = 1000u;
 
+// A mouse coordinate can have more digits than a SHORT can represent.
+// Saturate rather than wrap around to the other side of the screen.
+static SHORT saturatedCoord(int32_t val) {
+    return std::max<int32_t>(-0x8000, std::min<int32_t>(val, 0x7FFF));
+}
+
 #define CHECK(cond)                                 \
         do {                                        \
             if (!(cond)) { return 0; }              \
@@ -147,9 +153,9 @@ static int matchMouse1006(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '<');         ADVANCE();
     SCAN_INT(out.flags, 8);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = saturatedCoord(temp - 1);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = saturatedCoord(temp - 1);
     CHECK(*pch == 'M' || *pch == 'm');
     out.release = (*pch == 'm');
     return pch - input + 1;
@@ -164,9 +170,9 @@ static int matchMouse1015(const char *input, int inputSize, MouseRecord &out)
     CHECK(*pch == '[');         ADVANCE();
     SCAN_INT(out.flags, 8); out.flags -= 32;
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.X = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.X = saturatedCoord(temp - 1);
     CHECK(*pch == ';');         ADVANCE();
-    SCAN_SIGNED_INT(temp, 8); out.coord.Y = temp - 1;
+    SCAN_SIGNED_INT(temp, 8); out.coord.Y = saturatedCoord(temp - 1);
     CHECK(*pch == 'M');
     out.release = false;
     return pch - input + 1;
-- 
2.43.0


From 11d737695e97f620838ad65de648f44254292af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 02/12] fix: report the process count when the process list
 buffer is too small

---
 src/libwinpty/winpty.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 3d97749..1a52038 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -950,9 +950,12 @@ winpty_get_console_process_list(winpty_t *wp, int *processList, const int proces
 
         auto actualProcessCount = reply.getInt32();
 
-        if (actualProcessCount <= processCount) {
-            for (auto i = 0; i < actualProcessCount; i++) {
-                processList[i] = reply.getInt32();
+        // The agent always sends every process ID.  Consume them all, even if
+        // they don't fit into the caller's buffer.
+        for (auto i = 0; i < actualProcessCount; i++) {
+            const auto processId = reply.getInt32();
+            if (actualProcessCount <= processCount) {
+                processList[i] = processId;
             }
         }
 
-- 
2.43.0


From a06dfcd77a309747931ccb7f54c0b2cd0aabff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 03/12] fix: keep the sync marker off line 0 when resizing

If the console scrolls the marker exactly to the top of its buffer and the
window is not far enough below it for a new one, a resize rewrote the marker at
line 0, which createSyncMarker asserts against: the agent ended.
---
 src/agent/Scraper.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/agent/Scraper.cc b/src/agent/Scraper.cc
index 21f9c67..1bbbb8b 100755
--- a/src/agent/Scraper.cc
+++ b/src/agent/Scraper.cc
@@ -213,11 +213,13 @@ void Scraper::resizeImpl(const ConsoleScreenBufferInfo &origInfo)
             m_consoleBuffer->clearLines(0, origWindowRect.Top, origInfo);
             clearBufferLines(0, origWindowRect.Top);
             if (m_syncRow != -1) {
-                createSyncMarker(std::min(
+                // The console may have scrolled the marker up to line 0.  A
+                // marker needs a blank line above it.
+                createSyncMarker(std::max(1, std::min(
                     m_syncRow,
                     BUFFER_LINE_COUNT - rows
                                       - SYNC_MARKER_LEN
-                                      - SYNC_MARKER_MARGIN));
+                                      - SYNC_MARKER_MARGIN)));
             }
         }
 
-- 
2.43.0


From 660d359eacb70ab22694101c4b49644aba4306df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 04/12] fix: do not let an exception escape the API when memory
 runs out

---
 src/libwinpty/winpty.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libwinpty/winpty.cc b/src/libwinpty/winpty.cc
index 1a52038..1ac3942 100644
--- a/src/libwinpty/winpty.cc
+++ b/src/libwinpty/winpty.cc
@@ -130,9 +130,14 @@ static void translateException(winpty_error_ptr_t *&err) {
     } catch (...) {
         ret = const_cast<winpty_error_ptr_t>(&kUncaughtException);
     }
-    trace("libwinpty error: code=%u msg='%s'",
-        static_cast<unsigned>(ret->code),
-        utf8FromWide(winpty_error_msg(ret)).c_str());
+    try {
+        TRACE("libwinpty error: code=%u msg='%s'",
+            static_cast<unsigned>(ret->code),
+            utf8FromWide(winpty_error_msg(ret)).c_str());
+    } catch (...) {
+        // Formatting the message allocates memory, which may be what we have
+        // run out of.  An exception must not escape from the API.
+    }
     if (err != nullptr) {
         *err = ret;
     } else {
-- 
2.43.0


From b72c3e95b0939e8ae496093754a1a8ba0dbb977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 05/12] fix: free SIDs and security descriptors when memory
 runs out

---
 src/shared/WindowsSecurity.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/shared/WindowsSecurity.cc b/src/shared/WindowsSecurity.cc
index 711a863..4167abb 100644
--- a/src/shared/WindowsSecurity.cc
+++ b/src/shared/WindowsSecurity.cc
@@ -52,7 +52,11 @@ SecurityItem<T> localItem(typename T::type v) {
             LocalFree(reinterpret_cast<HLOCAL>(m_v));
         }
     };
-    return SecurityItem<T>(v, std::unique_ptr<Impl>(new Impl { v }));
+    // Free the item even if the allocation of its owner fails.
+    PointerLocal guard(reinterpret_cast<void*>(v));
+    SecurityItem<T> ret(v, std::unique_ptr<Impl>(new Impl { v }));
+    guard.release();
+    return ret;
 }
 
 Sid allocatedSid(PSID v) {
@@ -65,7 +69,14 @@ Sid allocatedSid(PSID v) {
             }
         }
     };
-    return Sid(v, std::unique_ptr<Impl>(new Impl { v }));
+    // Free the SID even if the allocation of its owner fails.
+    struct Freer {
+        void operator()(void *sid) { FreeSid(sid); }
+    };
+    std::unique_ptr<void, Freer> guard(v);
+    Sid ret(v, std::unique_ptr<Impl>(new Impl { v }));
+    guard.release();
+    return ret;
 }
 
 } // anonymous namespace
-- 
2.43.0


From b70117e013fd5921d0c5438a4f467298277a524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 06/12] fix: check a message's string length before allocating
 the string

---
 src/shared/Buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shared/Buffer.cc b/src/shared/Buffer.cc
index 158a629..06ad62c 100644
--- a/src/shared/Buffer.cc
+++ b/src/shared/Buffer.cc
@@ -86,7 +86,8 @@ int64_t ReadBuffer::getInt64() {
 std::wstring ReadBuffer::getWString() {
     READ_BUFFER_CHECK(getRawValue<Piece>() == Piece::WString);
     const uint64_t charLen = getRawValue<uint64_t>();
-    READ_BUFFER_CHECK(charLen <= SIZE_MAX / sizeof(wchar_t));
+    // Check the length before allocating memory for the string.
+    READ_BUFFER_CHECK(charLen <= (m_buf.size() - m_off) / sizeof(wchar_t));
     // To be strictly conforming, we can't use the convenient wstring
     // constructor, because the string in m_buf mightn't be aligned.
     std::wstring ret;
-- 
2.43.0


From 47a56ec8ea8acd02dfbe8f4f434bb2bba90bd92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 07/12] fix: never send a console cell's control characters to
 the terminal

---
 src/agent/Terminal.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/agent/Terminal.cc b/src/agent/Terminal.cc
index afa0a36..da28c21 100644
--- a/src/agent/Terminal.cc
+++ b/src/agent/Terminal.cc
@@ -243,6 +243,15 @@ static inline unsigned int fixSpecialCharacters(unsigned int ch)
             case 0x1b: return '?';
         }
     }
+    // Other control characters would move the terminal's cursor, ring its
+    // bell or start an escape sequence (U+009B).  The console draws a NUL as a
+    // blank.
+    if (ch == 0) {
+        return ' ';
+    }
+    if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+        return '?';
+    }
     return ch;
 }
 
@@ -380,6 +389,7 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
         }
         unsigned int ch;
         scanUnicodeScalarValue(&lineData[i], width - i, cellCount, ch);
+        ch = fixSpecialCharacters(ch);
         if (ch == ' ') {
             // Tentatively add this space character.  We'll only output it if
             // we see something interesting after it.
@@ -398,7 +408,6 @@ void Terminal::sendLine(int64_t line, const CHAR_INFO *lineData, int width,
                 }
                 alreadyErasedLine = true;
             }
-            ch = fixSpecialCharacters(ch);
             char enc[4];
             int enclen = encodeUtf8(enc, ch);
             if (enclen == 0) {
-- 
2.43.0


From 9c35cbb5d725f03741df874412b11f73fe5d3d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:20 +0000
Subject: [PATCH 08/12] fix: keep control characters in the console title away
 from the terminal

---
 src/agent/Agent.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/agent/Agent.cc b/src/agent/Agent.cc
index 986edea..2140295 100644
--- a/src/agent/Agent.cc
+++ b/src/agent/Agent.cc
@@ -603,8 +603,16 @@ void Agent::syncConsoleTitle()
     std::wstring newTitle = m_console.title();
     if (newTitle != m_currentTitle) {
         if (!m_plainMode && !m_conoutPipe->isClosed()) {
+            // A control character in the title would end the escape sequence
+            // and leave the rest of the title to be executed by the terminal.
+            std::wstring safeTitle = newTitle;
+            for (wchar_t &ch : safeTitle) {
+                if (ch < 0x20 || (ch >= 0x7f && ch <= 0x9f)) {
+                    ch = L'?';
+                }
+            }
             std::string command = std::string("\x1b]0;") +
-                    utf8FromWide(newTitle) + "\x07";
+                    utf8FromWide(safeTitle) + "\x07";
             m_conoutPipe->write(command.c_str());
         }
         m_currentTitle = newTitle;
-- 
2.43.0


From 8c166c2191d45c835ffec21122e189a1c9cbef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 09/12] fix: keep the debug server running when a client
 connects early

---
 src/debugserver/DebugServer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debugserver/DebugServer.cc b/src/debugserver/DebugServer.cc
index 353d31c..86e03dc 100644
--- a/src/debugserver/DebugServer.cc
+++ b/src/debugserver/DebugServer.cc
@@ -94,7 +94,10 @@ int main(int argc, char *argv[]) {
     char msgBuffer[MSG_SIZE + 1];
 
     while (true) {
-        if (!ConnectNamedPipe(serverPipe, nullptr)) {
+        // A client can connect (and even leave again) before this call.
+        if (!ConnectNamedPipe(serverPipe, nullptr) &&
+                GetLastError() != ERROR_PIPE_CONNECTED &&
+                GetLastError() != ERROR_NO_DATA) {
             fprintf(stderr, "error: ConnectNamedPipe failed\n");
             fflush(stderr);
             exit(1);
-- 
2.43.0


From 5e03dc4b8d46c4a434115da8c692898b393a1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 10/12] fix: do not ask for a console of size zero

A terminal that has not been given a size reports 0 by 0, which
winpty_config_set_initial_size and winpty_set_size answer by aborting.
---
 src/unix-adapter/main.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 992cb70..8fc492e 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -593,6 +593,11 @@ int main(int argc, char *argv[])
     sz.ws_col = 80;
     sz.ws_row = 25;
     ioctl(STDIN_FILENO, TIOCGWINSZ, &sz);
+    if (sz.ws_col == 0 || sz.ws_row == 0) {
+        // The terminal doesn't know its size.
+        sz.ws_col = 80;
+        sz.ws_row = 25;
+    }
 
     DWORD agentFlags = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
     if (args.testConerr)        { agentFlags |= WINPTY_FLAG_CONERR; }
@@ -688,7 +693,8 @@ int main(int argc, char *argv[])
         {
             winsize sz2;
             ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (memcmp(&sz, &sz2, sizeof(sz)) != 0) {
+            if (sz2.ws_col > 0 && sz2.ws_row > 0 &&
+                    memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
             }
-- 
2.43.0


From 1cb26fbec8e1e564864ee354c45fdcc931d889d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 11/12] fix: ignore the terminal's size when it cannot be read

The size was compared with, and set from, an uninitialized structure when
standard input is not a terminal (or not any more).
---
 src/unix-adapter/main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index 8fc492e..c537ee2 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -692,8 +692,8 @@ int main(int argc, char *argv[])
         // Check for terminal resize.
         {
             winsize sz2;
-            ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2);
-            if (sz2.ws_col > 0 && sz2.ws_row > 0 &&
+            if (ioctl(STDIN_FILENO, TIOCGWINSZ, &sz2) == 0 &&
+                    sz2.ws_col > 0 && sz2.ws_row > 0 &&
                     memcmp(&sz, &sz2, sizeof(sz)) != 0) {
                 sz = sz2;
                 winpty_set_size(wp, sz.ws_col, sz.ws_row, NULL);
-- 
2.43.0


From 87b1c96d4cc943e1877dcb6a7fb7d80122d3e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:53 +0000
Subject: [PATCH 12/12] fix: notice a resize of the terminal while the session
 starts

A resize between reading the terminal's size and registering the SIGWINCH
handler was lost until the next one.
---
 src/unix-adapter/main.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unix-adapter/main.cc b/src/unix-adapter/main.cc
index c537ee2..106443c 100644
--- a/src/unix-adapter/main.cc
+++ b/src/unix-adapter/main.cc
@@ -672,6 +672,9 @@ int main(int argc, char *argv[])
     }
 
     registerResizeSignalHandler();
+    // The terminal may have been resized since its size was read, when there
+    // was no handler yet.  Have the loop below look at the size once.
+    mainWakeup().set();
     SavedTermiosMode mode =
         setRawTerminalMode(args.testAllowNonTtys, true, args.testConerr);
 
-- 
2.43.0

