"""Planted bugs in the desktop helper and the choice of the font."""
from seeds import B
from seeds2 import run
BD = 'src/shared/BackgroundDesktop.cc'; CF = 'src/agent/ConsoleFont.cc'; DH = 'src/agent/AgentCreateDesktop.cc'
DESK = r'''
#include "demo.h"
#include "shared/BackgroundDesktop.h"
#include "agent/AgentCreateDesktop.h"
#define agentAssertFail otherAssertFail
#define assertTrace otherAssertTrace
#define agentShutdown otherShutdown
#include "desktop.cc"
int agentMain() { handleCreateDesktop(L"\\\\.\\pipe\\winpty-control-7"); return 0; }
'''
FONT = '#include "demo.h"\n#include "font.cc"\n'
AFONT = '#include "demo.h"\n#include "agentfont.cc"\n'
B('helper-reads', 'A11', 'agent', [(DH, '    if (m_pipe.isClosed()) {', '    if (m_pipe.isClosed() || m_pipe.bytesAvailable() > 0) {')],
  'a client that says something', 'the desktop is closed while the client needs it',
  run(DESK, 'harness_desktop', dict(props=1024), [('name length', 2), ('name character', 65), ('name character', 66), ('name length', 1), ('name character', 67), ('the client says something', 1)]))
B('helper-fails', 'A11', 'agent', [(BD, '''    if (m_newDesktop != nullptr) {
        CloseDesktop(m_newDesktop);
        m_newDesktop = nullptr;
    }
    if (m_newStation != nullptr) {
        CloseWindowStation(m_newStation);
        m_newStation = nullptr;
    }''', '''    if (m_newDesktop != nullptr) {
        CloseDesktop(m_newDesktop);
        CloseWindowStation(m_newStation);
        m_newDesktop = nullptr;
        m_newStation = nullptr;
    }''')],
  'the desktop cannot be made on the new window station', 'the window station stays open',
  run(DESK, 'harness_desktop', dict(props=1024), [('name length', 1), ('name character', 65), ('name length', 1), ('name character', 67), ('failing call', 4)]))
B('font-half', 'A12', 'agent', [(CF, 'std::min(columns, std::max(40, columns / 2))', 'columns / 2')],
  'a terminal of 40 to 80 columns', 'the font is larger than it need be, and fewer rows fit on the screen',
  run(FONT, 'harness_font_vista', {}, [('windows', 2), ('code page', 4), ('columns', 60)]))
B('font-fallback', 'A12', 'agent', [(CF, 'const auto fontFB = selectSmallFont(0, columns, isNewW10);', 'const auto fontFB = selectSmallFont(codePage, columns, !isNewW10);')],
  "a system whose code page is Chinese and that has not the font for it", 'no font is set at all, and the console gets no larger than the default font lets it',
  run(FONT, 'harness_font_vista', {}, [('windows', 2), ('code page', 1), ('columns', 80), ('font is: set, another, refused', 2)]))
B('font-xp', 'A12', 'agent', [(CF, '''            trace("setSmallFontXP: SetConsoleFont call failed");
            continue;''', '''            trace("setSmallFontXP: SetConsoleFont call failed");
            return;''')],
  'Windows XP, and the smallest font cannot be set', 'the console keeps its large font',
  run(FONT, 'harness_font_xp', {}, [('fonts', 2), ('width', 5), ('height', 8), ('font is: set, refused, ignored', 1), ('width', 6), ('height', 9), ('font is: set, refused, ignored', 0)]))
B('font-frozen', 'A12', 'agent', [('src/agent/Scraper.cc', '''        m_console.setFrozen(false);
        setSmallFont(m_consoleBuffer->conout(), cols, m_console.isNewW10());
    }''', '''        setSmallFont(m_consoleBuffer->conout(), cols, m_console.isNewW10());
        m_console.setFrozen(false);
    }''')],
  'a resize', 'the font is changed while the console is frozen, which hangs some versions of Windows 10',
  run(AFONT, 'harness_agent_font', dict(n=1, k=0, sympid=-1), [('size', 11)]))
UM = 'src/unix-adapter/main.cc'; UI = 'src/unix-adapter/InputHandler.cc'; UO = 'src/unix-adapter/OutputHandler.cc'; UU = 'src/unix-adapter/Util.cc'
UX = '#include "demo.h"\n#include "ux.cc"\n'
def text(s): return [('argument length', len(s))] + [('argument character', ord(c)) for c in s]
B('arg-tail', 'U01', 'ux', [(UM, '''            result.append(bsCount * 2, '\\\\');
            result.push_back('\\"');''', '''            result.append(bsCount, '\\\\');
            result.push_back('\\"');''')],
  'an argument with a blank in it that ends with a backslash', 'the closing quote becomes part of the argument, and the next argument too',
  run(UX, 'harness_ux_args', dict(props=1, nargs=2, chars=5), [('terminal columns', 80), ('terminal rows', 25), ('arguments', 2)] + text('a \\') + text('b')))
B('arg-count', 'U01', 'ux', [(UM, '''                result.append(bsCount * 2 + 1, '\\\\');
                result.push_back('\\"');
                bsCount = 0;''', '''                result.append(bsCount * 2 + 1, '\\\\');
                result.push_back('\\"');''')],
  'an argument with a backslash before a quote', 'a backslash appears after the quote',
  run(UX, 'harness_ux_args', dict(props=1, nargs=2, chars=5), [('terminal columns', 80), ('terminal rows', 25), ('arguments', 1)] + text('\\"b')))
B('stop-early', 'U02', 'ux', [(UI, '''        m_wakeup.reset();
        if (m_shouldShutdown) {
            trace("InputHandler: shutting down");
            break;
        }
''', '''        if (m_shouldShutdown) {
            trace("InputHandler: shutting down");
            break;
        }
        m_wakeup.reset();
''')],
  'the request to end arrives just before the thread empties its wakeup pipe', 'the thread never ends, and the adapter hangs when the program has ended',
  run(UX, 'harness_ux_input', dict(props=2), [('shutdown', 1)]))
B('read-signal', 'U02', 'ux', [(UI, '''        if (numRead == -1 && errno == EINTR) {
            // Apparently, this read is interrupted on Cygwin 1.7 by a SIGWINCH
            // signal even though I set the SA_RESTART flag on the handler.
            continue;
        }

        // tty''', '''        // tty''')],
  'a resize of the terminal interrupts the read of a key', 'the session ends',
  run(UX, 'harness_ux_input', dict(props=2, types=1, eintr=1), [('something is typed', 1), ('bytes typed', 1), ('byte typed', 65), ('select is interrupted', 0), ('reading is interrupted', 1)]))
B('write-part', 'U03', 'ux', [(UU, '''                        reinterpret_cast<const char*>(buffer) + written,
                        size - written);''', '''                        reinterpret_cast<const char*>(buffer),
                        size - written);''')],
  'a terminal that takes only part of the output at once', 'part of the output is shown twice and part of it never',
  run(UX, 'harness_ux_output', dict(props=4, sends=1, splits=1, chunk=3), [('the agent sends something', 1), ('bytes sent', 2), ('byte sent', 65), ('byte sent', 66), ('partial write', 1), ('bytes written', 1)]))
B('woken-first', 'U03', 'ux', [(UO, '''    m_threadCompleted = 1;
    m_completionWakeup.set();''', '''    m_completionWakeup.set();
    m_threadCompleted = 1;''')],
  'the main thread runs between the two steps', 'the adapter does not end with its program',
  run(UX, 'harness_ux_output', dict(props=4), []))
B('modes-late', 'U04', 'ux', [(UM, '''        buf.c_cflag &= ~(CSIZE | PARENB);
        buf.c_cflag |= CS8;
        buf.c_oflag &= ~OPOST;
        if (tcsetattr(i, TCSAFLUSH, &buf) < 0) {''', '''        ret.mode[i] = buf;
        buf.c_cflag &= ~(CSIZE | PARENB);
        buf.c_cflag |= CS8;
        buf.c_oflag &= ~OPOST;
        if (tcsetattr(i, TCSAFLUSH, &buf) < 0) {''')],
  'standard input and output are the same terminal', 'the terminal stays raw after the session',
  run(UX, 'harness_ux_session', dict(props=8), [('lflag', 11), ('oflag', 1), ('terminal columns', 80), ('terminal rows', 25)]))
B('modes-error', 'U04', 'ux', [(UM, '    ret.valid[2] = setStderr;', '    ret.valid[2] = true;')],
  'standard error is a terminal of its own, or a file', 'the adapter refuses to run, or changes the mode of a terminal that it does not use',
  run(UX, 'harness_ux_session', dict(props=8, devices=1), [('terminal', 0), ('terminal', 1), ('oflag', 1), ('oflag', 1), ('terminal columns', 80), ('terminal rows', 25)]))
B('free-late', 'U05', 'ux', [(UM, '''    winpty_free(wp);

    inputHandler.shutdown();
    outputHandler.shutdown();
''', '''    inputHandler.shutdown();
    outputHandler.shutdown();
    winpty_free(wp);
''')],
  'the terminal is closed while the program runs', 'the adapter waits for ever for output that does not come, and the program goes on',
  run(UX, 'harness_ux_session', dict(props=16), [('terminal columns', 80), ('terminal rows', 25)]))
B('size-race', 'U05', 'ux', [(UM, '''        selectWrapper("main thread", mainWakeup().fd() + 1, &readfds);
        mainWakeup().reset();
''', '''        selectWrapper("main thread", mainWakeup().fd() + 1, &readfds);
'''), (UM, '''        // Check for an I/O handler shutting down (possibly''', '''        mainWakeup().reset();

        // Check for an I/O handler shutting down (possibly''')],
  'the terminal is resized again just after its size has been read', 'the console keeps the size between the two',
  run(UX, 'harness_ux_session', dict(props=16, resizes=1), [('terminal columns', 80), ('terminal rows', 25), ('terminal columns', 100), ('terminal rows', 30)] + [('the terminal is resized', 0)] * 13 + [('the terminal is resized', 1)]))
B('suffix-case', 'U06', 'ux', [(UM, '        actualSuf[i] = tolower(actualSuf[i]);', '        actualSuf[i] |= 0;')],
  'a batch file whose suffix is in capitals', 'it is not found',
  run(UX, 'harness_ux_find', dict(props=32), [('terminal columns', 80), ('terminal rows', 25), ('name', 2), ('file', 2)]))
B('term-sync', 'U06', 'ux', [(UM, '''    std::map<std::string, std::string> varsToCopy;
''', '''    SetEnvironmentVariableW(L"TERM", NULL);
    std::map<std::string, std::string> varsToCopy;
'''), (UM, '''    // https://github.com/rprichard/winpty/issues/43.
    SetEnvironmentVariableW(L"TERM", NULL);
''', '''    // https://github.com/rprichard/winpty/issues/43.
''')],
  "Cygwin, where the environment is only made when it is asked for", 'the program believes that it runs in the terminal',
  run(UX, 'harness_ux_session', dict(props=64), [('terminal columns', 80), ('terminal rows', 25)]))
