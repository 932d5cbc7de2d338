"""The text of each property (properties.jsonl) and where it is anchored."""
SPEC = {}
def S(pid, title, statement, over, quant, why, files, mech, note=None, na=None):
    SPEC[pid] = dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na)

CI = 'src/agent/ConsoleInput.cc'
S('I01', 'Typed text reaches the console unchanged, with the keys that produce it',
  'Every character that a client sends as UTF-8 text outside an escape sequence reaches the console exactly once and in order, as a key press and release (surrogate halves separately above U+FFFF) whose virtual key, scan code and Shift/Ctrl/Alt state are those the keyboard layout gives for it; ESC before a character adds Alt. Bytes that are not valid UTF-8 are dropped, an invalid lead byte alone and a malformed character with its announced length, and never disturb the characters around them.',
  ['inputs', 'configurations'], 'all byte streams of text (valid or not), all layout answers, both terminal input modes',
  'The tests type one ASCII word; no test sends multi-byte, malformed or layout-dependent characters.',
  [CI, 'src/agent/UnicodeEncoding.h', 'src/agent/DefaultInputMap.cc'],
  [('ConsoleInput::scanInput, appendUtf8Char, appendKeyPress, appendCPInputRecords', CI), ('utf8CharLength, decodeUtf8', 'src/agent/UnicodeEncoding.h')])
S('I02', 'Input means the same however it is split into writes',
  'The console input records that a stream of input produces depend only on its bytes: splitting the stream at any point into separate writes that arrive without a pause gives the same records in the same order as one write.',
  ['inputs', 'schedules'], 'all byte streams and all split points',
  'Pipe reads split a stream at arbitrary places; the tests see only whole short writes.',
  [CI], [('ConsoleInput::writeInput, doWrite (m_byteQueue, incomplete matches)', CI)])
S('I03', 'An unfinished escape sequence is held back, then flushed after the timeout',
  'Input that may be the start of a longer escape sequence, report or character is held while more may follow, and when the incomplete-sequence timeout has passed it is interpreted as it stands (an unfinished UTF-8 character is dropped); so a lone ESC becomes an Escape key, after the timeout and not before. Later input is unaffected, and a DSR reply request is sent at once for a lone ESC that needs it and its reply is never typed into the console.',
  ['inputs', 'schedules'], 'all write sequences and all delays between them, tick-counter wrap-around included',
  'Depends on arrival times; no test waits inside a sequence.',
  [CI, 'src/agent/DsrSender.h', 'src/agent/Agent.cc'], [('ConsoleInput::flushIncompleteEscapeCode, doWrite, scanInput', CI)])
S('I04', 'Key escape sequences decode to the keys and modifiers terminals mean',
  'Every escape sequence that common terminals send for a function, cursor, editing or keypad key, with any modifier parameter or a leading ESC for Alt, reaches the console as exactly that key press and release with exactly those modifiers, and nothing else; a sequence that is not one of these is not turned into some other key.',
  ['inputs', 'configurations'], 'all escape sequences up to the bound, all modifier parameters, all console input modes',
  'There are hundreds of sequences and modifiers in the table and pattern code; the tests send none of them.',
  ['src/agent/DefaultInputMap.cc', 'src/agent/InputMap.cc', CI], [('addDefaultEntriesToInputMap, addCtrlArrowMappings and friends', 'src/agent/DefaultInputMap.cc'), ('InputMap::lookupKey', 'src/agent/InputMap.cc'), ('ConsoleInput::scanInput', CI)])
S('I05', 'Every injected key press is released, with modifiers bracketing it',
  'Whatever bytes are sent, every key-down record written to a console without terminal (VT) input is followed by the matching key-up, synthetic Ctrl, Alt and Shift presses precede the key they modify and are released after it, and the modifier state of each record is what these presses imply; no modifier or key stays down when the input is used up.',
  ['inputs', 'configurations'], 'all byte streams, all layout answers, both terminal input modes',
  'A stuck key needs a particular sequence; the tests do not look at console input records.',
  [CI], [('ConsoleInput::appendKeyPress, appendInputRecord', CI)])
S('I06', 'Mouse reports become console mouse events at the right cell',
  'A well-formed mouse report in any of the three encodings terminals use becomes console mouse records with the reported button, wheel direction, motion and modifiers at the console cell that the reported position denotes in the current window, positions outside it being moved or saturated but never wrapped; when the console does not accept mouse input the report is consumed silently, and a report never leaks into the console as typed text.',
  ['inputs', 'configurations'], 'all reports in the three encodings, all window positions, all console modes',
  'No test sends a mouse report.',
  [CI, 'src/agent/ConsoleInputReencoding.cc'], [('ConsoleInput::scanMouseInput, appendMouseInputRecord, parseMouseInput', CI)])
S('I07', 'Mouse button state and double clicks follow the report history',
  'In any history of press, drag, release, motion and wheel reports, the button state of every mouse record is the set of buttons then held, a release clears the button (or all, where the encoding does not say which), and a second press of the same button on the same cell within the double-click time is marked as a double click exactly when the first was not one and no other press or release of another button came between.',
  ['histories', 'inputs'], 'all histories of reports up to the bound with all delays',
  'State carries across reports and depends on time; no test sends one.',
  [CI], [('ConsoleInput::appendMouseInputRecord, m_mouseButtonState, m_doubleClick', CI)])
S('I08', 'Ctrl-C interrupts exactly when the console processes input',
  'A Ctrl-C byte outside an escape sequence raises a console interrupt (and no key record for it) exactly when the console has processed input on at that moment, in order with the input around it; otherwise, also when the mode cannot be read, it reaches the program as a Ctrl+C key.',
  ['inputs', 'configurations', 'fault_sequences'], 'all streams and all input modes, changing between writes',
  'The tests press no Ctrl-C.',
  [CI], [('ConsoleInput::scanInput (Ctrl-C), flushInputRecords', CI)])
S('I09', 'With VT input on, text and keys reach the program as terminal sequences',
  'When the console program has asked for terminal (VT) input, text reaches it as the same characters and each recognised key as exactly the standard escape sequence of that key with its modifiers (Alt as an ESC prefix, unmodified cursor keys through the console window so that its cursor-key mode applies), in order, with nothing lost, repeated or typed besides.',
  ['inputs', 'configurations'], 'all byte streams up to the bound with VT input on',
  'No test enables VT input.',
  [CI, 'src/agent/ConsoleInputReencoding.cc'], [('ConsoleInput::doWrite, scanInput', CI), ('reencodeEscapedKeyPress', 'src/agent/ConsoleInputReencoding.cc')])
S('I10', 'The console input mode is set up once, as configured',
  'At start the agent sets the console input modes it needs (mouse and quick-edit as the mouse mode asks) without disturbing the others, and terminal mouse reporting is asked for exactly while the configured mouse mode and the current console input mode call for it.',
  ['configurations', 'histories'], 'all input modes, all mouse modes',
  'The tests use the default mode only.',
  [CI, 'src/agent/Agent.cc'], [('ConsoleInput::ConsoleInput, updateInputFlags, shouldActivateTerminalMouse', CI)])

TE = 'src/agent/Terminal.cc'
S('O01', 'The terminal shows exactly the console line that was sent',
  'After each update, a terminal that interprets the output shows every character and its colours of the console line in its own cell, including double-width characters and characters outside the BMP, blank to the right of it, without touching any other line, and with the cursor where it is said to be; also when the width changes between updates.',
  ['inputs', 'histories'], 'all lines of cells with all attributes, all update histories up to the bound',
  'The tests compare at most short ASCII output, not the screen a terminal would build.',
  [TE, 'src/agent/UnicodeEncoding.h'], [('Terminal::sendLine, moveTerminalToLine, hideTerminalCursor, showTerminalCursor', TE), ('outputSetColor', TE)])
S('O02', 'Console cells can never inject control bytes; the output is valid UTF-8',
  'Whatever 16-bit values and attributes the console cells hold, including control characters, unpaired surrogates and mismatched double-width halves, the output stream is valid UTF-8 in which every control character and sequence is one that the agent itself generates, and it has exactly the cells\' characters in order (a NUL as a blank, control characters and halves of pairs as a question mark). UTF-8 encoding and decoding are exact inverses on every Unicode scalar value and refuse everything else.',
  ['inputs'], 'all cell values, all attributes; all code points and byte strings',
  'A program can put any 65536 x 65536 values into a cell; the tests print ASCII.',
  [TE, 'src/agent/UnicodeEncoding.h'], [('Terminal::sendLine, fixSpecialCharacters, scanUnicodeScalarValue', TE), ('encodeUtf8, decodeUtf8', 'src/agent/UnicodeEncoding.h')])
S('O03', 'Plain output has only text, CRLF and requested colours',
  'In plain-text output mode the output holds no cursor, erase or mode sequences, and colour sequences only if they were asked for; each new line appears once and is ended by CR LF, text appended to the last line follows without repeating it, and a changed line is sent again on a line of its own.',
  ['inputs', 'histories', 'configurations'], 'all line contents and update histories up to the bound',
  'Plain mode is exercised with one program and no changing line.',
  [TE], [('Terminal::sendLine (plain mode), moveTerminalToLine', TE)])
S('O04', 'Console attributes map to the documented terminal colours',
  'Every combination of foreground, background, intensity, reverse and underline attributes is sent as the terminal colours that winpty documents for it (black background and light grey text are the defaults, equal colours are concealed, a light background is shown inverted), whatever attribute came before; reverse and underline bits count exactly under the console modes and code pages in which the console draws them.',
  ['inputs', 'configurations'], 'all 65536 attributes after representative predecessors, all output modes and code pages',
  'Only default colours appear in the tests.',
  [TE, 'src/agent/Scraper.cc'], [('outputSetColor, outputSetColorSgrParams', TE), ('Scraper::attributesMask', 'src/agent/Scraper.cc')])
S('O05', 'A line is resent exactly when what the terminal shows is out of date',
  'A console line is left unsent only if the terminal, counting columns that a narrower window had hidden and a wider one exposes again, already shows exactly its characters and attributes; an unchanged line of unchanged width is not resent.',
  ['inputs', 'histories'], 'all pairs and triples of contents and widths up to the bound',
  'Needs widths that shrink and grow with particular contents.',
  ['src/agent/ConsoleLine.cc'], [('ConsoleLine::detectChangeAndSetLine, blank, reset', 'src/agent/ConsoleLine.cc')])
S('O06', 'Large console reads return every requested cell within the size limit',
  'Reading a rectangle of the console yields exactly its cells, each from its own place and with its attributes masked as asked, for every rectangle size; on Windows versions that cannot answer large reads, no single read exceeds the limit that works there.',
  ['inputs', 'configurations'], 'all rectangle sizes up to the buffer, both classes of Windows',
  'The test host has one Windows version and one size.',
  ['src/agent/LargeConsoleRead.cc', 'src/agent/LargeConsoleRead.h'], [('largeConsoleRead', 'src/agent/LargeConsoleRead.cc')])
S('O07', 'Every printed line reaches the terminal exactly once and in order',
  'Every line that a console program prints appears in the output exactly once, complete and in order, however printing and polling interleave, when the console scrolls, when more than a window of lines is printed between polls, when visible lines are edited in place, and when the program writes while the agent reads; after each poll the last lines on the terminal are the console window.',
  ['schedules', 'histories'], 'all interleavings of printing, editing and polling up to the bound, on old and new consoles',
  'Scroll detection depends on what was printed between two polls; the tests print a few lines slowly.',
  ['src/agent/Scraper.cc', 'src/agent/Win32ConsoleBuffer.cc'], [('Scraper::scrapeBuffer, scrollingScrapeOutput, syncMarkerText, createSyncMarker, findSyncMarker', 'src/agent/Scraper.cc')])
S('O08', 'Terminal mouse reporting is switched on and off exactly once per change',
  'The sequences that enable and disable terminal mouse reporting are sent only when the wanted state changes, in matching pairs, and never in plain-text output.',
  ['histories', 'configurations'], 'all histories of wanted states up to the bound',
  'No test switches mouse mode.',
  [TE], [('Terminal::enableMouseMode', TE)])
S('O10', "A full-screen program's window is shown as it is",
  'When a program gives the console a screen buffer of its own size, the terminal is cleared once and from then on, after every poll, shows the visible part of the console window exactly, with its colours, and the cursor where and only where the console shows it, for every buffer size and window position; the console is never left frozen.',
  ['inputs', 'histories'], 'all small buffer and window geometries, cells, cursors and colours, two or more polls',
  'No test runs a full-screen program.',
  ['src/agent/Scraper.cc', TE], [('Scraper::directScrapeOutput, scrapeBuffer', 'src/agent/Scraper.cc')])
S('A04', 'Resizing keeps program output and gives the console the new size',
  'After a resize the console window has exactly the requested size, whatever sizes, cursor position and scroll-back came before, the output history continues without losing, repeating or reordering printed lines, and the console buffer is never left frozen or with the agent\'s own marker in the program\'s text.',
  ['histories', 'schedules'], 'all interleavings of resizes, prints and polls up to the bound',
  'The tests never resize.',
  ['src/agent/Scraper.cc', 'src/agent/Win32ConsoleBuffer.cc'], [('Scraper::resizeWindow, resizeImpl, clearBufferLines', 'src/agent/Scraper.cc')])

LW = 'src/libwinpty/winpty.cc'
S('L03', 'Every API call either succeeds or reports the documented error',
  'winpty_open and the calls on a session succeed whenever nothing goes wrong; otherwise they fail, return the documented failure value and give an error object with a message and exactly the code documented for the cause (agent missing, not started, died, timed out, connection lost, unspecified); a call that succeeds leaves no error object, error output is optional, and the pipe names and process handle that an open session gives are those the agent announced, with an error pipe exactly when it was asked for.',
  ['fault_sequences', 'configurations'], 'all placements of failing kernel calls and broken, late or malformed agent answers',
  'The tests open a working agent only.',
  [LW, 'src/include/winpty.h'], [('translateException, API_TRY, API_CATCH', LW), ('winpty_open, createAgentSession', LW)])
S('L04', 'A session out of step with its agent is closed and never used again',
  'Each resize, spawn or process-list call sends exactly one well-formed request that says what was asked and returns success only after a complete, well-formed answer to it with nothing left over; after any other outcome (lost connection, timeout, malformed, short or overlong answer) the control pipe is closed, the call and every later one fail, and nothing more is sent; while a program that could not be started leaves the session usable.',
  ['fault_sequences', 'histories', 'inputs'], 'all call histories up to the bound with all malformed answers and I/O failures',
  'The real agent never answers wrongly in a test.',
  [LW], [('RpcOperation', LW), ('writePacket, readPacket', LW)])
S('L05', 'No API call outwaits its timeout, the agent, or its own I/O',
  'Whenever the client library waits for the agent it watches the agent process too and limits the wait to the configured timeout, reporting a death or a timeout as such; and no call returns, closes a handle or reuses a buffer while an I/O operation that it started is still in flight: the operation is cancelled and its end awaited.',
  ['schedules', 'fault_sequences'], 'all completion orders of pending I/O, cancellation, agent death and timeout',
  'Needs an operation that is pending exactly when the agent dies or stalls.',
  [LW], [('PendingIo, handlePendingIo', LW), ('connectControlPipe, writeData, readData', LW)])
S('L06', 'The agent is asked to start exactly the program that was configured',
  'winpty_spawn passes the flags, application, command line, directory and complete environment block to the agent exactly as configured (an absent one as absent), together with the desktop of the client where the agent runs on another one, and gives the client exactly the handles it asked for, each moved out of the agent and owned by the client; when the program is not started, no handles are given and CreateProcess\'s error is the one the agent reports.',
  ['inputs', 'configurations', 'fault_sequences'], 'all strings and environment blocks up to the bound, all combinations of wanted results, all failures',
  'The tests spawn with one kind of configuration.',
  [LW], [('winpty_spawn, winpty_spawn_config_new', LW), ('stealHandle', LW)])
S('L07', 'Only the agent that was started can use the control pipe',
  'The control pipe is a first and only instance with a fresh name that only the owner, the administrators and the system may open, closed to remote clients where Windows can; nothing is read from or written to it before the connected client has been found to be the very process that was started (where Windows can tell), and a different client makes opening fail; no handle or event is inheritable or shared by name.',
  ['inputs', 'fault_sequences', 'configurations'], 'all client process ids, all placements of failing kernel calls, old and new Windows',
  'The tests have no attacker and no failing security call.',
  [LW, 'src/shared/WindowsSecurity.cc'], [('createControlPipe, verifyPipeClientPid', LW), ('createPipeSecurityDescriptorOwnerFullControl', 'src/shared/WindowsSecurity.cc')])
S('L09', 'Running out of memory fails one call cleanly',
  'If any allocation fails during an API call, once or from then on, the call fails with the out-of-memory error (or the error it would have failed with anyway): no exception leaves the library, no handle, security object or memory leaks, and no handles are given out.',
  ['fault_sequences'], 'every allocation in every call, failing alone or with all later ones',
  'Allocations do not fail in the tests.',
  [LW, 'src/shared/WindowsSecurity.cc'], [('translateException', LW), ('localItem, Acl, Sid', 'src/shared/WindowsSecurity.h')])
S('L10', 'The process list is complete or its size is told, without overrun',
  'winpty_get_console_process_list returns the number of console processes that the agent reports; it stores all their ids, in order, if the buffer has room for them, and never writes outside the buffer; on failure it returns 0.',
  ['inputs'], 'all process lists and buffer sizes up to the bound',
  'The tests do not call it.',
  [LW], [('winpty_get_console_process_list', LW)])
S('L11', 'The client library leaks nothing and closes nothing twice',
  'However opening or using a session fails, every handle, SID, access list, security descriptor and block of memory is released exactly once, at the latest by winpty_free; an open session holds exactly its control pipe, its event and the agent process, a handle is never used after it was closed, and a desktop-making helper agent is let go when its work is done.',
  ['fault_sequences', 'schedules'], 'all placements of failing kernel calls, I/O failures and failing allocations',
  'Leaks and double closes on failure paths do not show in tests of the good path.',
  [LW, 'src/shared/WindowsSecurity.cc', 'src/shared/OwnedHandle.cc', 'src/shared/BackgroundDesktop.cc'], [('OwnedHandle', 'src/shared/OwnedHandle.cc'), ('winpty_s', 'src/libwinpty/WinptyInternal.h')])
S('L12', 'The background desktop lives exactly as long as it is needed',
  'Where the agent needs a background desktop it is started on the one made for it, which stays open until the agent has connected and is closed then; the client process is always put back on its own window station, and makes a desktop itself only when the client allows it, otherwise a helper agent without console or desktop does.',
  ['fault_sequences', 'configurations'], 'all placements of failing kernel calls and agent failures, the three ways to get a desktop',
  'Needs Windows Vista or 7 and failures at particular calls.',
  ['src/shared/BackgroundDesktop.cc', LW], [('BackgroundDesktop', 'src/shared/BackgroundDesktop.cc'), ('setupBackgroundDesktop, startAgentProcess', LW)])
S('L13', "The agent beside the DLL is started, hidden, with the client's configuration",
  'The agent that is started is winpty-agent.exe in the directory of the winpty DLL; if it is not there, nothing is started. It is started in a console of its own, hidden unless the debugging variable asks to show it, without inherited handles, and its command line carries the quoted path, the control pipe\'s name, and the configured flags, mouse mode and size exactly.',
  ['configurations', 'fault_sequences'], 'all flag sets and mouse modes, representative sizes',
  'The tests use one configuration.',
  [LW, 'src/libwinpty/AgentLocation.cc'], [('findAgentProgram', 'src/libwinpty/AgentLocation.cc'), ('createAgentSession, startAgentProcess', LW)])

AG = 'src/agent/Agent.cc'
NP = 'src/agent/NamedPipe.cc'
EL = 'src/agent/EventLoop.cc'
S('A01', 'Pipe data keeps its order and none is lost or invented',
  "Everything the agent writes to a pipe reaches the client in order, once and unchanged, and everything the client sends reaches the agent's reader in the same way, whatever pieces it is written or read in, however long operations stay pending, whether the client was connected before or connects later, and up to the moment the pipe is closed or breaks; the counts of bytes waiting to be sent or read are exact.",
  ['schedules', 'inputs', 'histories'], 'all pieces and contents up to the bound, all placements of pending, partial and late operations and of closing',
  'The tests run against a client that is always fast, so that hardly any operation stays pending.',
  [NP, 'src/agent/NamedPipe.h'], [('NamedPipe::IoWorker::service, InputWorker, OutputWorker', NP), ('NamedPipe::serviceIo, write, read, peek, closePipe', NP)])
S('A02', 'Each control request is answered once, in order, however it is split',
  'The agent first tells its client the names of the data pipes it has made; then every request that has come in completely is answered exactly once, in the order of the requests, with the answer that belongs to it, however the bytes of the requests are split or joined on the way; a message of unknown type is passed over without harm to those after it.',
  ['inputs', 'schedules', 'histories'], 'all sequences of requests up to the bound and all ways to split them',
  'The client library sends whole requests and waits for each answer; the tests never split or queue them.',
  [AG, 'src/shared/Buffer.cc'], [('Agent::pollControlPipe, handlePacket, writePacket', AG)])
S('A03', "When the program ends, all its output arrives before the pipes close",
  "With auto-shutdown, once the spawned program has ended, all that it printed up to its end reaches the client, the terminal's mouse reporting is turned off, and then each output pipe is closed, but never before the client has connected to it and everything has been sent, so that a slow or late client loses nothing; then the agent ends if it was told to, and otherwise still answers requests. Without auto-shutdown the pipes stay open. When the control pipe breaks, the agent ends at once.",
  ['schedules', 'crash_points', 'histories'], 'all interleavings up to the bound of printing, ending, connecting, reading and closing, races inside a poll included',
  'Output printed within the last poll, a client that connects late and a write that is pending at the end are races that tests do not hit.',
  [AG], [('Agent::onPollTimeout, autoClosePipesForShutdown', AG), ('Agent::pollControlPipe (closed)', AG)])
S('A05', 'The event loop never misses I/O, blocks on it, or oversleeps its timer',
  'Whenever the agent waits, it watches every I/O operation that is in flight and has a read in flight on every pipe it has room to read from, so that any completion wakes it; it never blocks in any other call; and with the poll timer on it waits at most until the timer is due, which fires no earlier than its interval after the last time, on any clock, wrap-around included.',
  ['schedules', 'inputs'], 'all placements of pending operations, all clock readings',
  'A missed completion is a hang that depends on timing; the tests do not run for 49 days.',
  [EL, NP], [('EventLoop::run', EL), ('NamedPipe::serviceIo (wait handles), IoWorker::getWaitEvent', NP)])
S('A06', 'The agent reports every process attached to the console',
  'A process list request is answered with the ids of all processes that are attached to the console when the list is read, however many there are and although more may start while it is being read; if Windows cannot tell, the answer is an empty list.',
  ['inputs', 'schedules'], 'all lengths around the buffer sizes, all growth between readings',
  'The tests do not ask for the list.',
  [AG], [('Agent::handleGetConsoleProcessListPacket', AG)])
S('A07', 'The program is started exactly as asked, and the handles passed on',
  'A start request starts one program with exactly the program name, command line, directory, environment block and desktop in the request (those left empty left to Windows), attached to the console without inheriting handles, or, with a separate error stream, with the console and the error buffer as its standard handles; the answer carries duplicates of just the handles asked for, or the error Windows gave, after which another start can follow; the agent itself keeps no handle to the program but the one it watches and closes that when the program has ended.',
  ['inputs', 'configurations', 'histories'], 'all texts up to the bound, all combinations of wanted handles and flags, every error code',
  'The tests start one program in one way.',
  [AG], [('Agent::handleStartProcessPacket', AG)])
S('A08', 'A size request sets the console window, and the program hears of it once',
  'After a size request the window of every console buffer has exactly the columns and rows asked for, limited to what the agent supports and the screen can show; the program is told once per request, after the change, the size of the console buffer; the answer follows; the console is not left frozen; and a click at a place in the terminal reaches the console cell that is shown there, also after the window has moved or changed its size.',
  ['inputs', 'histories', 'configurations'], 'all sizes up to the bound and extreme ones, all histories up to the bound, one and two console buffers',
  'The tests never resize.',
  [AG, 'src/agent/Scraper.cc'], [('Agent::handleSetSizePacket, resizeWindow', AG), ('Scraper::resizeImpl', 'src/agent/Scraper.cc')])
S('A09', "The agent's pipes admit only the client and never lend its identity",
  'The data pipes are first and only instances, with names of their own, that only the owner, the administrators and the system may open, closed to remote clients where Windows can; the agent connects to the control pipe so that its server can identify but not impersonate it; no event, pipe or security object is shared by name, inheritable or left behind.',
  ['configurations', 'inputs'], 'all Windows versions the code distinguishes, with and without impersonation and error buffer',
  'The tests have no attacker.',
  [NP, 'src/shared/WindowsSecurity.cc', AG], [('NamedPipe::openServerPipe, connectToServer', NP), ('Agent::createDataServerPipe', AG), ('createPipeSecurityDescriptorOwnerFullControl', 'src/shared/WindowsSecurity.cc')])
S('A10', "The agent's command line configures it exactly",
  "The agent connects to the control pipe its command line names, and the flags, mouse mode, columns and rows there decide exactly whether standard error has a buffer and pipe of its own, whether the output has escape sequences and colours, whether the terminal's mouse reporting is on, and the console's first size, which is limited to what the agent supports; when the agent ends it closes its console. A command line of another shape starts nothing and fails.",
  ['configurations'], 'all flag sets (undefined flags included) and mouse modes, representative and extreme sizes',
  'The tests use one configuration.',
  ['src/agent/main.cc', AG], [('main', 'src/agent/main.cc'), ('Agent::Agent', AG)])
S('A11', "The desktop helper keeps its desktop exactly as long as its client needs it",
  "Run as the client's helper, the agent makes a desktop on a window station of its own, tells the client at the control pipe that its command line names the desktop's full name in one message, and keeps the desktop open until the client goes away, whatever the client sends or however slowly it reads; then, or when the desktop cannot be made (which announces nothing), it puts itself back on its original window station, closes the desktop, the station and every handle, and ends.",
  ['inputs', 'histories', 'fault_sequences'], 'all names, orders of client actions and single failures within the bounds',
  'The tests never use the helper.',
  ['src/agent/AgentCreateDesktop.cc', 'src/agent/main.cc', 'src/shared/BackgroundDesktop.cc'], [('handleCreateDesktop', 'src/agent/AgentCreateDesktop.cc'), ('BackgroundDesktop', 'src/shared/BackgroundDesktop.cc')])
S('A12', 'Console buffers get the small font for their code page and columns',
  "At the start and after every resize each console buffer is given the font that its output code page needs (MS Gothic, NSimSun, GulimChe, MingLiU, otherwise Lucida Console) in the smallest size with which the window is at least 160 pixels wide, if possible also with half the columns (but not fewer than 40), otherwise the largest, of the sizes that work with that console (old or new); Lucida Console where an East Asian font cannot be had; on Windows XP the smallest font at least 4 pixels wide that Windows takes. It is set once, never while the console is frozen, and no failure of a font call stops the agent.",
  ['inputs', 'configurations', 'fault_sequences'], 'all numbers of columns up to 2500, all code pages, five versions of Windows, old and new consoles, refused and ignored fonts',
  'The tests have no console.',
  ['src/agent/ConsoleFont.cc', 'src/agent/Scraper.cc', AG], [('setSmallFont, selectSmallFont, setSmallFontVista, setSmallFontXP', 'src/agent/ConsoleFont.cc'), ('detectNewWindows10Console', AG), ('Scraper::resizeImpl', 'src/agent/Scraper.cc')])
S('O09', "The console's title reaches the terminal once, and cannot act on it",
  'Each time the console title has changed, the terminal gets the new title once, whole and as UTF-8 (unpaired surrogates replaced), whatever its length and the version of Windows, and nothing in a title can end its escape sequence early or start another; an unchanged title sends nothing, and plain output never carries one.',
  ['inputs', 'histories', 'configurations'], 'all titles of up to 2 arbitrary UTF-16 units, and all lengths around the buffer sizes, old and new Windows',
  'The tests do not set titles.',
  [AG, 'src/agent/Win32Console.cc'], [('Agent::syncConsoleTitle', AG), ('Win32Console::title', 'src/agent/Win32Console.cc')])

BU = 'src/shared/Buffer.cc'
S('L01', 'A message decodes to what was encoded, or is refused',
  "What the client library or the agent puts into a message is what the other side reads: every number, and every string with all its characters (NULs and unpaired surrogates included). A message that was cut short, has bytes left over, or has an item of another kind where one is expected raises the decoding error at that point, and no bytes, however malformed, make the reader go outside the message or reserve memory out of proportion to it.",
  ['inputs'], 'all numbers and strings, all ways of cutting a message, all byte strings within the bounds',
  'The tests send well-formed messages of a few values.',
  [BU, 'src/shared/Buffer.h'], [('ReadBuffer::getWString', BU), ('WriteBuffer::putWString', BU)])
SB = 'src/shared/StringBuilder.h'
S('L02', 'Numbers and text are put together exactly',
  "Command lines, pipe names and trace output are built from numbers and text: a number's decimal or hexadecimal text reads back as that number, without leading zeros (or with all of them where asked for), with a sign exactly if it is negative, for every width and either character type; text is appended unchanged, with NUL termination; the length-limited string functions find the terminator if and only if it is within the limit.",
  ['inputs'], 'all numbers of each width within the bounds', 'The tests try a table of values.',
  [SB, 'src/shared/StringUtil.cc'], [('gdecOfInt', SB), ('ghexOfInt', SB)])
DC = 'src/shared/DebugClient.cc'
S('S01', 'Tracing follows WINPTY_DEBUG exactly and never disturbs the program',
  "A debug flag is on if and only if it is one of the comma-separated items of WINPTY_DEBUG (a value of 256 bytes or more counts as absent), the answer never changes, and threads that ask at once agree and leak nothing. Tracing neither changes the last-error value nor leaks a handle whatever the debug pipe does; with tracing off nothing is sent or opened; with it on each message is sent at most once, with its process and thread, cut only where it exceeds the limit, and the debug server never gets the right to impersonate the user.",
  ['inputs', 'fault_sequences', 'schedules'], 'all values of WINPTY_DEBUG within the bounds, all failures of the debug pipe, a second thread at the moment of the first look',
  'The tests run without WINPTY_DEBUG.',
  [DC], [('hasDebugFlag', DC), ('trace', DC), ('sendToDebugServer', DC)])
DS = 'src/debugserver/DebugServer.cc'
S('S02', 'The debug server prints each message and survives its clients',
  "The debug server creates its pipe for itself only: remote computers are refused, other users too, except with --everyone, which lets everyone send but not take over the pipe. It prints every message a client sends once, whole, on a line of its own, without delay, answers the client, and goes on to the next client whatever a client does: come before the server is ready, leave without a word, or send too much.",
  ['inputs', 'histories', 'fault_sequences'], 'all orders of client behaviour, message lengths up to the limit, failures during start', 'The tests do not run the debug server.',
  [DS, 'src/shared/WindowsSecurity.cc'], [('main', DS), ('createPipeSecurityDescriptorOwnerFullControlEveryoneWrite', 'src/shared/WindowsSecurity.cc')])
GR = 'src/shared/GenRandom.cc'
S('S03', "Pipe and object names are unique and cannot be guessed",
  "Names for pipes and kernel objects never repeat: not within a process, and not between processes that differ in id or in time. When either source of randomness works a name also carries all of its 16 random bytes, so that two names with different random parts differ; without one, names stay unique. Names consist of letters, digits and dashes only and fit a pipe name, and what was opened for them is released once.",
  ['inputs', 'fault_sequences'], 'all random parts and clock readings, both sources of randomness, missing or failing', 'The tests make a few names.',
  [GR], [('GenRandom::uniqueName', GR), ('GenRandom::fillBuffer', GR)])
WV = 'src/shared/WindowsVersion.cc'
S('S04', 'The Windows version is recognised, and describing it does no harm',
  "Windows is taken for Vista, 7 or 8 or later exactly when its major and minor version say so, which decides the pipe and desktop features used. The description of the system for the trace is made only when tracing is on, loads version.dll from the system directory only, and neither fails nor leaks whatever call fails.",
  ['inputs', 'fault_sequences'], 'all version numbers, any one failing call', 'The tests run on one version.',
  [WV], [('isAtLeastWindows8', WV), ('dumpWindowsVersion', WV)])

UM = 'src/unix-adapter/main.cc'; UI = 'src/unix-adapter/InputHandler.cc'; UO = 'src/unix-adapter/OutputHandler.cc'; UU = 'src/unix-adapter/Util.cc'; UW = 'src/unix-adapter/WakeupFd.cc'
NOUX = 'The winpty program needs Cygwin: the tests neither build nor run it.'
S('U01', 'The winpty program passes every argument on unchanged',
  "The program that `winpty program args...` starts gets exactly those arguments, in order and each as one argument: the command line made of them, split by the rules of Windows programs (blanks, quotes, backslashes before quotes), gives the same list again, whatever blanks, quotes, backslashes and empty arguments it has, and its first word names the program that was found.",
  ['inputs'], 'all argument lists within the bounds', NOUX, [UM], [('argvToCommandLine', UM)])
S('U02', 'What is typed reaches the agent until the adapter is told to stop',
  "Every byte read from the terminal is written to the agent's input pipe once, in order and without delay, whatever signals interrupt the calls. The input thread ends only when the terminal or the pipe ends, or when told to, which it notices at whatever moment it is told (it never blocks in a read then); its end is visible before the main thread is woken for it.",
  ['inputs', 'schedules', 'fault_sequences'], 'all bytes, all moments of the request to end, interrupted calls, partial reads and failures within the bounds', NOUX, [UI, UW, UU], [('InputHandler::threadProc', UI), ('WakeupFd', UW), ('selectWrapper', UU)])
S('U03', 'What the agent sends is shown in full',
  "Every byte that the agent sends as output, and as errors with a pipe of their own, is written to standard output (standard error) once, in order, before more is read, also when the terminal takes only part of it or signals interrupt the calls; the thread ends only when the pipe ends or the terminal is gone, and everything sent before the end is shown before the adapter exits.",
  ['inputs', 'schedules', 'fault_sequences'], 'all bytes, partial writes, interrupted calls and failures within the bounds', NOUX, [UO, UU], [('OutputHandler::threadProc', UO), ('writeAll', UU)])
S('U04', "The terminal is raw during the session and as it was afterwards",
  "While the session runs the terminal delivers keys unprocessed (no echo, line editing, signals, flow control or CR translation; 8 bits; reads return at the first byte) and shows output unprocessed, and nothing else about it is changed; when the adapter exits, after a session or with an error, every terminal mode is exactly as before, also when standard input, output and error are the same terminal or different ones. Descriptors that are not terminals are refused before anything is changed, or with -Xallow-non-tty left alone; standard error is only touched when it is used.",
  ['inputs', 'configurations'], 'all terminal modes, all combinations of terminals and other files', NOUX, [UM], [('setRawTerminalMode, restoreTerminalMode', UM)])
S('U05', "The console follows the terminal's size, and the adapter ends with its program",
  "The console starts with the terminal's size (80 by 25 where the terminal does not know it), and whenever the adapter is idle it has the terminal's current size, at whatever moment the terminal was resized; a size of zero or one that cannot be read is never passed on. The adapter goes on until the agent closes a pipe or the terminal ends, then ends the session, waits for its threads only when nothing can block them, closes each handle once after its thread, and exits with the program's exit code; when a session cannot be started it fails with a nonzero code.",
  ['inputs', 'schedules', 'fault_sequences'], 'all sizes, all moments of resizing, all orders in which the threads end, all exit codes, failures of winpty_open and winpty_spawn', NOUX, [UM, UI, UO], [('main', UM), ('terminalResized', UM), ('InputHandler::shutdown', UI), ('OutputHandler::shutdown', UO)])
S('U06', "The adapter starts the program its command line names, with its options",
  "The options before the program (and only those) reach the agent as the flags they stand for; `--`, an unknown option, a missing program and the help and version options do what the usage says, without starting anything in the latter cases. A program named without a folder is the first one on PATH that can be run (with .exe added, unless it has .exe, .com, .bat or .cmd in either case), one with a folder is that one, and one that is not there ends the adapter with an error. The agent and the program get WINPTY_DEBUG, and no TERM.",
  ['inputs', 'configurations'], 'all command lines of up to three words of the option language, all combinations of files on PATH', NOUX, [UM], [('parseArguments, findProgram, setupWin32Environment', UM)])
