"""The jobs of each property: which harness, entry and bounds decide it."""
PROPS = {}
AG = ('agent',)
T = ('thorough',)

def J(name, harness, entry, tiers=('quick', 'thorough'), groups=AG, reach=('done',), shards=1, cost=1, **params):
    return dict(name=name, harness=harness, entry=entry, groups=groups, reach=list(reach), tiers=tiers, shards=shards, cost=cost, params=params)

def P(pid, jobs, bounds, outside, assumptions=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions) + [
        'The sources are compiled by clang 18 for x86_64 Windows with the libstdc++ headers of MinGW; LLVM IR of -O1 is what is executed.',
        'Win32 functions are stand-ins (harness/w32.h) that answer as the harness states; the real kernel and console host are not modelled beyond that.'])

I = 'in_ref'
M = 'in_misc'

P('I01', [
    J('text3', I, 'harness_in_ref', n=3, text=1, vk=1, mode=0), J('text1vt', I, 'harness_in_ref', n=1, text=1, vk=1),
    J('char3', I, 'harness_in_ref', n=3, text=1, vk=1, lead=0xe0, mode=0), J('char4', I, 'harness_in_ref', n=4, text=1, vk=1, lead=0xf0, mode=0),
    J('char4vt', I, 'harness_in_ref', n=4, text=1, vk=0, lead=0xf0, mode=4),
    J('noesc4', I, 'harness_in_ref', n=4, noesc=1, cost=5), J('noesc5', I, 'harness_in_ref', n=5, noesc=1, mode=0, cost=5),
    J('alt3', I, 'harness_in_ref', n=3, first=2, vk=1, mode=0), J('alt4', I, 'harness_in_ref', n=4, first=2, vk=1, lead=0xe0, mode=0),
    J('alt5', I, 'harness_in_ref', n=5, first=2, vk=1, lead=0xf0, mode=0),
    J('noesc6', I, 'harness_in_ref', T, n=6, noesc=1, mode=0), J('text5', I, 'harness_in_ref', T, n=5, text=1, vk=1, mode=0),
  ], 'up to 5 arbitrary bytes per run (every sequence of characters, valid or malformed, that fits), arbitrary VkKeyScan results (one set of modifiers per run), VT input on and off',
  'longer streams; characters with different layout modifiers in one stream')

P('I02', [J('n3k1', 'in_chunk', 'harness_in_chunk', n=3, split=1, vk=0), J('n3k2', 'in_chunk', 'harness_in_chunk', n=3, split=2, vk=0)] +
         [J(f'n4k{k}', 'in_chunk', 'harness_in_chunk', n=4, split=k, vk=0, cost=9) for k in (1, 2, 3)] +
         [J(f'seq{n}k{k}', 'in_chunk', 'harness_in_chunk_seq', n=n, split=k, cost=4) for n, k in ((6, 2), (6, 3), (6, 5), (7, 4), (7, 1))] +
         [J(f'mouse{k}', 'in_chunk', 'harness_in_chunk_mouse', split=k) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9)] +
         [J(f'n5k{k}', 'in_chunk', 'harness_in_chunk', T, n=5, split=k, vk=0, shards=4) for k in (1, 2, 3, 4)] +
         [J(f'seq8k{k}', 'in_chunk', 'harness_in_chunk_seq', T, n=8, split=k) for k in range(1, 8)],
  'inputs of up to 4 arbitrary bytes and every two-way split (thorough: 5); escape sequences of up to 7 bytes and mouse reports of 10 bytes with splits inside them',
  'longer inputs; three-way splits follow by induction only if the state between writes is the unread bytes, which I03 examines')

P('I03', [
    J('t211', I, 'harness_in_time', cost=3), J('t311', I, 'harness_in_time', n1=3, cost=4), J('t220', I, 'harness_in_time', n1=2, n2=2, n3=0),
    J('t121', I, 'harness_in_time', n1=1, n2=2, n3=1, cost=3), J('t211any', I, 'harness_in_time', n1=2, esc=0, cost=5), J('reply', I, 'harness_in_dsr', cost=3),
    J('seq5', I, 'harness_in_seq', n=5, mode=0), J('seq6', I, 'harness_in_seq', n=6, mode=0), J('any4', I, 'harness_in_ref', n=4, mode=0, cost=4),
    J('t222', I, 'harness_in_time', T, n1=2, n2=2, n3=2), J('t321', I, 'harness_in_time', T, n1=3, n2=2, n3=1), J('t331', I, 'harness_in_time', T, n1=3, n2=3, n3=1, shards=4),
  ], 'three writes of up to 3, 2 and 1 arbitrary bytes with an arbitrary delay (all 2^32 tick values, wrap-around included) and a timer poll after each; unfinished sequences of up to 6 bytes',
  'more than three writes; clocks that run backwards')

P('I04', [J(f'seq{n}', I, 'harness_in_seq', n=n, cost=5) for n in (3, 4, 5, 6, 7)] + [J(f'aseq{n}', I, 'harness_in_seq', n=n, alt=1, cost=5) for n in (4, 5, 6, 7, 8)] +
         [J(f'ss{n}', I, 'harness_in_seq', n=n, ss3=1, cost=2) for n in (3, 4, 5, 6)] + [J(f'ass{n}', I, 'harness_in_seq', n=n, ss3=1, alt=1, cost=2) for n in (4, 5, 6)] +
         [J('any4', I, 'harness_in_ref', n=4, first=2, cost=6), J('any5', I, 'harness_in_ref', T, n=5, first=2, shards=4), J('seq8', I, 'harness_in_seq', T, n=8, shards=4), J('aseq9', I, 'harness_in_seq', T, n=9, alt=1, shards=4)],
  'ESC, ESC ESC or nothing, then [ or O, then up to 4 arbitrary parameter bytes (digits, ; and [) and an arbitrary last byte; and every 4-byte string that starts with ESC; VT input on and off, processed input on and off',
  'longer strings; parameter bytes other than digits, ; and [ beyond the fourth byte')

P('I05', [J('n3', M, 'harness_in_balance', n=3, cost=3), J('n4', M, 'harness_in_balance', n=4, vk=0, cost=4), J('n3vt', M, 'harness_in_balance', n=3, vt=1, vk=0),
          J('csi5', M, 'harness_in_balance', n=5, tag=91, vk=0, cost=9), J('ss5', M, 'harness_in_balance', n=5, tag=79, vk=0, cost=9), J('esc5', M, 'harness_in_balance', n=5, tag=27, vk=0, cost=9),
          J('pairs3', M, 'harness_in_pairs', n=3, cost=3), J('pairs4', M, 'harness_in_pairs', n=4, cost=9),
          J('n4vk', M, 'harness_in_balance', T, n=4), J('csi6', M, 'harness_in_balance', T, n=6, tag=91, vk=0, shards=4), J('esc6', M, 'harness_in_balance', T, n=6, tag=27, vk=0, shards=4)],
  'every stream of up to 4 bytes, and of 5 bytes that starts with ESC [, ESC O or ESC ESC, followed by the timeout', 'longer streams')

P('I06', [J('sgr2', I, 'harness_in_mouse', k=1, digits=2), J('sgr5', I, 'harness_in_mouse', k=1, digits=5), J('sgr7', I, 'harness_in_mouse', k=1, digits=7), J('sgr2f3', I, 'harness_in_mouse', k=1, fdigits=3),
          J('sgrneg', I, 'harness_in_mouse', k=1, digits=5, neg=1), J('u5', I, 'harness_in_mouse', k=1, enc=2, digits=5, fdigits=3), J('u2neg', I, 'harness_in_mouse', k=1, enc=2, digits=2, neg=1),
          J('x10', I, 'harness_in_mouse', k=1, enc=0), J('bytes9', I, 'harness_in_mouse_bytes', n=9), J('bytes11', I, 'harness_in_mouse_bytes', n=11, cost=4), J('bytes8u', I, 'harness_in_mouse_bytes', n=8, enc=2, cost=4),
          J('bytes6x', I, 'harness_in_mouse_bytes', n=6, enc=0), J('bytes8x', I, 'harness_in_mouse_bytes', n=8, enc=0, cost=4),
          J('bytes13', I, 'harness_in_mouse_bytes', T, n=13, shards=4), J('bytes10u', I, 'harness_in_mouse_bytes', T, n=10, enc=2, shards=2)],
  'one report in each of the three encodings with arbitrary digits (coordinates of up to 7 digits, negative ones too), arbitrary window position and size up to 500 cells, every input mode; and report-like strings of up to 11 bytes',
  'windows larger than 500 cells a side')

P('I07', [J('h2', I, 'harness_in_mouse', k=2, digits=1, fdigits=1, mode=3, win=0), J('h3', I, 'harness_in_mouse', k=3, digits=1, fdigits=1, mode=3, win=0, cost=3), J('h2f2', I, 'harness_in_mouse', k=2, digits=2, fdigits=2, mode=3, win=0, cost=3),
          J('h2x10', I, 'harness_in_mouse', k=2, enc=0, mode=3, win=0), J('h2modes', I, 'harness_in_mouse', k=2, digits=1, fdigits=2, mode=2, cost=4), J('h4', I, 'harness_in_mouse_hist', k=4, cost=6), J('h5', I, 'harness_in_mouse_hist', k=5, cost=9, shards=4),
          J('h6', I, 'harness_in_mouse_hist', T, k=6, shards=8), J('h3f2', I, 'harness_in_mouse', T, k=3, digits=1, fdigits=2, mode=3, win=0, shards=4)],
  'histories of up to 5 reports (press, release, drag, motion, wheel; any button; cells that may coincide or not), with arbitrary delays between them', 'longer histories; double-click times other than 500 ms')

P('I08', [J('any4', I, 'harness_in_ref', n=4, mode=1, cost=4), J('cc4', I, 'harness_in_ctrlc', n=4, cost=3), J('cc5', I, 'harness_in_ctrlc', n=5, cost=6), J('failmode', I, 'harness_in_ctrlc', n=3, fail=1),
          J('cc6', I, 'harness_in_ctrlc', T, n=6, shards=4)],
  'streams of up to 5 bytes with Ctrl-C at arbitrary places, processed input and VT input on or off and changing between writes', 'longer streams')

P('I09', [J('any4', I, 'harness_in_ref', n=4, mode=4, cost=4)] + [J(f'seq{n}', I, 'harness_in_seq', n=n, mode=4, cost=3) for n in (3, 4, 5, 6, 7)] + [J(f'aseq{n}', I, 'harness_in_seq', n=n, alt=1, mode=4, cost=3) for n in (5, 6, 7, 8)] +
         [J(f'ss{n}', I, 'harness_in_seq', n=n, ss3=1, mode=4) for n in (3, 4, 5)] + [J('char4', I, 'harness_in_ref', n=4, text=1, lead=0xf0, mode=4), J('alt5', I, 'harness_in_ref', n=5, first=2, lead=0xf0, mode=4), J('vk1', I, 'harness_in_ref', n=1, vk=1, mode=4),
          J('vk2', I, 'harness_in_ref', n=2, first=2, vk=1, mode=4, cost=3),
          J('any5', I, 'harness_in_ref', T, n=5, mode=4, shards=4)],
  'every stream of up to 4 bytes and the escape sequences of I04, with VT input on', 'longer streams')

P('I10', [J('setup', M, 'harness_in_setup')], 'every 32-bit input mode, every mouse mode, two later modes', 'none')

O = 'term'
P('O01', [J('w3', O, 'harness_term', k=1, w=3, lines=1, alpha=7, b=7), J('w4', O, 'harness_term', k=1, w=4, lines=1, alpha=6), J('k2', O, 'harness_term', k=2, w=2, lines=2), J('k2w3', O, 'harness_term', k=2, w=3, lines=1),
          J('k3', O, 'harness_term', k=3, w=2, lines=2, b=7), J('vary', O, 'harness_term', k=2, w=3, lines=1, vary=1, b=7), J('wide2', O, 'harness_term', k=2, w=3, lines=1, alpha=2, b=7),
          J('w5', O, 'harness_term', T, k=1, w=5, lines=1, alpha=6), J('k3w3', O, 'harness_term', T, k=3, w=3, lines=1, b=7, shards=4), J('vary3', O, 'harness_term', T, k=3, w=2, lines=1, vary=1, b=7, shards=4)],
  'up to 3 successive updates of up to 2 lines of up to 4 cells (thorough: 5), each cell an arbitrary character class (ASCII, BMP, double width, surrogate pair) with arbitrary attributes, line width changing between updates',
  'longer lines and histories; lines whose double-width or surrogate halves do not match up (see O02); terminals that do not erase with the current attributes')
P('O02', [J('any2', O, 'harness_term_any', w=2), J('any3', O, 'harness_term_any', T, w=3, shards=4), J('halves3', O, 'harness_term_any', w=3, halves=1), J('halves4', O, 'harness_term_any', w=4, halves=1), J('anyc2', O, 'harness_term_any', w=2, color=1), J('plain2', O, 'harness_term_any', w=2, plain=1), J('plain3', O, 'harness_term_any', T, w=3, plain=1, shards=4), J('k2', O, 'harness_term_any', k=2, w=2),
          J('utf8', 'unicode', 'harness_utf8', reach=('scalar', 'bad')), J('decode', 'unicode', 'harness_utf8_decode', reach=('scalar', 'bad')), J('utf16', 'unicode', 'harness_utf16', reach=('scalar', 'bad')),
          J('any4', O, 'harness_term_any', T, w=4, shards=4), J('k2w3', O, 'harness_term_any', T, k=2, w=3, shards=4)],
  '2 cells (thorough: 3) of arbitrary 16-bit characters and double-width bits, 4 cells of arbitrary surrogates among letters, up to two updates; the encoder and decoder for every code point and every 4 bytes', 'longer lines')
P('O03', [J('k2', O, 'harness_term_plain', k=2, w=3), J('k2c', O, 'harness_term_plain', k=2, w=2, color=1), J('k3', O, 'harness_term_plain', k=3, w=2), J('uni', O, 'harness_term_plain', k=1, w=3, alpha=7),
          J('k3w3', O, 'harness_term_plain', T, k=3, w=3, shards=4), J('k4', O, 'harness_term_plain', T, k=4, w=2, shards=4)],
  'up to 3 updates of lines of up to 3 cells (thorough: 4 updates), colours wanted or not', 'longer lines and histories')
P('O04', [J(f'a{a:x}', O, 'harness_term_sgr', first=a) for a in (7, 0x1e, 0xf0, 0x8007)] + [J('plain', O, 'harness_term_sgr', plain=1), J('mask', 'scrape', 'harness_mask')],
  'every 16-bit attribute of a cell after one of four earlier attributes; every output mode', 'none within one cell; longer runs are in O01')
P('O08', [J('toggle', O, 'harness_term_toggle', k=4), J('plain', O, 'harness_term_toggle', k=4, plain=1), J('toggle8', O, 'harness_term_toggle', T, k=8)], 'up to 4 arbitrary changes of the mouse mode (thorough: 8)', 'longer histories')

S = 'scrape'
P('O07', [J('print', S, 'harness_scrape', k=4, burst=6), J('w10', S, 'harness_scrape', k=4, w10=1, burst=5), J('edits', S, 'harness_scrape', k=3, edits=1, w10=1, burst=2), J('editsold', S, 'harness_scrape', k=3, edits=1, burst=2),
          J('top', S, 'harness_scrape', k=4, start=0, burst=5), J('xp', S, 'harness_scrape', k=3, winver=51),
          J('race', S, 'harness_scrape', k=3, w10=1, races=1, burst=2), J('race2', S, 'harness_scrape', k=2, w10=1, races=2, burst=2), J('racetop', S, 'harness_scrape', k=2, w10=1, races=2, burst=2, start=600),
          J('print6', S, 'harness_scrape', T, k=6, burst=6, shards=4), J('w106', S, 'harness_scrape', T, k=6, w10=1, burst=6, shards=4), J('edits5', S, 'harness_scrape', T, k=5, edits=1, w10=1, burst=3, shards=8), J('race3', S, 'harness_scrape', T, k=4, w10=1, races=3, burst=2, shards=8)],
  'up to 4 polls (thorough: 6) with up to 6 lines printed between polls, at the start or the bottom of the 3000-line buffer, edits of visible lines, and on Windows 10 one or two writes during a poll; window of 3 rows and 4 columns',
  'windows larger than 4 columns; more lines between polls than the scroll-back buffer holds')
P('A04', [J('rows', S, 'harness_scrape', k=3, resizes=1, burst=4), J('cols', S, 'harness_scrape', k=3, resizes=2, burst=2), J('top', S, 'harness_scrape', k=3, resizes=1, burst=4, start=0), J('w10', S, 'harness_scrape', k=3, w10=1, resizes=2, burst=2),
          J('below', S, 'harness_scrape', k=4, resizes=1, edits=1, burst=6, rows=7, start=600, order=1320), J('belowtop', S, 'harness_scrape', k=4, resizes=1, edits=1, burst=6, rows=7, start=0, order=3320), J('mixed', S, 'harness_scrape', T, k=3, resizes=1, edits=1, burst=4, rows=7, start=600, shards=4), J('marker', S, 'harness_marker', hi=8), J('marker215', S, 'harness_marker', lo=210, hi=222), J('marker430', S, 'harness_marker', lo=425, hi=435),
          J('rows4', S, 'harness_scrape', T, k=4, resizes=1, burst=4, shards=4), J('cols4', S, 'harness_scrape', T, k=4, resizes=2, burst=2, shards=4), J('markerall', S, 'harness_marker', T, lo=0, hi=431, shards=4)],
  'up to 3 polls (thorough: 4) with arbitrary resizes among a few sizes and lines printed between them; the position where the program prints around the line where the agent puts its marker',
  'sizes other than the listed ones; resizes while the console is not frozen on Windows 10 at the same time as program output')
P('O10', [J('geo', S, 'harness_direct', k=2, cells=1, vary=3), J('cells', S, 'harness_direct', k=2, cells=1, vary=12), J('cells2', S, 'harness_direct', k=2, cells=2, vary=4), J('w10', S, 'harness_direct', k=2, cells=1, w10=1, vary=7),
          J('geo3', S, 'harness_direct', T, k=3, cells=1, vary=3, shards=4), J('cells3', S, 'harness_direct', T, k=3, cells=2, vary=12, shards=4)],
  'two polls (thorough: three) of a fixed-size buffer with arbitrary small sizes, window positions, cells, cursor and colours', 'large screens; full-screen programs that change the buffer while an unfrozen console is read')
P('O05', [J('k2', 'lines', 'harness_line', k=2), J('k3', 'lines', 'harness_line', k=3, n=2), J('ops', 'lines', 'harness_line', k=3, n=2, ops=1), J('k3n3', 'lines', 'harness_line', k=3, n=3),
          J('k4', 'lines', 'harness_line', T, k=4, n=3, ops=1, shards=4)], 'up to 3 observations of one line of up to 3 cells with arbitrary contents, widths and resets (thorough: 4)', 'longer histories and lines')
P('O06', [J('old', 'lines', 'harness_read', k=1), J('old2', 'lines', 'harness_read', k=2, h=1), J('new', 'lines', 'harness_read', k=1, winver=62), J('tall', 'lines', 'harness_read', k=1, tall=1),
          J('old3', 'lines', 'harness_read', T, k=3, h=2)], 'rectangles up to the full buffer, on both kinds of Windows, with reads of any size up to the system limit', 'none beyond the buffer sizes listed')

L = 'lib'
LG = ('lib',)
def LJ(name, entry, tiers=('quick', 'thorough'), **kw): return J(name, L, entry, tiers, groups=LG, **kw)

def LJS(bits, kind, tiers=('quick', 'thorough')):
    """The lib jobs of one kind, with the checks of one property."""
    q = []
    def A(name, entry, tiers=tiers, **kw): q.append(LJ(name, entry, tiers, props=bits, **kw))
    if 'open' in kind:
        A('open', 'harness_open', vary=1); A('pid', 'harness_open', pid=1); A('nopid', 'harness_open', nopid=1, winver=51, faults=1, desk=2); A('show', 'harness_open', show=1, missing=1)
    if 'fault' in kind:
        for d in (0, 1, 2):
            A(f'fault{d}', 'harness_open', faults=2, desk=d); A(f'both{d}', 'harness_open', io=1, faults=1, desk=d)
            A(f'both2{d}', 'harness_open', T, io=2, faults=2, desk=d, shards=2)
        A('imp', 'harness_open', faults=1, impersonate=1); A('norng', 'harness_open', faults=1, norng=1)
    if 'io' in kind:
        for d in (0, 1, 2): A(f'io{d}', 'harness_open', io=2, desk=d)
    if 'bad' in kind:
        for d in (0, 1, 2): A(f'bad{d}', 'harness_open', bad=1, desk=d)
        A('badm', 'harness_open', bad=1, desk=2, badmaker=1)
    for o, c in enumerate(('size', 'spawn', 'list')):
        if c not in kind and 'rpc' not in kind: continue
        A(c, 'harness_rpc', op=o, k=1, noerr=1, full=1, text=1); A(c + 'io', 'harness_rpc', op=o, k=2, io=2); A(c + 'bad', 'harness_rpc', op=o, k=2, bad=1)
        A(c + 'k3', 'harness_rpc', op=o, k=3, io=1)
        if o == 1: A('spawnf', 'harness_rpc', op=o, k=2, faults=1, maxop=4); A('spawnd', 'harness_rpc', op=o, k=1, desk=1); A('spawnt', 'harness_rpc', T, op=1, k=1, full=1, text=3, envs=3, shards=4)
        A(c + 'k4', 'harness_rpc', T, op=o, k=4, io=2, bad=1, shards=4)
    if 'oom' in kind:
        for st in (0, 1):
            for o in range(6): A(f'oom{o}{st}', 'harness_oom', op=o, sticky=st)
            for d in (1, 2): A(f'oomdesk{d}{st}', 'harness_oom', op=2, desk=d, sticky=st)
            A(f'oommissing{st}', 'harness_oom', op=2, missing=1, sticky=st); A(f'oomcreate{st}', 'harness_oom', op=4, createfails=1, sticky=st)
    return q
LB = 'one session of the client library: every placement of up to two failing kernel calls and up to two troubled I/O operations (pending, broken, partial, cancelled, timed out, agent dead)'
P('L03', LJS(1, 'open fault io bad rpc'), LB + ', every configuration of five window sizes, three mouse modes and eight flag sets, eight kinds of malformed answers', 'errors of the kernel beyond the sampled codes; more than two faults at once')
P('L04', LJS(2, 'bad fault rpc'), 'up to 3 calls (thorough: 4) in a session with two I/O troubles or a malformed answer; resizes of all 2^62 sizes, process lists of up to 4', 'longer sessions')
P('L05', LJS(4, 'io fault rpc'), LB + ', every timeout value', 'more than two troubled operations in one session')
P('L06', LJS(8, 'spawn'), 'application, command line and directory of up to 1 arbitrary character (thorough: 3) or absent, environments of up to 1 string (thorough: 3), every combination of wanted results, every error code', 'longer strings')
P('L07', LJS(16, 'open fault io'), LB + ', every 32-bit process id the pipe reports', 'the access check itself, which the kernel performs')
P('L09', LJS(32, 'oom'), 'every call of the API with the failure of any one allocation or of all from any point on (60 allocations; all calls make fewer)', 'the console agent; allocations inside the kernel')
P('L10', LJS(64, 'list'), 'up to 4 processes with arbitrary ids, every buffer size up to 4', 'more processes')
P('L11', LJS(128, 'open fault io bad rpc oom'), LB + ', and running out of memory at every allocation', 'more than two faults at once')
P('L12', LJS(256, 'open fault io bad') + [LJ(f'spawn{d}', 'harness_rpc', op=1, k=1, desk=d, props=256) for d in (0, 1, 2)], LB + ', Windows with and without the need for a background desktop', 'more than two faults at once')
P('L13', LJS(512, 'open fault'), 'every configuration of five window sizes, three mouse modes and eight flag sets', 'other sizes; installation paths other than the one tried')

def AJ(name, entry, bits, tiers=('quick', 'thorough'), harness='pipes', **kw): return J(name, harness, entry, tiers, props=bits, **kw)
def PIPES(bits):
    return [AJ('out', 'harness_pipe_out', bits), AJ('outserver', 'harness_pipe_out', bits, server=1, pends=2), AJ('outclose', 'harness_pipe_out', bits, server=1, close=1, k=2), AJ('outclose2', 'harness_pipe_out', bits, close=1, k=2),
            AJ('in', 'harness_pipe_in', bits, k=1, n=3), AJ('inserver', 'harness_pipe_in', bits, server=1, n=2, k=1), AJ('inclose', 'harness_pipe_in', bits, close=1, n=2, k=1), AJ('inend', 'harness_pipe_in', bits, close=2, n=2, k=1),
            AJ('out5', 'harness_pipe_out', bits, T, k=5, pends=4, shards=4), AJ('in4', 'harness_pipe_in', bits, T, n=4, k=2, shards=4), AJ('in5', 'harness_pipe_in', bits, T, n=5, limit=3, k=1, shards=4), AJ('inserver3', 'harness_pipe_in', bits, T, server=1, n=3, shards=4),
            AJ('inclose3', 'harness_pipe_in', bits, T, close=1, n=3, shards=2), AJ('inend3', 'harness_pipe_in', bits, T, close=2, n=3, shards=4)]
P('A01', PIPES(1) + [AJ('big', 'harness_pipe_big', 1, harness='pipesbig')],
  'up to 3 writes of up to 2 arbitrary bytes (thorough: 5) and 3 input bytes (thorough: 5) in arbitrary pieces, every placement of up to 3 pending operations, every moment the client can connect, read, send or close; single writes of 65534 to 65538 bytes', 'longer streams')
P('A05', PIPES(8) + [AJ('time', 'harness_loop_time', 8, k=2), AJ('timenopipe', 'harness_loop_time', 8, k=2, pipe=0), AJ('time4', 'harness_loop_time', 8, T, k=5, polls=3)],
  'the histories of A01; timers of 25 ms with a clock that starts anywhere and moves by up to a second at every look, for 2 waits (thorough: 5)', 'clocks that stand still for days or run backwards')
def RQ(name, bits, *t, **kw): return AJ(name, 'harness_agent_requests', bits, *t, harness='agent', **kw)
def SD(name, bits, *t, **kw): return AJ(name, 'harness_agent_shutdown', bits, *t, harness='agent', split=0, **kw)
SESS = 'one run of the agent with its client: '
P('A02', [RQ('one', 2, n=1, k=2, acts=2, kinds=7), RQ('start', 2, n=1, k=1, acts=2, kinds=8), RQ('two', 2, n=2, k=1, acts=2, sizes=0), RQ('pend', 2, n=2, k=2, acts=10, sizes=0, kinds=6, pends=2, split=0), RQ('part', 2, n=1, k=1, acts=10, sizes=0, kinds=7, pends=1, splits=1), RQ('fail', 2, n=2, k=1, kinds=24, acts=2),
          RQ('conerr', 2, n=1, k=1, acts=2, flags=1), AJ('big', 'harness_agent_big', 2, harness='agentbig', k=2, acts=2, pieces=1), RQ('two2', 2, T, n=2, k=2, acts=2, sizes=0, kinds=7, shards=4), RQ('three', 2, T, n=3, k=1, acts=2, sizes=0, shards=4)],
  SESS + 'up to 2 requests (thorough: 3) of every kind with arbitrary unknown types, sent in up to 3 pieces split anywhere, and up to 2 pending or partial operations; a request of nine sizes from 65535 to 190001 bytes followed by another', 'more requests; malformed requests, which only a broken client sends')
P('A03', [SD('all', 4, k=3, acts=63, outpends=1), SD('conerr', 4, k=2, acts=61, flags=1, outpends=1), SD('race', 4, k=2, acts=60, races=1), SD('gone', 4, k=3, acts=252), SD('plain', 4, k=2, acts=60, flags=2), SD('after', 4, k=2, acts=62, after=1),
          SD('all4', 4, T, k=5, acts=63, outpends=2, shards=4), SD('conerr3', 4, T, k=4, acts=61, flags=1, outpends=1, shards=4), SD('race4', 4, T, k=4, acts=60, races=2, shards=2), SD('gone4', 4, T, k=4, acts=252, shards=2)],
  SESS + 'every order of up to 3 (thorough: 5) of: client connects to some of the pipes, reads, goes away or closes a pipe, program prints, ends; and the program ending inside a poll', 'longer histories; programs that print more than a few characters')
P('A06', [AJ('list', 'harness_agent_list', 16, harness='agent', k=0, races=2, twice=1, sympid=1), AJ('fails', 'harness_agent_list', 16, harness='agent', k=0, listfails=1)],
  'lists of 1, 3, 63, 64, 65, 128 or 129 processes that can grow twice, by 1 or 70, while they are read', 'longer lists')
P('A07', [RQ('text', 512, n=1, kinds=8, text=1, k=0), RQ('conerr', 512, n=1, kinds=8, text=1, flags=1, k=0), RQ('fail', 512, n=2, kinds=24, k=0), RQ('own', 256, n=2, kinds=24, k=2, acts=60), SD('down', 768, k=3, acts=60), SD('downerr', 768, k=2, acts=60, flags=1)],
  'each of the five texts empty or of 1 arbitrary character, every combination of wanted handles and spawn flags, every error code', 'longer texts')
P('A08', [RQ('one', 128, n=2, kinds=1, k=1, acts=2, sizes=3), RQ('conerr', 128, n=2, kinds=1, k=0, flags=1), SD('prog', 128, k=3, acts=58, after=1), AJ('clamp', 'harness_agent_requests', 128, harness='agentflat', n=1, kinds=1, k=0, largestx=3000, largesty=3000), AJ('screen', 'harness_agent_requests', 128, harness='agentflat', n=1, kinds=1, k=0),
          RQ('click', 128, n=1, kinds=1, k=0, click=1), RQ('clickerr', 128, n=1, kinds=1, k=0, click=1, flags=1)],
  'two requests of any of eight small sizes, and one of twelve large and extreme sizes; windows at two positions', 'other sizes; consoles whose calls fail')
P('O09', [AJ('title', 'harness_agent_title', 64, harness='agent', k=2), AJ('long7', 'harness_agent_title', 64, harness='agent', k=3, len=1, winver=61), AJ('longxp', 'harness_agent_title', 64, harness='agent', k=3, len=1, winver=51),
          AJ('plain', 'harness_agent_title', 64, harness='agent', k=2, plain=1), AJ('title3', 'harness_agent_title', 64, T, harness='agent', k=2, len=3, shards=4)],
  'up to 3 changes to any title of up to 2 (thorough: 3) arbitrary UTF-16 units or to plain titles of 7 to 50', 'longer titles with special characters')
P('A09', [RQ('w62', 32 + 256, n=1, kinds=2, k=0), RQ('w60', 32 + 256, n=1, kinds=2, k=0, winver=60, flags=1), RQ('xp', 32 + 256, n=1, kinds=2, k=0, winver=51, flags=1), RQ('imp', 32 + 256, n=1, kinds=2, k=0, impersonate=1, flags=1)],
  'Windows XP, Vista and 8, impersonation on and off, one and two output pipes', 'the access checks themselves, which the kernel performs')
PROPS['A01']['jobs'] += [RQ('typed', 1, n=1, kinds=1, k=3, acts=260, sizes=0)]
P('A10', [J('main', 'agentmain', 'harness_agent_main', groups=('agent', '-agent_assert.cc', 'src:agent/main.cc -DWINPTY_AGENT_ASSERT -Dmain=agentMain'), props=0)],
  'all 16 sets of the low flags with and without a high one, the 3 mouse modes, 4 sizes', 'other sizes; malformed command lines, which only a person types')
PROPS['A05']['jobs'] += [SD('agent', 8, k=3, acts=63, outpends=1), RQ('agentrq', 8, n=1, k=1, acts=2, pends=1, splits=1, kinds=7, sizes=0)]
SG = ('shared', 'src:shared/GenRandom.cc -DGenRandom=GenRandomOther')
def SJ(name, entry, tiers=('quick', 'thorough'), **kw): return J(name, 'shared', entry, tiers, groups=SG, **kw)
P('L01', [SJ('message', 'harness_message', n=2), SJ('bytes', 'harness_bytes', n=12, k=2), SJ('message3', 'harness_message', T, n=3, len=3, shards=4), SJ('bytes3', 'harness_bytes', T, n=24, k=3, shards=2)],
  'messages of up to 2 items (thorough: 3) of any kind with arbitrary numbers and strings of up to 2 (thorough: 3) arbitrary UTF-16 units, damaged in five ways; any 12 bytes (thorough: 24) read as up to 2 (3) items', 'longer messages')
P('L02', [SJ('hex', 'harness_hex'), SJ('dec', 'harness_dec', to=1), SJ('limits', 'harness_dec', **{'from': 2}, split=1, bits=1), SJ('builder', 'harness_builder'), SJ('strings', 'harness_strings'), SJ('dec32t', 'harness_dec', T, **{'from': 2}, to=3, bits=3), SJ('dec64t', 'harness_dec', T, **{'from': 4}, bits=6)],
  'hexadecimal: every number of every width; decimal: every 16-bit number, and for 32 and 64 bits the numbers next to (thorough: within 8 and 64 of) zero, 2^31, 2^32, 2^63, and every power of ten, and the negations; three pieces of text', 'decimal numbers in between')
P('S03', [SJ('same', 'harness_names', pids=2), SJ('other', 'harness_names', other=1), SJ('late', 'harness_names', other=1, late=1, pids=2)],
  'two names, with six process ids, every random part, every clock reading below 256 and every later one from 2001 to 2058', 'other process ids; more than two names')
P('S01', [SJ('flags', 'harness_flags', n=5), SJ('long', 'harness_flags', long=1), SJ('trace', 'harness_trace'), SJ('flags8', 'harness_flags', T, n=8, shards=4)],
  'every WINPTY_DEBUG of up to 5 arbitrary bytes (thorough: 8) and lists of 253 to 257 bytes; five flags; traced texts of eleven lengths up to 1500; the debug pipe missing, busy up to twice, or failing', 'other formats of traced messages')
P('S04', [SJ('version', 'harness_version'), SJ('dump', 'harness_dump')], 'every version number; any one failure among the 18 calls that describe the system', 'the compatibility settings through which Windows reports another version')
P('S02', [J('clients', 'debugserver', 'harness_debugserver', groups=('shared', 'src:debugserver/DebugServer.cc -include dbg_prelude.h'), k=2), J('fail', 'debugserver', 'harness_debugserver', groups=('shared', 'src:debugserver/DebugServer.cc -include dbg_prelude.h'), k=1, faults=1, reach=('done', 'exit'))],
  'two clients that send any of six lengths of text, too much, or nothing, the first of which may come early; any one failure while the server starts', 'more than two clients')
MAIN = ('agent', '-agent_assert.cc', 'src:agent/main.cc -DWINPTY_AGENT_ASSERT -Dmain=agentMain')
PROPS['A10']['jobs'] += [J('usage', 'desktop', 'harness_usage', groups=MAIN, nargs=5), J('usage7', 'desktop', 'harness_usage', T, groups=MAIN)]
P('A11', [J('desktop', 'desktop', 'harness_desktop', groups=MAIN, reach=('done', 'named', 'failed'), props=1024 + 256)],
  'names of the window station and desktop of 1 to 3 arbitrary characters or 30 long; any one of the calls that make the desktop fails; a client that is slow, says something, or goes away before it has read the name', 'longer names')
P('A12', [J('vista', 'font', 'harness_font_vista'), J('xp', 'font', 'harness_font_xp'), J('none', 'font', 'harness_font_xp', fonts=1, none=1), J('xp4', 'font', 'harness_font_xp', T, fonts=4, shards=4)],
  '1 to 2500 columns, every code page, five versions of Windows with the old and the new console, each font set, ignored or refused, and a font that cannot be read; on XP tables of up to 3 (thorough: 4) fonts of any size up to 40 by 80', 'longer font tables')
PROPS['A12']['jobs'] += [AJ('agent', 'harness_agent_font', 0, harness='agentfont', n=1, k=0), AJ('agenterr', 'harness_agent_font', 0, harness='agentfont', n=1, k=0, flags=1, w10=1), AJ('agent7', 'harness_agent_font', 0, harness='agentfont', n=1, k=0, winver=61), AJ('agent2', 'harness_agent_font', 0, T, harness='agentfont', n=2, k=0)]

# The winpty program for Cygwin (src/unix-adapter).
UG = ('shared', 'ux')
def UJ(name, entry, bits, tiers=('quick', 'thorough'), **kw): return J(name, 'ux', entry, tiers, groups=UG, props=bits, **kw)
P('U01', [UJ('args', 'harness_ux_args', 1, nargs=2, chars=4), UJ('args3', 'harness_ux_args', 1, T, nargs=3, chars=6, shards=8)], 'up to 2 arguments (thorough: 3) with together up to 4 (6) arbitrary characters 1 to 127', 'longer arguments; characters beyond ASCII, whose conversion is the C library\'s')
P('U02', [UJ('input', 'harness_ux_input', 2, reach=('done', 'typed', 'asked'), types=2, eintr=1, splits=1, fails=1), UJ('input3', 'harness_ux_input', 2, T, reach=('done', 'typed', 'asked'), types=4, eintr=2, splits=2, fails=1, chunk=3, shards=4),
  UJ('session', 'harness_ux_session', 2, types=2, eintr=1, splits=1, fails=1)],
  'up to 2 (thorough: 4) bursts of 1 or 2 (3) arbitrary bytes; one call interrupted by a signal (2), one partial read (2), one failing write; the thread is told to end before it starts, or at any of its calls into the system; the whole program with any of its threads ending first', 'more than that; the other threads run at the calls into the system of the waiting one')
P('U03', [UJ('output', 'harness_ux_output', 4, reach=('done', 'shown'), sends=2, eintr=2, splits=2, fails=1, chunk=3), UJ('output4', 'harness_ux_output', 4, T, reach=('done', 'shown'), sends=4, eintr=3, splits=3, fails=1, chunk=3, shards=4),
  UJ('session', 'harness_ux_session', 4, sends=2, conerr=1, splits=1, eintr=1)],
  'up to 2 (thorough: 4) pieces of 1 to 3 arbitrary bytes, two (3) partial writes, two (3) calls interrupted by signals, one failing write; standard output and standard error', 'more than that')
P('U04', [UJ('modes', 'harness_ux_session', 8, nontty=1, conerr=1, devices=1), UJ('modes1', 'harness_ux_session', 8, nontty=1, spawnfails=2, openfails=1)],
  'terminals with any modes whatever; standard input, output and error on the same terminal, on different ones, or none; non-terminals allowed or not', 'failing tcgetattr and tcsetattr')
P('U05', [UJ('session', 'harness_ux_session', 16, resizes=1, spawnfails=2, openfails=1), UJ('resize2', 'harness_ux_session', 16, resizes=2), UJ('signal', 'harness_ux_session', 16, resizes=1, eintr=1), UJ('nontty', 'harness_ux_session', 16, nontty=1, conerr=1),
  UJ('conerr', 'harness_ux_session', 16, conerr=1, fails=1, types=1, sends=1), UJ('conerr1', 'harness_ux_session', 16, T, resizes=1, conerr=1, eintr=1, fails=1, types=1, sends=1, shards=4), UJ('resize3', 'harness_ux_session', 16, T, resizes=2, conerr=1, eintr=1, shards=4)],
  'terminals of any size, resized up to twice (thorough: 3 times) at any of the main thread\'s calls into the system, one call interrupted by a signal, any of the threads ending first, alone or with another; any exit code', 'failing tcgetattr and tcsetattr; kills by signals')
P('U06', [UJ('options', 'harness_ux_options', 32, words=3), UJ('find', 'harness_ux_find', 32, shards=4), UJ('run', 'harness_ux_session', 64, debug=1, conerr=1, openfails=1, spawnfails=2), UJ('options4', 'harness_ux_options', 32, T, words=4, shards=4)],
  'up to 3 (thorough: 4) words of 12 on the command line; six names of programs, four folders on PATH (one with a blank in its name, one empty), every combination of files that are there, are not, or cannot be run', 'MSYS, whose batch files need not be executable; --showkey')
