#!/usr/bin/env python3
"""Decides one property of winpty by symbolic execution of its current sources.

usage: check.py setup | check.py ID [--tier quick|thorough] [--job NAME] [--keep]
Exit: 0 held, 1 violated (with a VIOLATION line), 2 undecided.  See DESIGN.md.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('WSYM_DEV_REPO', '/repo')  # the override is for development only
SRC = REPO + '/src'
BUILD = VERIF + '/build'
ENGINE = VERIF + '/engine'
HARN = VERIF + '/harness'
NCPU = min(8, os.cpu_count() or 4)
CXXINC = '/usr/lib/gcc/x86_64-w64-mingw32/13-posix/include/c++'
sys.path.insert(0, VERIF)

DEFS = ['-DUNICODE', '-D_UNICODE', '-D_WIN32_WINNT=0x0501', '-DNOMINMAX']
CLANG = ['clang++', '-target', 'x86_64-w64-mingw32', '-std=c++11', '-O1', '-g1', '-mcmodel=large', '-emit-llvm', '-c', '-w',
         '-fno-vectorize', '-fno-slp-vectorize', '-fno-threadsafe-statics', '-fwrapv', '-fno-strict-aliasing',
         '-fno-delete-null-pointer-checks', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + DEFS
MINGW = ['x86_64-w64-mingw32-g++-posix', '-std=c++11', '-O1', '-g0', '-c', '-w', '-DWSYM_NATIVE', '-fno-strict-aliasing'] + DEFS


class Undecided(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def readb(p):
    with open(p, 'rb') as f:
        return f.read()


def build_engine():
    srcs = ['exec.cpp', 'expr.cpp', 'solver.cpp']
    key = digest(*[readb(f) for f in sorted(glob.glob(ENGINE + '/*'))])
    out = f'{BUILD}/wsym-{key}'
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    flags = subprocess.check_output(['llvm-config-18', '--cppflags'], text=True).split()
    def cc(s):
        r = sh(['g++', '-O2', '-std=c++17'] + flags + ['-c', f'{ENGINE}/{s}', '-o', f'{tmp}/{s}.o'])
        if r.returncode:
            raise Undecided('engine build failed:\n' + r.stdout)
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(cc, srcs))
    r = sh(['g++'] + [f'{tmp}/{s}.o' for s in srcs] + ['-o', f'{tmp}/wsym', '-L/usr/lib/llvm-18/lib', '-lLLVM-18', '-lz3'])
    if r.returncode:
        raise Undecided('engine link failed:\n' + r.stdout)
    os.replace(f'{tmp}/wsym', out)
    shutil.rmtree(tmp)
    return out


# Cygwin's headers, whose contents harness/ux.h stands in for.
UXHDRS = ['assert.h', 'unistd.h', 'termios.h', 'sys/ioctl.h', 'sys/select.h', 'sys/cygwin.h', 'cygwin/version.h']


class Builder:
    """Compiles /repo's sources and the harnesses, to LLVM IR and (for replay) to Windows objects."""

    def __init__(self):
        self.gen = f'{BUILD}/gen'
        self.cache = f'{BUILD}/cache'
        os.makedirs(self.gen, exist_ok=True)
        os.makedirs(self.cache, exist_ok=True)
        version = open(REPO + '/VERSION.txt').read().strip()
        text = f'const char GenVersion_Version[] = "{version}";\nconst char GenVersion_Commit[] = "none";\n'
        p = self.gen + '/GenVersion.h'
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)
        names = re.findall(r'^X\([^,]+, (\w+),', open(HARN + '/w32.h').read(), re.M)
        text = ''.join(f'#define {n} wsymw_{n}\n' for n in names)
        p = self.gen + '/rename.h'
        if not os.path.exists(p) or open(p).read() != text:
            open(p, 'w').write(text)
        for h in UXHDRS:
            os.makedirs(os.path.dirname(f'{self.gen}/ux/{h}'), exist_ok=True)
            open(f'{self.gen}/ux/{h}', 'a').close()
        hdrs = sorted(glob.glob(SRC + '/*/*.h'))
        self.repohash = digest(*[readb(f) for f in hdrs], *hdrs, text, readb(self.gen + '/GenVersion.h'))
        self.harnhash = digest(*[readb(f) for f in sorted(glob.glob(HARN + '/*.h'))])

    def units(self, groups):
        """[(source, flags)] for a list of link groups."""
        u = []
        def repo(d, skip, flags):
            for f in sorted(glob.glob(f'{SRC}/{d}/*.cc')):
                b = os.path.basename(f)
                if b in skip or b.endswith('Test.cc'):
                    continue
                u.append((f, flags))
        for g in groups:
            if g == 'agent':
                fl = ['-DWINPTY_AGENT_ASSERT']
                repo('agent', ['main.cc'], fl)
                repo('shared', ['WinptyAssert.cc'], fl)
                u.append((HARN + '/agent_assert.cc', fl))
            elif g == 'lib':
                fl = ['-DCOMPILING_WINPTY_DLL']
                repo('libwinpty', [], fl)
                repo('shared', [], fl)
            elif g == 'shared':
                repo('shared', [], [])
            elif g == 'ux':                 # the adapter for Cygwin, with stand-ins for Cygwin's headers
                repo('unix-adapter', [], ['-include', HARN + '/ux.h', '-I' + self.gen + '/ux', '-DCOMPILING_WINPTY_DLL', '-Dmain=adapterMain'])
            elif g.startswith('src:'):      # one repository file, e.g. one whose main() the harness calls
                parts = g[4:].split(' ')
                u.append((f'{SRC}/{parts[0]}', parts[1:]))
            elif g.startswith('-'):         # leave a file out
                u = [x for x in u if not x[0].endswith(g[1:])]
            else:
                raise Undecided('unknown group ' + g)
        return u

    def compile(self, src, flags, native):
        own = src.startswith(VERIF)
        key = digest(readb(src), src, self.repohash, self.harnhash if own or '-include' in flags else '', flags, native, CLANG, MINGW)
        out = f'{self.cache}/{os.path.basename(src)}-{key}.{"o" if native else "bc"}'
        if os.path.exists(out):
            return out
        inc = ['-I' + self.gen, f'-I{SRC}/include', f'-I{SRC}', f'-I{HARN}']
        tmp = out + f'.{os.getpid()}.{threading.get_ident()}'
        if native:
            cmd = MINGW + ['-include', self.gen + '/rename.h'] + flags + inc
        else:
            cmd = CLANG + flags + inc + ['-isystem', CXXINC, '-isystem', CXXINC + '/x86_64-w64-mingw32', '-isystem', '/usr/x86_64-w64-mingw32/include']
            if src.endswith('/rt.cc'):
                cmd += ['-fno-builtin']
        r = sh(cmd + [src, '-o', tmp])
        if r.returncode:
            raise Undecided(f'{src} does not compile:\n{r.stdout[-3000:]}')
        os.replace(tmp, out)
        return out

    def link_set(self, harness, groups, native, entry=None):
        hflags = []
        if 'agent' in groups: hflags.append('-DWINPTY_AGENT_ASSERT')
        if 'lib' in groups: hflags.append('-DCOMPILING_WINPTY_DLL')
        u = [(f'{HARN}/{harness}.cc', hflags), (HARN + '/w32.cc', [])]
        u += [(HARN + '/wsym_replay.cc', ['-DWSYM_ENTRY=' + entry])] if native else [(HARN + '/rt.cc', [])]
        u += self.units(groups)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda x: self.compile(x[0], x[1], native), u))


class Wine:
    """Runs replay programs under Wine, in a throw-away prefix that shares the installed one's files by symlink."""

    def __init__(self):
        self.dir = None
        self.err = None

    def start(self):
        if self.dir or self.err:
            return self.err is None
        try:
            base = '/opt/vp/wine'
            d = tempfile.mkdtemp(prefix='wsym-wine-')
            for f in glob.glob(base + '/*.reg') + [base + '/.update-timestamp']:
                shutil.copy(f, d)
            subprocess.check_call(['cp', '-as', base + '/drive_c', d])
            os.mkdir(d + '/dosdevices')
            os.symlink('../drive_c', d + '/dosdevices/c:')
            os.symlink('/', d + '/dosdevices/z:')
            self.dir = d
        except Exception as e:
            self.err = f'no Wine prefix: {e}'
            return False
        return True

    def env(self):
        return dict(os.environ, WINEPREFIX=self.dir, WINEDEBUG='-all', WINEDLLOVERRIDES='mscoree,mshtml=;winemenubuilder.exe=d')

    def run(self, exe, args, timeout=60):
        try:
            r = subprocess.run(['wine', exe] + args, env=self.env(), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, errors='replace', timeout=timeout)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return -1, 'TIMEOUT'
        except OSError as e:
            return -2, f'cannot run wine: {e}'

    def stop(self):
        if self.dir:
            subprocess.run(['wineserver', '-k'], env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            subprocess.run(['wineserver', '-w'], env=self.env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, b, v in inputs:
            f.write(f'{n.replace(" ", "_")} {b} {v}\n')


def known_findings(pid):
    out = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\w+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def main():
    args = sys.argv[1:]
    if args[:1] == ['setup']:
        build_engine()
        b = Builder()
        return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only, keep = None, False
    i = 1
    while i < len(args):
        if args[i] == '--tier': tier = args[i + 1]; i += 2
        elif args[i] == '--job': only = args[i + 1]; i += 2
        elif args[i] == '--keep': keep = True; i += 1
        elif args[i] == '-v': os.environ['WSYM_V'] = '1'; i += 1
        else: raise SystemExit('bad argument ' + args[i])
    from props import PROPS
    P = PROPS[pid]
    t0 = time.time()
    wine = Wine()
    work = tempfile.mkdtemp(prefix=f'wsym-{pid}-')
    try:
        return run(pid, P, tier, only, wine, work, t0)
    except Undecided as e:
        print(f'UNDECIDED property={pid}: {e}')
        return 2
    finally:
        wine.stop()
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work directory', work)


def run(pid, P, tier, only, wine, work, t0):
    engine = build_engine()
    B = Builder()
    jobs = [j for j in P['jobs'] if tier in j.get('tiers', ('quick', 'thorough')) and (only is None or re.fullmatch(only, j['name']))]
    budget = float(os.environ.get('WSYM_BUDGET', 840)) if tier == 'quick' else float(os.environ.get('VERIF_THOROUGH_SECONDS', 6 * 3600))
    tasks = []
    sets = {}
    for j in jobs:
        k = (j['harness'], tuple(j['groups']))
        if k not in sets:
            sets[k] = B.link_set(j['harness'], j['groups'], False)
        n = j.get('shards', 1)
        for s in range(n):
            tasks.append((j, s, n))
    # Longest jobs first.
    tasks.sort(key=lambda x: -x[0].get('cost', 1))
    t_engine = time.time()

    def engine_cmd(j, out, extra):
        cmd = [engine] + sets[(j['harness'], tuple(j['groups']))] + ['--entry', j['entry'], '--out', out, '--src-prefix', REPO + '/']
        for a, v in j.get('params', {}).items():
            cmd += ['--param', f'{a}={v}']
        return cmd + extra

    def one(task):
        j, s, n = task
        out = f'{work}/{j["name"]}-{s}.json'
        left = budget - (time.time() - t0)
        if left < 5:
            return task, {'status': 'inconclusive', 'reason': 'no time left'}
        cmd = engine_cmd(j, out, ['--max-seconds', str(int(left))])
        if n > 1:
            cmd += ['--shard', f'{s}/{n}']
        try:
            r = sh(cmd, timeout=left + 30)
        except subprocess.TimeoutExpired:
            return task, {'status': 'inconclusive', 'reason': 'engine time limit'}
        if os.environ.get('WSYM_SLOW'): open(out + '.log', 'w').write(r.stdout)
        if not os.path.exists(out):
            return task, {'status': 'inconclusive', 'reason': f'engine failed ({r.returncode}): {r.stdout[-500:]}'}
        return task, json.load(open(out))

    results = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for task, r in ex.map(one, tasks):
            results.setdefault(task[0]['name'], []).append(r)
    by = {j['name']: j for j in jobs}
    if os.environ.get('WSYM_V'):
        for n, rs in results.items():
            print(f'  {n}: {[r["status"] for r in rs]} paths {sum(r.get("paths", 0) for r in rs)} wall {[round(r.get("wall_s", 0), 1) for r in rs]} '
                  f'solver {round(sum(r.get("solver_s", 0) for r in rs), 1)} {[r.get("reason") for r in rs if r.get("reason")][:1]}', flush=True)

    exes = {}
    def native(j):
        """The replay program of a job, or a reason why there is none."""
        k = (j['harness'], tuple(j['groups']), j['entry'])
        if k not in exes:
            try:
                objs = B.link_set(j['harness'], j['groups'], True, j['entry'])
                exe = f'{work}/{j["harness"]}-{j["entry"]}.exe'
                r = sh(['x86_64-w64-mingw32-g++-posix', '-static', '-o', exe] + objs + ['-lws2_32', '-ladvapi32', '-lshell32', '-luser32', '-lgdi32'])
                exes[k] = (exe, None) if r.returncode == 0 else (None, 'replay program does not link: ' + r.stdout[-1500:])
            except Undecided as e:
                exes[k] = (None, str(e)[-1500:])
        return exes[k]

    def run_native(j, inputs):
        exe, why = native(j)
        if not exe:
            return None, why
        if not wine.start():
            return None, wine.err
        p = f'{work}/native-{threading.get_ident()}-{time.time_ns()}.txt'
        write_inputs(p, inputs)
        rc, out = wine.run(exe, ['Z:' + p.replace('/', '\\')] + [f'{a}={v}' for a, v in j.get('params', {}).items()])
        if rc == -2:
            return None, out
        return rc, out

    # ---- violations
    problems, reports, findings = [], [], []
    known = known_findings(pid)
    seen = set()
    for name, rs in results.items():
        j = by[name]
        for r in rs:
            for v in r.get('violations', []):
                if v['kind'] not in j.get('kinds', ('assert', 'memory', 'abort', 'unreachable', 'exception')) and v['kind'] in j.get('ignore_kinds', ()):
                    continue
                sig = f"{name}: {v['msg']} at {v['where']}"
                if sig in seen:
                    continue
                seen.add(sig)
                text = f"{v['msg']} [{v['kind']}] at {v['where']}"
                hit = [f for rx, f in known if rx.search(f"{name} {text}")]
                if hit:
                    findings.append(hit[0])
                    continue
                # Replay in the engine with the concrete inputs, then natively.
                ip = f'{work}/viol.txt'
                write_inputs(ip, v['inputs'])
                out = f'{work}/viol.json'
                if os.path.exists(out): os.remove(out)
                sh(engine_cmd(j, out, ['--replay', ip, '--max-seconds', '300']), timeout=400)
                rr = json.load(open(out)) if os.path.exists(out) else {}
                again = any(x['msg'] == v['msg'] for x in rr.get('violations', []))
                if not again:
                    problems.append(f'{name}: the counterexample for "{text}" does not replay in the executor ({rr.get("status")} {rr.get("reason", "")})')
                    continue
                rc, nout = run_native(j, v['inputs'])
                nat = 'not run: ' + str(nout) if rc is None else f'exit {rc}: ' + nout.strip()[-400:]
                if rc is not None and v['kind'] == 'assert' and not (rc == 43 and 'FAIL' in nout):
                    problems.append(f'{name}: the counterexample for "{text}" does not fail in the native program ({nat})')
                    continue
                os.makedirs(VERIF + '/evidence', exist_ok=True)
                rp = f'{VERIF}/evidence/{pid}-violation-{len(reports) + 1}.txt'
                with open(rp, 'w') as f:
                    f.write(f'property: {pid}\njob: {name} (harness {j["harness"]}, entry {j["entry"]}, params {j.get("params", {})})\n')
                    f.write(f'violation: {text}\nstack:\n{v["stack"]}\nnative replay: {nat}\ninputs (name bits value):\n')
                    for n, b, x in v['inputs']:
                        f.write(f'{n.replace(" ", "_")} {b} {x}\n')
                reports.append((rp, text))
    for name, rs in results.items():
        j = by[name]
        reached = {}
        for r in rs:
            if r['status'] == 'inconclusive':
                problems.append(f'{name}: {r.get("reason")}')
            for k, n in r.get('reached', {}).items():
                reached[k] = reached.get(k, 0) + n
        if len({r.get('prefix_hash') for r in rs}) > 1:
            problems.append(f'{name}: the shards disagree on their common prefix')
        if not reports and not problems:
            for l in j.get('reach', ['done']):
                if not reached.get(l):
                    problems.append(f'{name}: no path reaches "{l}"')

    # ---- conformance of the executor: run sample paths natively and compare
    validated, mism, samples, nat_note = 0, [], [], ''
    if not reports and not problems:
        todo = []
        for name, rs in results.items():
            ss = [s for r in rs for s in r.get('samples', [])]
            ss = ss[:: max(1, len(ss) // 8)][:8]
            todo += [(by[name], s) for s in ss]
        try:
            for k in {(j['harness'], tuple(j['groups']), j['entry']): j for j, _ in todo}.values():
                native(k)
            def cmp(x):
                j, s = x
                return x, run_native(j, s['inputs'])
            if todo and wine.start():
                wine.run(native(todo[0][0])[0] or 'none', ['nofile'])
            with cf.ThreadPoolExecutor(NCPU) as ex:
                for (j, s), (rc, out) in ex.map(cmp, todo):
                    want = ''.join(f'{a} {v}\n' for a, v in s['logs']) + 'DONE\n'
                    if rc is None:
                        nat_note = str(out)
                    elif rc == 0 and out.replace('\r', '') == want:
                        validated += 1
                    else:
                        mism.append(f'{j["name"]}: native run differs (exit {rc}): {out[-300:]!r} expected {want[-300:]!r} inputs {s["inputs"][:40]}')
                    if len(samples) < 6:
                        samples.append({'job': j['name'], 'inputs': s['inputs'][:48], 'observed': s['logs'][:24]})
        except Exception as e:
            nat_note = f'native validation failed: {e!r}'
        if mism:
            problems += mism[:3]
    # ---- evidence
    tot = lambda k: sum(r.get(k, 0) for rs in results.values() for r in rs)
    fns = sorted({f for rs in results.values() for r in rs for f in r.get('functions', [])})
    lines = {l for rs in results.values() for r in rs for l in r.get('lines', [])}
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': P.get('level', 'model_checking'),
        'coverage': {
            'states': tot('paths') + tot('assumed_away') + tot('error_paths'), 'transitions': tot('forks'),
            'traces_validated_against_impl': validated,
            'samples': samples or [{'note': 'no completed path was sampled'}],
            'jobs': [{'name': n, 'entry': by[n]['entry'], 'params': by[n].get('params', {}), 'status': [r['status'] for r in rs],
                      'paths': sum(r.get('paths', 0) for r in rs), 'assertions': sum(r.get('asserts', 0) for r in rs),
                      'wall_s': round(sum(r.get('wall_s', 0) for r in rs), 2)} for n, rs in results.items()],
            'bounds': P.get('bounds', ''), 'outside_bounds': P.get('outside', ''),
            'functions_encoded': fns, 'source_lines_executed': len(lines),
            'instructions': tot('instructions'), 'assertions_evaluated': tot('asserts'), 'assertions_sent_to_solver': tot('assert_queries'),
            'solver_queries': tot('queries'), 'z3_queries': tot('z3_queries'), 'z3_sat': tot('z3_sat'), 'z3_unsat': tot('z3_unsat'), 'z3_unknown': tot('z3_unknown'),
            'solver_s': round(tot('solver_s'), 3), 'engine_wall_s': round(tot('wall_s'), 2), 'native_note': nat_note,
            'exhaustive': not problems and not reports,
        },
        'assumptions': P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(reports),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(f'{VERIF}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for f in sorted(set(findings)):
        print(f'KNOWN-FINDING: property={pid} {f}')
    for p in problems:
        print(f'UNDECIDED property={pid}: {p}')
    if reports:
        for rp, text in reports:
            print(f'VIOLATION property={pid} replay={rp}')
            print('  ' + text)
        return 1
    print(f'property={pid} tier={tier}: {"held" if not problems else "undecided"}; {ev["coverage"]["states"]} paths, {tot("queries")} solver queries, '
          f'{validated} traces validated natively, {ev["wall_s"]} s')
    if nat_note:
        print('note:', nat_note)
    return 2 if problems else 0


if __name__ == '__main__':
    sys.exit(main())
