"""Runs a case file through a driver, surviving crashes and hangs of single cases, and collects sanitizer reports."""
import glob, os, re, signal, subprocess
from lib import build

SANENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:halt_on_error=1:detect_leaks=0:allocator_may_return_null=1:'
                    'max_allocation_size_mb=3000:detect_stack_use_after_return=1:handle_abort=1:print_legend=0:'
                    'malloc_context_size=8:exitcode=99:log_path=%s',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:history_size=4:print_suppressions=0:log_path=%s',
    'VALGRIND_OPTS': '--quiet --error-exitcode=66 --exit-on-first-error=yes --main-stacksize=67108864 --max-stackframe=16000000 --num-callers=12 --log-file=%s.%%p',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:log_path=%s',
}


def frames(rep):
    """function names of the first stack, for identifying a finding"""
    out = []
    for m in re.finditer(r'^\s+#(\d+) 0x[0-9a-f]+ (?:in )?(.*?)(?: \(|$)', rep, re.M):
        if m.group(1) == '0' and out:
            break
        out.append(m.group(2))
    return out


def summarize(rep):
    m = re.search(r'(ERROR: AddressSanitizer: [^\n]{0,160}|WARNING: ThreadSanitizer: [^\n(]{0,60}|runtime error: [^\n]{0,160}|[^\n]*Assertion `[^\n]{0,160}|terminate called[^\n]*)', rep)
    if not m:
        m = re.search(r'==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param|Mismatched free|Jump to the)[^\n]{0,160})', rep)
    head = m.group(1) if m else rep.strip().split('\n')[0][:160] if rep.strip() else ''
    head = re.sub(r'0x[0-9a-f]+', '0x', head)
    head = re.sub(r' on (unknown )?address.*', '', head)
    fr = [f for f in re.findall(r'(?:#\d+ 0x[0-9a-f]+ (?:in )?|==\d+==    (?:at|by) 0x[0-9A-F]+: )([^\n]*)', rep) if 'fast_ber' in f or '/repo' in f]
    loc = ''
    if fr:
        loc = re.sub(r'.*/(repo|include)/', '', fr[0])[-120:]
    return head + (' at ' + loc if loc else '')


class Result:
    __slots__ = ('kind', 'out', 'report')  # kind: ok | crash | hang | exc | bad

    def __init__(self, kind, out='', report=''):
        self.kind, self.out, self.report = kind, out, report

    def __repr__(self):
        return '%s %s %s' % (self.kind, self.out[:200], self.report[:200])


def run(exe, lines, name='cases', limit=10, wall=600, env=None, workers=None, max_crashes=40, stack_kb=262144, wall_hang=None):
    """lines: case lines -> list of Result (None when not reached because of too many crashes)"""
    workers = workers or build.NCPU
    if len(lines) > 400 and workers > 1:
        # split round-robin, so that slow cases spread
        parts = [lines[i::workers] for i in range(workers)]
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(_run, exe, p, '%s-%d' % (name, i), limit, wall, env, max_crashes) for i, p in enumerate(parts)]
            rs = [f.result() for f in fs]
        out = [None] * len(lines)
        for i, r in enumerate(rs):
            out[i::workers] = r
        return out
    return _run(exe, lines, name, limit, wall, env, max_crashes, stack_kb, wall_hang)


# generated types can be large (hundreds of KiB inline), and the driver keeps several in a frame
def with_stack(kb):
    return ['/bin/sh', '-c', 'ulimit -s %d; exec "$@"' % kb, 'driver']


def cpu_seconds(pid):
    with open('/proc/%d/stat' % pid) as f:
        x = f.read().rsplit(')', 1)[1].split()
    return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')


def _run(exe, lines, name, limit, wall, env, max_crashes, stack_kb=262144, wall_hang=None):
    d = build.sub('run')
    cf = os.path.join(d, name + '.cases')
    with open(cf, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    res, pos, crashes = [], 0, 0
    log = os.path.join(d, name + '.san')
    e = dict(build.ENV)
    for k, v in SANENV.items():
        e[k] = v.replace('%s', log).replace('%%', '%')
    if env:
        e.update(env)
    while pos < len(lines):
        for g in glob.glob(log + '*'):
            os.remove(g)
        errf = os.path.join(d, name + '.err')
        with open(errf, 'wb') as ef:
            p = subprocess.Popen(with_stack(stack_kb) + (exe if isinstance(exe, list) else [exe]) + [cf, str(pos), str(limit)], stdout=subprocess.PIPE, stderr=ef, env=e)
            try:
                out, _ = p.communicate(timeout=wall)
                stuck = False
            except subprocess.TimeoutExpired:
                # the signal of the CPU limit does not arrive in loops under ThreadSanitizer
                stuck = wall_hang is not None and cpu_seconds(p.pid) > wall_hang
                p.kill()
                out, _ = p.communicate()
                if not stuck:
                    raise build.HarnessError('driver %s exceeded its wall clock watchdog on %s' % (exe, name))
        got = out.decode('latin1').split('\n')
        tail = got.pop()
        hang = stuck
        if got and got[-1] == '!HANG':
            got.pop()
            hang = True
        for g in got:
            if g.startswith('!BAD '):
                res.append(Result('bad', g[5:]))
            elif g.startswith('!EXC '):
                res.append(Result('exc', g[5:]))
            else:
                res.append(Result('ok', g))
        pos += len(got)
        if pos > len(lines):
            raise build.HarnessError('driver printed more lines than cases')
        if pos == len(lines) and stuck:
            break
        if pos == len(lines):
            if p.returncode != 0:
                raise build.HarnessError('driver ended with %s after the last case' % p.returncode)
            break
        rep = ''
        for g in sorted(glob.glob(log + '*')):
            with open(g, errors='replace') as f:
                rep += f.read()
        with open(errf, errors='replace') as f:
            rep += f.read()[-6000:]
        if p.returncode == 97:
            raise build.HarnessError('driver could not write')
        if p.returncode == -signal.SIGKILL and not stuck:
            raise build.HarnessError('driver was killed (memory?) at case: ' + lines[pos][:200])
        if p.returncode == 0 and not hang:
            raise build.HarnessError('driver stopped early')
        res.append(Result('hang' if hang else 'crash', 'exit %s' % p.returncode, rep[:20000]))
        pos += 1
        crashes += 1
        if crashes >= max_crashes:
            res += [None] * (len(lines) - pos)
            break
    for g in glob.glob(log + '*'):
        os.remove(g)
    return res
