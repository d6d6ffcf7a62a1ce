"""Builds from /repo's current working tree into a per-run scratch directory. Nothing is written into /repo."""
import atexit, concurrent.futures, hashlib, os, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = os.path.join(VERIF, 'cpp')
NCPU = max(1, min(8, os.cpu_count() or 1))

_scratch = None


class HarnessError(Exception):
    """the check itself could not run: exits 2"""


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='run-', dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C', 'TZ': 'UTC', 'HOME': '/tmp'}

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-g1']
BASE = ['-std=c++17', '-w', '-pthread']


def sh(cmd, timeout=840, cwd=None, env=None, inp=None, **kw):
    e = dict(ENV)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=e, input=inp, **kw)


def compile_one(src, obj, flags, timeout=840):
    """-> (ok, diagnostics tail)"""
    r = sh(['clang++'] + BASE + flags + ['-I' + REPO + '/include', '-I' + CPP, '-c', src, '-o', obj], timeout=timeout)
    return r.returncode == 0, r.stderr.decode(errors='replace')


def parallel(jobs, n=NCPU):
    """jobs: list of callables; results in order"""
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]


LIBS = ['-labsl_time', '-labsl_strings']


def libs():
    r = sh(['pkg-config', '--libs', 'absl_time', 'absl_strings', 'absl_flat_hash_map', 'absl_flat_hash_set',
            'absl_inlined_vector', 'absl_bad_variant_access', 'absl_bad_optional_access'])
    if r.returncode:
        r = sh(['pkg-config', '--libs', 'absl_time', 'absl_strings', 'absl_flat_hash_map', 'absl_flat_hash_set'])
    return r.stdout.decode().split()


_libs = None


def link(objs, out, flags):
    global _libs
    if _libs is None:
        _libs = libs()
    r = sh(['clang++', '-pthread'] + flags + objs + ['-o', out] + _libs)
    if r.returncode:
        raise HarnessError('link failed: ' + r.stderr.decode(errors='replace')[-3000:])
    return out


def fuzz_main(d, ops):
    src = os.path.join(d, 'fuzz_main.cpp')
    with open(src, 'w') as f:
        f.write('#define VF_OPS "%s"\n#define VF_FUZZ\n#include "vf_main.cpp"\n' % ops)
    return src


def link_driver(objs, d, flags, fuzz):
    flags = [f for f in flags if f != '-fsanitize=fuzzer-no-link']
    if fuzz:
        link([o for o in objs if os.path.basename(o) != 'main.o'], os.path.join(d, 'driver-fuzz'), flags + ['-fsanitize=fuzzer'])
    return link([o for o in objs if os.path.basename(o) != 'fuzz_main.o'], os.path.join(d, 'driver'), flags)


def fuzz(exe, seeds, seconds, seed, workers=NCPU, options=(), name='fuzz', words=None):
    """coverage-guided search from the seeds -> number of executions, [(found a crash or hang, input)] with what was kept"""
    import re
    d = sub(name)

    def one(k):
        wd = os.path.join(d, 'w%d' % k)
        os.makedirs(os.path.join(wd, 'corpus'))
        for i, b in enumerate(seeds):
            with open(os.path.join(wd, 'corpus', 's%d' % i), 'wb') as f:
                f.write(b)
        if words:
            with open(os.path.join(wd, 'words'), 'w') as f:
                f.write(words)
        execs, at = 0, 0
        end = time.time() + seconds
        while time.time() < end and at < 40:
            r = sh([exe, 'corpus', '-seed=%d' % (seed * 1000 + k * 50 + at + 1), '-max_total_time=%d' % max(1, end - time.time()), '-rss_limit_mb=3000', '-close_fd_mask=3', '-print_final_stats=1', '-reload=0',
                    '-artifact_prefix=found-'] + (['-dict=words'] if words else []) + list(options), cwd=wd, timeout=seconds + 300,
                   env={'ASAN_OPTIONS': 'detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000', 'UBSAN_OPTIONS': 'print_stacktrace=1'})
            m = re.search(rb'stat::number_of_executed_units:\s*(\d+)', r.stderr)
            execs += int(m.group(1)) if m else 0
            at += 1
        new = [n for n in sorted(os.listdir(os.path.join(wd, 'corpus'))) if not re.match(r's\d+$', n)]
        out = []
        for n in [os.path.join('corpus', n) for n in new] + [n for n in sorted(os.listdir(wd)) if n.startswith('found-')]:
            with open(os.path.join(wd, n), 'rb') as f:
                out.append((n.startswith('found-'), f.read()))
        return execs, out
    total, kept = 0, {}
    for execs, out in parallel([lambda k=k: one(k) for k in range(workers)]):
        total += execs
        for found, b in out:
            kept[b] = found or kept.get(b, False)
    shutil.rmtree(d, True)
    return total, [(f, b) for b, f in kept.items()]


def lib_sources():
    """the run-time library's sources"""
    out = []
    for d in ('src/ber_types', 'src/util'):
        p = os.path.join(REPO, d)
        out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.cpp')]
    return out


def lib_jobs(dirname, flags):
    """compile jobs for the library objects: list of (callable, object)"""
    d = sub(dirname)
    res = []
    for s in lib_sources():
        o = os.path.join(d, os.path.basename(s) + '.o')

        def job(s=s, o=o):
            ok, err = compile_one(s, o, flags)
            if not ok:
                raise HarnessError('library source %s does not compile: %s' % (s, err[-3000:]))
            return o
        res.append((job, o))
    return res


def parser_dir():
    """directory holding autogen/asn_compiler.hpp, as the project's build would choose it"""
    d = sub('parser')
    a = os.path.join(d, 'autogen')
    out = os.path.join(a, 'asn_compiler.hpp')
    if os.path.exists(out):
        return d
    os.makedirs(a, exist_ok=True)
    yacc = os.path.join(REPO, 'src/compiler/asn_compiler.yacc')
    with open(os.path.join(VERIF, 'lib', 'asn_compiler.yacc.sha256')) as f:
        pinned = f.read().split()[0]
    with open(yacc, 'rb') as f:
        cur = hashlib.sha256(f.read()).hexdigest()
    if cur == pinned:
        shutil.copy(os.path.join(REPO, 'src/compiler/autogen_copy/asn_compiler.hpp'), out)
    else:
        re_ = os.path.join(d, 'asn_compiler.re')
        r = sh(['bison', '-Wno-other', '-Wno-deprecated', '-Wno-empty-rule', yacc, '-t', '-o', re_], cwd=d)
        if r.returncode:
            raise HarnessError('bison: ' + r.stderr.decode()[-2000:])
        r = sh(['re2c', '--no-generation-date', '-o', out, re_], cwd=d)
        if r.returncode:
            raise HarnessError('re2c: ' + r.stderr.decode()[-2000:])
    return d


def compiler_jobs(dirname, flags):
    pd = parser_dir()
    d = sub(dirname)
    srcs = []
    for sd in ('src/compiler_main', 'src/compiler'):
        p = os.path.join(REPO, sd)
        srcs += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith('.cpp')]
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + '.o')
        objs.append(o)

        def job(s=s, o=o):
            ok, err = compile_one(s, o, flags + ['-I' + REPO + '/src/compiler/include', '-I' + pd])
            if not ok:
                raise HarnessError('compiler source %s does not compile: %s' % (s, err[-3000:]))
            return o
        jobs.append(job)
    return jobs, objs, d


def build_compiler(san=False):
    """-> path of the ASN.1 compiler"""
    flags = ['-O0'] + (SAN if san else ['-g0'])
    jobs, objs, d = compiler_jobs('compiler-san' if san else 'compiler', flags)
    parallel(jobs)
    return link(objs, os.path.join(d, 'fast_ber_compiler'), SAN if san else [])
