"""Random schemas -> the project's ASN.1 compiler -> C++ -> one driver."""
import os
from lib import build, cppgen, schema, wire


class Failure:
    """stage: 'asn' (the schema compiler refused) or 'c++' (its output does not compile)"""

    def __init__(self, stage, mods, msg, texts):
        self.stage, self.mods, self.msg, self.texts = stage, mods, msg, texts


def run_compiler(exe, files, out, env=None, timeout=120):
    return build.sh([exe] + files + [out], timeout=timeout, env=env)


def write_schema(d, mods, style=schema.PLAIN):
    fs = []
    if getattr(mods, 'files', None):
        for n, t in mods.files:
            fs.append(os.path.join(d, n))
            with open(fs[-1], 'w', newline='') as f:
                f.write(t)
        return fs
    for m in mods:
        p = os.path.join(d, m.name + '.asn')
        with open(p, 'w') as f:
            f.write(schema.module_text(m, style))
        fs.append(p)
    return fs


def build_suites(schemas, ops, label='generated', opt='-O0', flags=None, compiler=None, fuzz=False):
    """schemas: list of module lists. -> (Suite, [Failure]) with everything that could be built"""
    flags = (build.SAN if flags is None else flags) + (['-fsanitize=fuzzer-no-link'] if fuzz else [])
    d = build.sub(label)
    jobs, objs = [], []
    for job, o in build.lib_jobs(label + '-lib', [opt] + flags):
        jobs.append(job)
        objs.append(o)
    if compiler is None:
        cjobs, cobjs, cd = build.compiler_jobs('compiler', ['-O0', '-g0'])
        build.parallel(cjobs)
        compiler = build.link(cobjs, os.path.join(cd, 'fast_ber_compiler'), [])
    fails, units = [], []

    def one(i, mods):
        sd = os.path.join(d, 's%d' % i)
        os.makedirs(sd, exist_ok=True)
        fs = write_schema(sd, mods)
        r = run_compiler(compiler, fs, os.path.join(sd, 'gen'))
        texts = [t for _, t in mods.files] if getattr(mods, 'files', None) else [schema.module_text(m) for m in mods]
        if r.returncode:
            return Failure('asn', mods, 'exit %d: %s' % (r.returncode, r.stderr.decode(errors="replace")[-300:]), texts)
        src, types = cppgen.tu(mods, 's%d' % i, 'gen.hpp', ops)
        for t in types:
            t.schema = i
        cpp = os.path.join(sd, 'tu.cpp')
        with open(cpp, 'w') as f:
            f.write(src)
        ok, err = build.compile_one(cpp, cpp[:-4] + '.o', [opt, '-I' + sd] + flags)
        if not ok:
            return Failure('c++', mods, '\n'.join(l for l in err.split('\n') if 'error' in l)[:2500] or err[:2500], texts)
        return cpp[:-4] + '.o', types
    main = os.path.join(d, 'main.cpp')
    with open(main, 'w') as f:
        f.write('#define VF_OPS "%s"\n#include "vf_main.cpp"\n' % ops)

    for m in [main] + ([build.fuzz_main(d, ops)] if fuzz else []):
        def mainjob(m=m):
            ok, err = build.compile_one(m, m[:-4] + '.o', [opt] + flags)
            if not ok:
                raise build.HarnessError('driver main does not compile: ' + err[-2000:])
            return m[:-4] + '.o'
        jobs.append(mainjob)
        objs.append(m[:-4] + '.o')
    res = build.parallel(jobs + [lambda i=i, m=m: one(i, m) for i, m in enumerate(schemas)])
    types = []
    for r in res[len(jobs):]:
        if isinstance(r, Failure):
            fails.append(r)
        else:
            objs.append(r[0])
            types += r[1]
    if not types:
        return None, fails
    exe = build.link_driver(objs, d, flags, fuzz)
    s = wire.Suite(exe, types, label)
    s.by_name = {(t.schema, t.mod, t.tname): t for t in types}
    s.kind = 'generated'
    return s, fails
