"""C17: the schema-less viewer and the printing of values, read back by an independent JSON parser."""
import concurrent.futures, datetime, glob, os, re, subprocess
from lib import ber, build, builtin, cppgen, drv, model, values, wire
from lib.model import ABSENT
from lib.checks.content_checks import Simple, clearly_invalid, content_driver
from lib.checks.library_checks import any_noncanonical, noncanonical_tag, parse63, view_input, wireless
from lib.checks.wire_checks import STEP, builtin_suite, generated, repeat, rng_for, scale


class Num(str):
    """the text of a JSON number"""


TOKEN = re.compile(rb'[ \t\r\n]*(?:([{}\[\],:])|("(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*")|(-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?)(?![0-9.eE+-])|(true|false|null)|$)')
WORDS = {b'true': True, b'false': False, b'null': None}


def unquote(b):
    s = b[1:-1].decode('utf-8')
    return re.sub(r'\\(u....|.)', lambda m: chr(int(m.group(1)[1:], 16)) if len(m.group(1)) == 5 else {'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(m.group(1), m.group(1)), s)


def json(b):
    """RFC 8259, without recursion. Objects become lists of pairs inside a tuple, arrays lists, numbers Num. Raises ValueError."""
    pos, stack, want, root, key = 0, [], 'value', None, []
    # want: value | value-or-end | key | key-or-end | colon | comma | end
    while True:
        m = TOKEN.match(b, pos)
        if not m:
            raise ValueError('not JSON at offset %d: %r' % (pos, bytes(b[max(0, pos - 20):pos + 30])))
        pos = m.end()
        p, s, n, w = m.groups()
        if p is None and s is None and n is None and w is None:
            if want != 'end':
                raise ValueError('JSON text ends where a %s is expected' % want)
            return root
        err = ValueError('%r where a %s is expected, before offset %d' % (m.group(0), want, pos))
        if p in (b'}', b']'):
            if not stack or want not in ('comma', 'value-or-end' if p == b']' else 'key-or-end') or isinstance(stack[-1], tuple) != (p == b'}'):
                raise err
            stack.pop()
            want = 'comma' if stack else 'end'
            continue
        if p == b',':
            if want != 'comma':
                raise err
            want = 'key' if isinstance(stack[-1], tuple) else 'value'
            continue
        if p == b':':
            if want != 'colon':
                raise err
            want = 'value'
            continue
        if want in ('key', 'key-or-end'):
            if s is None:
                raise err
            key.append(unquote(s))
            want = 'colon'
            continue
        if want not in ('value', 'value-or-end'):
            raise err
        v = ([],) if p == b'{' else [] if p == b'[' else unquote(s) if s else Num(n.decode()) if n else WORDS[w]
        if not stack:
            root = v
        elif isinstance(stack[-1], tuple):
            stack[-1][0].append((key.pop(), v))
        else:
            stack[-1].append(v)
        if p:
            stack.append(v)
            want = 'key-or-end' if p == b'{' else 'value-or-end'
        else:
            want = 'comma' if stack else 'end'


def show(j, n=120):
    return ('%r' % (j,))[:n]


# ---------------------------------------------------------------- values
def plain(c):
    return all(0x20 <= x < 0x7f for x in c)


def text_ok(c, j):
    """printable text has to appear; other strings may be replaced by a remark"""
    if type(j) is not str:
        return False
    if plain(c):
        return j == c.decode('ascii')
    if j == 'binary data' or j == c.decode('latin1'):
        return True
    try:
        return j == c.decode('utf-8')
    except UnicodeDecodeError:
        return False


def int_ok(v, j):
    return type(j) is Num and re.fullmatch('-?[0-9]+', j) and int(j) == v


def real_ok(bits, j):
    bits = ber.real_canon(bits)
    if bits & 0x7ff0000000000000 == 0x7ff0000000000000:
        if type(j) is not str:
            return False
        s = j.lower()
        return 'nan' in s or 'not' in s if bits & 0xfffffffffffff else 'inf' in s and (s[:1] in 'm-') == bool(bits >> 63)
    return type(j) is Num and ber.double_bits(float(j)) == bits


RFC3339 = re.compile(r'(\d{1,4})-(\d\d)-(\d\d)[T ](\d\d):(\d\d):(\d\d)(?:\.0+)?(?:Z|([+-])(\d\d):?(\d\d))')


def instant(j):
    """of printed RFC 3339 text, or None"""
    m = RFC3339.fullmatch(j) if type(j) is str else None
    if not m:
        return None
    y, mo, d, h, mi, s = (int(x) for x in m.groups()[:6])
    try:
        days = datetime.date(y % 400 + 2000, mo, d).toordinal() - datetime.date(1970, 1, 1).toordinal() + (y // 400 - 5) * 146097
    except ValueError:
        return None
    off = 0 if not m.group(7) else (60 * int(m.group(8)) + int(m.group(9))) * (-60 if m.group(7) == '-' else 60)
    return days * 86400 + h * 3600 + mi * 60 + s - off


def time_ok(c, j):
    """c: the text held"""
    if text_ok(c, j):
        return True
    m = re.fullmatch(rb'(\d{4})(\d\d)(\d\d)(\d\d)(\d\d)(\d\d)(Z|[+-]\d{4}|)', c)
    if not m or instant(j) is None:
        return False
    if m.group(7) not in (b'Z', b''):
        return True  # C11 decides which instant these are
    want = instant('%s-%s-%sT%s:%s:%sZ' % tuple(x.decode() for x in m.groups()[:6]))
    return want is None or want == instant(j) or int(m.group(4)) > 23 or int(m.group(5)) > 59 or int(m.group(6)) > 59


def find_names(name, cpp):
    return {name, name.replace('-', '_'), cpp}


def value_error(w, v, j):
    """does the JSON value j show the value v of type w? -> None or a reason"""
    k = w.kind
    if v is ABSENT:
        return None if j is None else 'absent component printed as ' + show(j)
    if k in ('seq', 'set'):
        if not isinstance(j, tuple):
            return 'a component list printed as ' + show(j)
        if len(j[0]) != len(w.members):
            return '%d components printed, there are %d' % (len(j[0]), len(w.members))
        for m, x, (n, jx) in zip(w.members, v, j[0]):
            if n not in find_names(m.name, cppgen.member(m.name)):
                return 'component %s printed as %r' % (m.name, n)
            e = value_error(m.w, x, jx)
            if e:
                return '%s: %s' % (m.name, e)
        return None
    if k in ('seqof', 'setof'):
        if type(j) is not list or len(j) != len(v):
            return 'a list of %d printed as %s' % (len(v), show(j))
        for x, jx in zip(v, j):
            e = value_error(w.elem, x, jx)
            if e:
                return e
        return None
    if k == 'choice':
        m = w.alts[v[0]]
        e = value_error(m.w, v[1], j)
        if e and isinstance(j, tuple) and len(j[0]) == 1 and j[0][0][0] in find_names(m.name, cppgen.member(m.name)):
            e = value_error(m.w, v[1], j[0][0][1])
        return e
    ok = {'bool': lambda: j is bool(v), 'null': lambda: j is None, 'int': lambda: int_ok(v, j),
          'real': lambda: real_ok(v, j), 'str': lambda: text_ok(v, j),
          'oid': lambda: type(j) is list and len(j) == len(v) and all(int_ok(a, x) for a, x in zip(v, j)),
          'time': lambda: time_ok(model.time_text(v), j), 'enum': lambda: enum_ok(w, v, j)}[k]()
    return None if ok else '%s value %s printed as %s' % (k, wire.cut(model.text(w, v, True), 200), show(j))


def enum_ok(w, v, j):
    if w.names is None:
        return j == 'colour%d' % v  # the driver's own enumeration
    if v in w.names:
        n = w.names[v]
        return type(j) is str and j in find_names(n, cppgen.member(n))
    return type(j) is str or int_ok(v, j)


NASTY = [b'"', b'\\', b'\\"', b'a"b', b'\\\\', b'\\u0041', b'\n', b'tab\t', b'\0', b'\x7f', b'\x80', b'caf\xc3\xa9', b'\xff\xfe', b'</script>', b'%s%n', b'{"a": 1}', b'"," : "', b'a\\', b'~ !', b'\x1f']


def spice(w, v, rng):
    """strings with characters that need care"""
    if v is ABSENT:
        return v
    k = w.kind
    if k == 'str' and rng.random() < .35 and len(v) < 5000:
        x = rng.choice(NASTY)
        x = rng.choice([x, v + x, x + v, v[:len(v) // 2] + x + v[len(v) // 2:]])
        return b'\0' + x if w.sub == 'BitString' else x
    if k in ('seq', 'set'):
        return [spice(m.w, x, rng) for m, x in zip(w.members, v)]
    if k in ('seqof', 'setof'):
        return [spice(w.elem, x, rng) for x in v]
    if k == 'choice':
        return (v[0], spice(w.alts[v[0]].w, v[1], rng))
    return v


def print_values(chk, suite, rng, n):
    cases = []
    for i in range(n):
        t = suite.types[i % len(suite.types)] if i < 3 * len(suite.types) else rng.choice(suite.types)
        v = spice(t.w, values.gen(t.w, rng, big=.001), rng)
        cases.append((t, v, 'P %s %s' % (t.name, model.text(t.w, v))))
    cases = wire.chosen(chk, suite, cases, lambda c: c[2])
    if not cases:
        return
    for (t, v, line), r in zip(cases, drv.run(suite.exe, [c[2] for c in cases], name=suite.label + '-P')):
        chk.case(nontrivial=(t.desc, line) if values.nontrivial(t.w, v) else None)
        if wire.broken(chk, suite, t, line, r, 'print'):
            continue
        out = bytes.fromhex(r.out)
        try:
            e = value_error(t.w, v, json(out))
            key = 'value'
        except ValueError as x:
            e, key = str(x), 'invalid-json'
        chk.event('values printed and read back')
        chk.event('octets printed', len(out))
        if e:
            chk.violation('print:%s:%s' % (t.group, key), '%s value %s prints\n    %s\n  %s' % (t.desc, wire.cut(line), wire.cut(out.decode('latin1')), e), wire.replay(suite, t, line))
        elif 30 < len(out) < 300 and len(chk.samples) < 12 and suite.kind == 'generated':
            chk.sample('%s prints %s' % (line, out.decode('latin1')))


# ---------------------------------------------------------------- the viewer
CLASSES = ['Universal', 'Application', 'Context Specific', 'Private']
TAGS = {0: 'Reserved', 1: 'Boolean', 2: 'Integer', 3: 'Bit String', 4: 'Octet String', 5: 'Null', 6: 'Object Identifier', 7: 'Object Descriptor',
        8: 'Instance Of / External', 9: 'Real', 10: 'Enumerated', 11: 'Embedded PDV', 12: 'UTF8 String', 13: 'Relative OID',
        16: 'Sequence / Sequence Of', 17: 'Set / Set Of', 18: 'Numeric String', 19: 'Printable String', 20: 'Teletex String / T161 String',
        21: 'Videotex String', 22: 'IA5 String', 23: 'UTC Time', 24: 'Generalized Time', 25: 'Graphic String', 26: 'Visible String / ISO646 String',
        27: 'General String', 28: 'Universal String', 29: 'Character String', 30: 'BMP String'}


def lenient_oid(c):
    subs, n = [], 0
    for b in c:
        n = (n << 7) | (b & 0x7f)
        if not b & 0x80:
            subs.append(n)
            n = 0
    if not c:
        return []
    if c[-1] & 0x80:
        return None
    a = min(subs[0] // 40, 2)
    return [a, subs[0] - 40 * a] + subs[1:]


def primitive_ok(x, j):
    c = x.content
    if x.cls == 0:
        k = x.num
        if k == 1:
            return (j is (c[0] != 0)) if len(c) == 1 else text_ok(c, j)
        if k in (2, 10):
            return bool(int_ok(ber.dec_int(c), j)) if 1 <= len(c) <= 8 else text_ok(c, j)
        if k == 5:
            return j is None if not c else text_ok(c, j)
        if k == 6:
            a = lenient_oid(c)
            shown = a is not None and type(j) is list and len(a) == len(j) and all(int_ok(p, q) for p, q in zip(a, j))
            if ber.dec_oid(c) is None or max(a) >= 1 << 63:
                return shown or text_ok(c, j)
            return shown
        if k == 9:
            b = ber.dec_real(c)
            if b is None:
                return text_ok(c, j) or not clearly_invalid(c) and type(j) in (Num, str)
            return bool(real_ok(b, j)) or len(c) > 100 and text_ok(c, j)
        if k in (23, 24):
            return time_ok(c, j)
    return text_ok(c, j)


def view_error(b, j):
    """does j show the element at the start of b? -> None or (class, reason)"""
    stack = [(parse63(b), b, j)]
    n = 0
    while stack:
        x, data, j = stack.pop()
        n += 1
        if not isinstance(j, tuple) or [k for k, _ in j[0]] != ['length', 'identifier', 'content']:
            return 'element', 'an element printed as ' + show(j)
        o = dict(j[0])
        if not int_ok(x.hlen + len(x.content), o['length']):
            return 'length', 'length %s instead of %d' % (show(o['length']), x.hlen + len(x.content))
        i = o['identifier']
        if not isinstance(i, tuple) or [k for k, _ in i[0]] != ['class', 'tag']:
            return 'identifier', 'identifier ' + show(i)
        i = dict(i[0])
        if i['class'] != CLASSES[x.cls]:
            return 'class', 'class %s instead of %s' % (show(i['class']), CLASSES[x.cls])
        if x.cls == 0 and x.num in TAGS:
            ok = i['tag'] == TAGS[x.num]
        elif x.cls == 0:
            ok = type(i['tag']) is str and i['tag'] not in TAGS.values() or int_ok(x.num, i['tag'])
        else:
            ok = int_ok(x.num, i['tag'])
        if not ok:
            return 'tag', 'tag %d of class %s printed as %s' % (x.num, CLASSES[x.cls], show(i['tag']))
        c = o['content']
        if not x.con:
            if not primitive_ok(x, c):
                return 'content-%s' % (TAGS.get(x.num, 'other') if x.cls == 0 else 'other').replace(' ', '-'), 'content %s of tag %d, class %s printed as %s' % (x.content.hex()[:200], x.num, CLASSES[x.cls], show(c))
            continue
        if type(c) is not list:
            return 'nesting', 'constructed content printed as ' + show(c)
        kids, p, cc = [], 0, x.content
        while p < len(cc):
            y = parse63(cc, p)
            if y is None:
                break
            kids.append((y, None))
            p += y.total
        if len(kids) != len(c):
            return 'nesting', '%d elements printed, %d are there' % (len(c), len(kids))
        stack += [(y, None, jc) for (y, _), jc in zip(kids, c)]
    return None


def odd(b):
    return any_noncanonical(b) or any(noncanonical_tag(b[:k]) for k in range(2, min(4, len(b))))


def deep_error(n, j):
    sizes = [3]
    for _ in range(n):
        sizes.append(sizes[-1] + 1 + len(ber.length(sizes[-1])))
    for i in range(n, -1, -1):
        if not isinstance(j, tuple) or len(j[0]) != 3:
            return 'nesting', 'level %d printed as %s' % (n - i, show(j))
        o = dict(j[0])
        if not int_ok(sizes[i], o.get('length')):
            return 'length', 'level %d of length %d printed with length %s' % (n - i, sizes[i], show(o.get('length')))
        j = o.get('content')
        if i:
            if type(j) is not list or len(j) != 1:
                return 'nesting', 'level %d printed as %s' % (n - i, show(j))
            j = j[0]
    return None if int_ok(5, j) else ('content', 'innermost content printed as ' + show(j))


def judge_view(chk, b, out, valid, key, replay, deep=False):
    x = parse63(b)
    if not deep and odd(b):
        chk.event('identifiers in a form which is not allowed')
        x = x if valid else None
    if valid != (x is not None):
        chk.violation(key + ':validity', '%s is %sa complete element, and was reported %svalid' % (b.hex()[:300], '' if x is not None else 'not ', '' if valid else 'in'), replay)
        return
    try:
        j = json(out)
    except ValueError as e:
        if not valid:
            return chk.event('not an element')
        chk.violation(key + ':invalid-json', 'the view of %s prints\n    %s\n  %s' % (b.hex()[:300], wire.cut(out.decode('latin1')), e), replay)
        return
    if not valid:
        return chk.event('not an element')
    chk.event('views printed and read back')
    if not deep and odd(b):
        return
    e = deep_error(deep, j) if deep else view_error(b, j)
    if e:
        chk.violation('%s:%s' % (key, e[0]), 'the view of %s prints\n    %s\n  %s' % (b.hex()[:300], wire.cut(out.decode('latin1')), e[1]), replay)
    elif 12 < len(b) < 40 and len(chk.samples) < 6:
        chk.sample('%s prints %s' % (b.hex(), out.decode('latin1')[:500]))


def print_input(rng):
    """something to view, with contents of the universal types"""
    r = rng.random()
    if r < .3:
        return view_input(rng)

    def leaf():
        k = rng.choice([1, 2, 3, 4, 5, 6, 9, 9, 10, 12, 18, 19, 20, 22, 23, 24, 24, 26, 27, 28, 29, 30, 0, 7, 8, 11, 13, 14, 15, 16, 17, 31, 200, 2**32 + 2, 2**31 + 1, 2**62])
        cls = 0 if rng.random() < .85 else rng.randrange(1, 4)
        q = rng.random()
        w = None
        if k in (1, 2, 5, 6, 9, 10, 24) and q < .6:
            kind = {1: 'bool', 2: 'int', 5: 'null', 6: 'oid', 9: 'real', 10: 'int', 24: 'time'}[k]
            w = model.W(kind, [(0, k)])
            b = model.encode(w, values.gen(w, rng))
            c = parse63(b).content
        elif k == 9 and q < .85:
            from lib.checks import content_checks as cc
            c = rng.choice([cc.real_binary, cc.real_decimal, cc.real_invalid])(rng)
            c = c[0] if isinstance(c, tuple) else c
        elif k in (23, 24) and q < .85:
            c = rng.choice([b'20200229235959Z', b'2020022923595Z', b'202002292359', b'20200229235959+0100', b'20200229235959-2359', b'20200229235959', b'20210229235959Z', b'20200229245959Z',
                            b'200229235959Z', b'20200229235959.5Z', b'2002292359Z', b'abcdefghijklmnZ', b'"0200229235959Z', b'20200229235959z', b'\xff0200229235959Z', b'99991231235959Z', b'00000101000000Z'])
        elif q < .8:
            c = rng.choice([b'', b'text', rng.choice(NASTY), bytes(rng.getrandbits(8) for _ in range(rng.choice([1, 2, 8, 9, 16]))), bytes(rng.choice(b'abc "\\~') for _ in range(rng.randint(1, 9)))])
        else:
            c = bytes(rng.getrandbits(8) for _ in range(rng.randint(0, 12)))
        return ber.tlv(cls, 0, k, c, rng.choice([0, 0, 0, 1, 3]))

    def tree(d):
        if d == 0 or rng.random() < .35:
            return leaf()
        c = b''.join(tree(d - 1) for _ in range(rng.choice([0, 1, 2, 3, 5])))
        if rng.random() < .1:
            c += rng.choice([b'\x02', b'\x30\x80', b'\x1f', b'\x04\x05ab', b'\0'])
        return ber.tlv(rng.randrange(4), 1, rng.choice([16, 17, 0, 1, 4, 5, 30, 31, 127, 128, 70000]), c, rng.choice([0, 0, 0, 2]))
    b = tree(rng.choice([0, 1, 2, 3, 5]))
    if r > .85:
        b = values.mutate(rng, b)
    elif r > .8:
        b = b[:rng.randint(0, len(b))]
    elif r > .75:
        b += bytes(rng.getrandbits(8) for _ in range(3))
    return b


def deep(levels, inner=b'\x02\x01\x05', num=16):
    parts, size = [inner], len(inner)
    for _ in range(levels):
        h = ber.ident(0, 1, num) + ber.length(size)
        parts.append(h)
        size += len(h)
    return b''.join(reversed(parts))


def print_views(chk, s, t, ins):
    lines = ['V %s %s' % (t.name, b.hex()) for b in ins]
    for b, line, r in zip(ins, lines, drv.run(s.exe, lines, 'print-view')):
        chk.case(1, b if len(b) > 2 else None)
        if wire.broken(chk, s, t, line, r, 'view-print'):
            continue
        judge_view(chk, b, bytes.fromhex(r.out[1:]), r.out[0] == '+', 'view-print', wire.replay(s, t, line))


def build_viewer():
    d = build.sub('viewer')
    o = os.path.join(d, 'view.o')
    jobs = build.lib_jobs('viewer-lib', ['-O0'] + build.SAN)

    def main():
        ok, err = build.compile_one(os.path.join(build.REPO, 'src/view/view.cpp'), o, ['-O0'] + build.SAN)
        if not ok:
            raise build.HarnessError('the viewer does not compile: ' + err[-2000:])
        return o
    objs = build.parallel([j for j, _ in jobs] + [main])
    return build.link(objs, os.path.join(d, 'ber_view'), build.SAN)


def run_viewer(exe, args, i):
    """-> (exit status, stdout, sanitizer report)"""
    log = os.path.join(build.sub('viewer'), 'san-%d' % i)
    e = dict(build.ENV)
    for k, v in drv.SANENV.items():
        e[k] = v % log
    try:
        p = subprocess.run(['/bin/sh', '-c', 'ulimit -s 8192; ulimit -t 60; exec "$@"', 'v', exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, timeout=120)
    except subprocess.TimeoutExpired:
        return 'hang', b'', ''
    rep = p.stderr.decode(errors='replace')
    for g in glob.glob(log + '.*'):
        with open(g, errors='replace') as f:
            rep += f.read()
        os.remove(g)
    return p.returncode, p.stdout, rep


def viewer_crash(chk, code, rep, what, replay):
    if code == 'hang' or code < 0 or code in (99, 66) or 'Sanitizer' in rep or 'runtime error' in rep:
        r = drv.Result('crash', '', rep)
        cls = 'hang' if code == 'hang' or code == -24 else wire.crash_class(r) or 'signal'
        chk.violation('viewer:crash:' + cls, 'the viewer given %s ends with %s: %s' % (what, code, drv.summarize(rep)), replay)
        return True
    return False


def viewer(chk, exe, ins, isdeep=False, limit=8):
    d = build.sub('viewer')

    def one(ib):
        i, b = ib
        f = os.path.join(d, 'in-%d' % i)
        with open(f, 'wb') as fh:
            fh.write(b)
        r = run_viewer(exe, [f], i)
        os.remove(f)
        return r
    with concurrent.futures.ThreadPoolExecutor(limit) as ex:
        rs = list(ex.map(one, enumerate(ins)))
    for b, (code, out, rep) in zip(ins, rs):
        chk.case(1, (b if len(b) < 1000 else b[:500] + b'%d' % len(b), 'file') if len(b) > 2 else None)
        chk.event('files given to the viewer')
        rp = {'suite': 'viewer', 'file': b.hex()[:400000], 'report': rep[:3000]}
        if isdeep:
            rp = {'suite': 'viewer', 'deep': isdeep, 'report': rep[:3000]}
        if viewer_crash(chk, code, rep, 'a file of %d octets (%s)' % (len(b), b.hex()[:100]), rp):
            continue
        judge_view(chk, b, out, code == 0, 'viewer', rp, isdeep)


def c17(chk):
    chk.rule = 'distinct files and byte strings of more than two octets viewed, and (type, value) pairs with a non-default value printed; each output parsed by an independent JSON reader and compared with an independent reading of the input'
    chk.assumptions = ['the classic C++ locale; component and enumeral names as in the generated C++ (hyphen as underscore, reserved words with an underscore appended)',
                       'strings with characters outside 0x20-0x7e may be shown as "binary data"; a CHOICE shows the value of its alternative; octets inside a constructed element that are no complete element are not shown']
    rng = rng_for('C17')
    rp = chk.replaying
    exe = build_viewer()
    if rp is not None and rp.get('suite') == 'viewer':
        if 'args' in rp:
            return viewer_arguments(chk, exe)
        return viewer(chk, exe, [deep(rp['deep']) if 'deep' in rp else bytes.fromhex(rp['file'])], rp.get('deep', False))
    vexe = content_driver([], 'printing', header='printing.hpp', plain=[('view', 'run_print_view')])
    s = Simple(vexe, [])
    s.label = 'views'
    t = wireless('view')
    if rp is not None and rp.get('suite') == 'views':
        return print_views(chk, s, t, [bytes.fromhex(rp['case'].split(' ')[2])])
    if rp is None:
        viewer_arguments(chk, exe)
        viewer(chk, exe, [b'', b'\0', b'\0\0', b'\x05\0', b'\x30\x80', b'\x30\0', b'\xff' * 40, b'\x04\x84\0\x10\0\0' + b'x' * (1 << 20), b'\x30' + ber.length(600000) + b'\x05\0' * 300000, b'\x1f' + b'\xff' * 100000])
        for n in scale([1000, 100000], [1000, 30000, 100000, 400000]):
            viewer(chk, exe, [deep(n)], n)
        viewer(chk, exe, [print_input(rng) for _ in range(scale(600, 8000))])
        repeat(chk, lambda n: print_views(chk, s, t, [print_input(rng) for _ in range(n)]), scale(40000, 800000), 40000)
    b = builtin_suite(rng, 'P')
    repeat(chk, lambda n: print_values(chk, b, rng, n), scale(30000, 500000), STEP)
    g = generated(chk, 'C17', 'P')
    repeat(chk, lambda n: print_values(chk, g, rng, n), scale(20000, 500000), STEP)


def viewer_arguments(chk, exe):
    d = build.sub('viewer')
    for name, args in [('no arguments', []), ('two arguments', ['a', 'b']), ('a missing file', [os.path.join(d, 'not-there')]), ('a directory', [d]), ('an empty name', ['']), ('a name of 10000 characters', ['x' * 10000]), ('/dev/null', ['/dev/null'])]:
        code, out, rep = run_viewer(exe, args, 0)
        chk.case(1)
        chk.event('odd arguments given to the viewer')
        rp = {'suite': 'viewer', 'args': name}
        if viewer_crash(chk, code, rep, name, rp):
            continue
        if code == 0:
            chk.violation('viewer:arguments', 'the viewer given %s exits with 0' % name, rp)
