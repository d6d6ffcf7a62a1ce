"""Rewrites a schema without changing what it means: other text, the same tags, values and encodings (C19, C20).
Everything stays a lib.schema syntax tree, so that the driver code is generated the same way for both."""
import copy
from lib import schema
from lib.ber import CTX
from lib.schema import Comp, Module, PLAIN, Resolver, Ty, Value, WildStyle, automatic, is_tagged

REWRITES = ['tags', 'rename', 'lift', 'inline', 'components-of', 'default-values', 'parameters', 'class-fields', 'text', 'order']  # in this order


class Variant(list):
    """list of modules, with the files to write and the rewrites done"""

    def __init__(self, mods):
        super().__init__(mods)
        self.files = []         # [(file name, text)]
        self.done = []
        self.pairs = []         # [(original module, original type, module, type)]


def explicit_env(m):
    return m.tagging in (None, 'EXPLICIT')


def subtypes(t):
    """every (holder, attribute) below t"""
    if t.kind == 'tag':
        yield t, 'inner'
        yield from subtypes(t.inner)
    elif t.kind in ('seqof', 'setof'):
        yield t, 'elem'
        yield from subtypes(t.elem)
    elif t.kind in ('seq', 'set', 'choice'):
        for c in t.comps:
            yield c, 'ty'
            yield from subtypes(c.ty)


def nodes(t):
    yield t
    for h, a in subtypes(t):
        yield getattr(h, a)


def has_refs(t):
    return any(x.kind == 'ref' for x in nodes(t))


class Rewriter:
    def __init__(self, mods, rng, style=None):
        self.rng = rng
        v = Variant(copy.deepcopy(list(mods)))
        self.v = v
        ren = {m.name: m.name + 'V' for m in v}
        for m in v:
            m.name = ren[m.name]
            m.imports = [(ren[a], list(b)) for a, b in m.imports]
            m.templates, m.via, m.oid, m.exports, m.spread, m.classes = [], {}, '', '', [], []
            for _, t in m.types:
                for x in nodes(t):
                    if x.kind == 'ref' and x.mod:
                        x.mod = ren[x.mod]
        for o, m in zip(mods, v):
            v.pairs += [(o.name, n, m.name, n) for n, _ in o.types]
        self.n = 0

    def fresh(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def res(self):
        return Resolver(self.v)

    def parent_comps(self, m):
        """(constructed type, component) of every component in the module"""
        for _, t in m.types:
            for x in nodes(t):
                if x.kind in ('seq', 'set', 'choice'):
                    for c in x.comps:
                        yield x, c

    # ------------------------------------------------------------ the rewrites
    def tags(self):
        """another tagging environment, with every mode and automatic tag spelled out"""
        rng, did = self.rng, False
        for m in self.v:
            if rng.random() < .3:
                continue
            r = self.res()
            new = rng.choice([x for x in (None, 'EXPLICIT', 'IMPLICIT') if x != m.tagging])
            untagged_choice = {}
            autos = []
            for _, t in m.types:
                for x in nodes(t):
                    if x.kind == 'tag':
                        untagged_choice[id(x)] = not r.tags(x.inner, m)
                    elif x.kind in ('seq', 'set', 'choice') and automatic(m, x.comps):
                        autos += [(c, r.comp_tags(x, i, m)[0][1], not r.tags(c.ty, m)) for i, c in enumerate(x.comps)]
            for _, t in m.types:
                for x in nodes(t):
                    if x.kind == 'tag' and x.mode is None:
                        x.mode = 'EXPLICIT' if explicit_env(m) or untagged_choice[id(x)] else 'IMPLICIT'
            for c, n, ch in autos:
                c.ty = Ty('tag', cls=CTX, num=n, mode='EXPLICIT' if ch else 'IMPLICIT', inner=c.ty)
            m.tagging = new
            did = True
        return did

    def lift(self):
        """names for anonymous types, here or in another module"""
        rng, did = self.rng, False
        for k, m in enumerate(self.v):
            spots = [(h, a) for _, t in m.types for h, a in subtypes(t)]
            rng.shuffle(spots)
            for h, a in spots[:rng.randint(1, 4)]:
                t = getattr(h, a)
                if t.kind in ('ref', 'tag'):
                    continue
                n = self.fresh('Lifted-T')
                setattr(h, a, Ty('ref', name=n))
                homes = [o for o in self.v[:k] if (explicit_env(o), o.tagging == 'AUTOMATIC') == (explicit_env(m), m.tagging == 'AUTOMATIC')]
                if homes and not has_refs(t) and rng.random() < .5:
                    o = rng.choice(homes)
                    o.types.append((n, t))
                    if rng.random() < .6:
                        between = self.v[self.v.index(o) + 1:k] if any(o is x for x in self.v) else []
                        if between and rng.random() < .6:
                            # through the imports of a module in between
                            x = rng.choice(between)
                            self.add_import(x, o, n)
                            o = x
                        self.add_import(m, o, n)
                    else:
                        getattr(h, a).mod = o.name
                else:
                    m.types.append((n, t))
                did = True
        return did

    def add_import(self, m, o, n):
        for mod, names in m.imports:
            if mod == o.name:
                if n not in names:
                    names.insert(self.rng.randint(0, len(names)), n)
                return
        m.imports.append((o.name, [n]))

    def inline(self):
        """the definition instead of a reference to it"""
        rng, did = self.rng, False
        r = self.res()
        for m in self.v:
            spots = []
            for _, t in m.types:
                for h, a in subtypes(t):
                    if getattr(h, a).kind == 'ref':
                        spots.append((h, a))
            rng.shuffle(spots)
            autos = {id(c) for x, c in self.parent_comps(m) if automatic(m, x.comps)}
            for h, a in spots[:3]:
                ref = getattr(h, a)
                d, dm = r.find(ref, m)
                if dm is not m and (has_refs(d) or (explicit_env(dm), dm.tagging == 'AUTOMATIC') != (explicit_env(m), m.tagging == 'AUTOMATIC')):
                    continue
                if d.kind == 'tag' and id(h) in autos:
                    continue
                if len(list(nodes(d))) > 12 or any(x.kind == 'ref' and x.name == ref.name for x in nodes(d)) or sum(x.kind == 'choice' for x in nodes(d)) > 1:
                    continue
                if any(x is h for x in nodes(d)) or any(getattr(x, 'comps', None) and h in x.comps for x in nodes(d)):
                    continue
                setattr(h, a, copy.deepcopy(d))
                did = True
        return did

    def components_of(self):
        rng, did = self.rng, False
        for m in self.v:
            cs = [x for _, t in m.types for x in nodes(t) if x.kind in ('seq', 'set') and not any(c.of for c in x.comps)]
            rng.shuffle(cs)
            for t in cs[:2]:
                if m.tagging == 'AUTOMATIC' and not automatic(m, t.comps):
                    continue
                top = len(t.comps) if t.ext is None else t.ext
                if top < 1:
                    continue
                i = rng.randrange(top)
                j = rng.randint(i + 1, top)
                n = self.fresh('Part-T')
                p = Ty(t.kind, comps=copy.deepcopy(t.comps[i:j]))
                if rng.random() < .3 and t.kind == 'seq' and not m.tagging == 'AUTOMATIC':
                    # extension additions are not inherited
                    p.ext = len(p.comps)
                    p.comps.append(Comp('only-here', Ty('null'), 'opt'))
                    if schema.valid(self.with_type(m, n, p)):
                        p.ext, p.comps = None, p.comps[:-1]
                for c in t.comps[i:j]:
                    c.of = n
                m.types.append((n, p))
                if rng.random() < .3 and len(p.comps) > 1 and p.ext is None:
                    # inherited in turn
                    q = self.fresh('Part-T')
                    m.types.append((q, Ty(t.kind, comps=copy.deepcopy(p.comps[:1]))))
                    p.comps[0].of = q
                if rng.random() < .3:
                    q = self.fresh('Alias-T')
                    m.types.append((q, Ty('ref', name=n)))
                    for c in t.comps[i:j]:
                        c.of = q
                did = True
        return did

    def with_type(self, m, n, t):
        x = Module(m.name, m.tagging)
        x.types, x.imports = m.types + [(n, t)], m.imports
        return [x if y is m else y for y in self.v]

    def parameters(self):
        """a parameterized type and its use"""
        rng, did = self.rng, False
        for m in self.v:
            tops = [(n, t) for n, t in m.types if t.kind in ('seq', 'set', 'choice', 'seqof', 'setof') and n not in m.via]
            rng.shuffle(tops)
            for n, t in tops[:2]:
                body = copy.deepcopy(t)
                if any(c.of for x in nodes(body) if x.kind in ('seq', 'set', 'choice') for c in x.comps):
                    continue
                spots = []
                for h, a in subtypes(body):
                    if isinstance(h, Comp):
                        # automatic tags of a dummy reference are explicit
                        if m.tagging == 'AUTOMATIC' or h.opt == 'def':
                            continue
                    elif h.kind == 'tag':
                        # and so are its textual ones
                        if not (h.mode == 'EXPLICIT' or (h.mode is None and m.tagging in (None, 'EXPLICIT'))):
                            continue
                    spots.append((h, a))
                if not spots:
                    continue
                rng.shuffle(spots)
                args = []
                for h, a in spots[:rng.randint(1, 3)]:
                    x = getattr(h, a)
                    if any(y.kind == 'ref' and y.name.startswith('Dummy-') for y in nodes(x)) or not any(z is h for z in [body] + list(nodes(body)) + [c for y in nodes(body) if y.comps for c in y.comps]):
                        continue  # overlaps with another spot
                    for y in nodes(x):
                        y.deco = ''
                    p = self.fresh('Dummy-')
                    args.append((p, x))
                    setattr(h, a, Ty('ref', name=p))
                    if isinstance(h, Ty) and h.kind == 'tag' and m.tagging != 'AUTOMATIC' and rng.random() < .5:
                        h.mode = None  # explicit, as it tags a dummy reference
                # the compiler takes a list which begins with a reference, INTEGER or NULL for values, and refuses it
                args.sort(key=lambda a: a[1].kind in ('ref', 'null') or a[1].kind == 'int')
                while len(args) > 1 and args[-2][1].kind in ('ref', 'null', 'int'):
                    p, x = args.pop()
                    for h, a in subtypes(body):
                        if getattr(h, a).kind == 'ref' and getattr(h, a).name == p:
                            setattr(h, a, x)
                            if isinstance(h, Ty) and h.kind == 'tag':
                                h.mode = 'EXPLICIT'
                if not args:
                    continue
                tn = self.fresh('Template-T')
                m.templates.append((tn, [p for p, _ in args], body))
                m.via[n] = (tn, [x for _, x in args])
                if rng.random() < .5:
                    # used a second time
                    o = self.fresh('Again-T')
                    m.types.append((o, copy.deepcopy(t)))
                    m.via[o] = (tn, [x for _, x in args])
                    for po, pn, vm, vn in list(self.v.pairs):
                        if (vm, vn) == (m.name, n):
                            self.v.pairs.append((po, pn, m.name, o))
                did = True
        return did

    def class_fields(self):
        """the type of a field of an object class"""
        rng, did = self.rng, False
        for m in self.v:
            spots = [(h, a) for _, t in m.types for h, a in subtypes(t) if getattr(h, a).kind in ('bool', 'int', 'null', 'real', 'oid', 'str', 'time', 'ref') and getattr(h, a).field is None
                     and not (isinstance(h, Comp) and h.of)]
            rng.shuffle(spots)
            by_class = []
            for h, a in spots[:rng.choice([1, 2, 4, 8, 40])]:
                if not by_class or rng.random() < .4:
                    by_class.append((self.fresh('SOME-CLASS-'), []))
                n, fields = rng.choice(by_class)
                t = getattr(h, a)
                t.field = (n, self.fresh(rng.choice(['&field-', '&a-field-with-a-long-name-', '&id'])))
                fields.append(t)
                did = True
            m.classes += [x for x in by_class if x[1]]
        return did

    def default_values(self):
        """value assignments for the DEFAULTs"""
        rng, did = self.rng, False
        r = self.res()
        for k, m in enumerate(self.v):
            for x, c in list(self.parent_comps(m)):
                if c.opt != 'def' or rng.random() < .4 or c.of:
                    continue
                b, bm = r.base(c.ty, m)
                if b.kind == 'enum' or c.dtext[0].islower():
                    continue
                n = self.fresh('some-value-')
                home = m if not k or rng.random() < .6 else rng.choice(self.v[:k])
                home.values.append(Value(n, Ty(b.kind, sub=b.sub), c.dtext))
                if rng.random() < .3 and b.kind in ('int', 'bool'):
                    # through another value
                    q = self.fresh('some-value-')
                    home.values.append(Value(q, Ty(b.kind, sub=b.sub), n))
                    n = q
                if home is not m:
                    self.add_import(m, home, n)
                c.dtext = n
                did = True
        return did

    def rename(self):
        """other names for components and alternatives"""
        rng, did = self.rng, False
        for m in self.v:
            used = {}
            for x, c in self.parent_comps(m):
                if c.of or any(p.of for p in x.comps) or rng.random() < .5:
                    continue
                if any(n.startswith('Part-T') and x is t for n, t in m.types):
                    continue
                c.name = self.fresh('renamed-')
                did = True
        return did

    def text(self):
        rng = self.rng
        for m in self.v:
            if rng.random() < .5:
                m.oid = rng.choice(['{ iso(1) member-body(2) 840 %d }' % rng.randint(1, 99999), '{ 1 3 6 }', '{iso standard(0) 7 modules(0)}'])
            if rng.random() < .4:
                m.exports = 'EXPORTS ALL;'
            elif rng.random() < .3:
                m.exports = 'EXPORTS ' + ', '.join([n for n, _ in m.types] + [n for _, ns in m.imports for n in ns] + [v.name for v in m.values]) + ';'
        return True

    def order(self):
        return True

    # ------------------------------------------------------------ text
    def finish(self):
        v, rng = self.v, self.rng
        wild = 'text' in v.done
        shuffled = 'order' in v.done
        texts = []
        for m in v:
            texts.append(render(m, WildStyle(rng) if wild else PLAIN, rng if shuffled else None, {x.name: getattr(x, 'oid', '') for x in v}))
        if shuffled:
            order = list(range(len(texts)))
            rng.shuffle(order)
            texts = [texts[i] for i in order]
        files = []
        for t in texts:
            if files and shuffled and rng.random() < .4:
                files[-1] += t
            else:
                files.append(t)
        v.files = [('f%d.asn' % i, t) for i, t in enumerate(files)]
        return v


def render(m, st, rng, oids):
    s = m.name + st.sp() + (m.oid + st.sp() if m.oid else '') + 'DEFINITIONS' + st.sp()
    if m.tagging:
        s += m.tagging + st.sp() + 'TAGS' + st.sp()
    s += '::=' + st.sp() + 'BEGIN' + st.nl(0)
    if m.exports:
        s += m.exports + st.nl(0)
    if m.imports:
        imps = [(a, list(b)) for a, b in m.imports]
        if rng:
            rng.shuffle(imps)
            for _, b in imps:
                rng.shuffle(b)
        s += 'IMPORTS' + st.sp() + st.sp().join((',' + st.sp()).join(ns) + st.sp() + 'FROM' + st.sp() + mod + (st.sp() + oids[mod] if oids.get(mod) else '') for mod, ns in imps) + st.opt() + ';' + st.nl(0)
    items = []
    for n, t in m.types:
        if n in m.via:
            tn, args = m.via[n]
            items.append(n + st.sp() + '::=' + st.sp() + tn + st.sp() + '{' + st.opt() + (',' + st.sp()).join(schema.text(a, st) for a in args) + st.opt() + '}')
        else:
            items.append(n + st.sp() + '::=' + st.sp() + schema.text(t, st))
    items += [n + st.sp() + '{' + st.opt() + (',' + st.sp()).join(ps) + st.opt() + '}' + st.sp() + '::=' + st.sp() + schema.text(b, st) for n, ps, b in m.templates]
    items += [v.name + st.sp() + schema.text(v.ty, st) + st.sp() + '::=' + st.sp() + v.text for v in m.values]
    for n, fields in m.classes:
        fs = []
        for t in fields:
            f, t.field = t.field, None
            fs.append(f[1] + st.sp() + schema.text(t, st) + (rng.choice(['', ' OPTIONAL', ' UNIQUE', ' UNIQUE OPTIONAL']) if rng else ''))
            t.field = f
        if rng:
            fs += ['&Type-' + str(rng.randint(0, 9)) + rng.choice(['', ' OPTIONAL'])] * rng.randint(0, 1)
            rng.shuffle(fs)
        items.append(n + st.sp() + '::=' + st.sp() + 'CLASS' + st.sp() + '{' + st.opt() + (',' + st.sp()).join(fs) + st.opt() + '}')
    if rng:
        rng.shuffle(items)
    return s + ''.join(i + st.nl(0) for i in items) + 'END\n'


def rewrite(mods, rng, which=None, without=()):
    """-> Variant; which: the rewrites to try, in order (random when None)"""
    if which is None:
        which = rng.sample([x for x in REWRITES[:-2] if x not in without], rng.randint(1, 4)) + [x for x in REWRITES[-2:] if rng.random() < .6]
        which.sort(key=REWRITES.index)
    w = Rewriter(mods, rng)
    for x in which:
        if getattr(w, x.replace('-', '_'))():
            w.v.done.append(x)
    return w.finish()
