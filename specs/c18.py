"""C18 Resource identity: merge precedence, mandatory keys, bounded attribute store."""
from urllib.parse import unquote
from lib import *
from rig import Rig

RULES = {
    'C18.identity': 'the resource of the client contains the SDK identity keys and a service name',
    'C18.precedence': 'the attributes are those of the sources, later ones override earlier ones key by key',
    'C18.messages': 'each poll and each snapshot has the resource of the client',
    'C18.operands': 'merging modifies neither operand, and the result shares nothing that can change with them',
    'C18.schema': 'the schema of a merge is that of the operand that has one; two different ones cannot be merged and the old resource stays',
    'C18.capacity': 'a container never holds more than its capacity',
    'C18.eviction': 'at capacity the oldest goes, what was set since stays',
    'C18.dropped': 'each drop is counted, and nothing else',
    'C18.values': 'stored values are valid and cleaned: strings cut, bytes decoded, homogeneous sequences frozen; others are rejected',
    'C18.frozen': 'a frozen container rejects every modification',
}
EXPLANATION = ('Histories of set, delete, pop, update and merge operations on containers of each capacity are compared step by step with a reference model; the cleaning of values is compared with '
               'an independent table over value shapes and limits; resources are combined from each setting of the environment, the code and the plugins, and read back from the messages sent.')

T0 = 10 ** 18
BUILTIN = ('telemetry.sdk.language', 'telemetry.sdk.name', 'telemetry.sdk.version')
NAME = 'service.name'
UNSET = object()


def show_items(items):
    return '{%s}' % ', '.join('%s: %s' % (show(k), show(v)) for k, v in items)


# -------------------------------------------------------------------- values

class Bad:
    """Not a valid value."""


def clean(it, v, limit):
    """The reference: the stored value, or Bad. None inside of a sequence stays."""
    if isinstance(v, bool) or isinstance(v, (int, float)) and not isinstance(v, HostVal):
        return v
    if isinstance(v, bytes):
        try:
            v = v.decode()
        except UnicodeDecodeError:
            return Bad
    if isinstance(v, str):
        return v if limit is None else v[:limit]
    if isinstance(v, (list, tuple, range)):
        out, ty = [], None
        for x in v:
            if x is None:
                out.append(None)
                continue
            if isinstance(x, (list, tuple, dict, set)) or not isinstance(x, (bool, int, float, str, bytes)):
                return Bad
            c = clean(it, x, limit)
            if c is Bad:
                out.append(None)
                continue
            if ty is not None and type(c) is not ty:
                return Bad
            ty = type(c)
            out.append(c)
        return tuple(out)
    return Bad


def things(it):
    return it.load_source('things', 'class A:\n    pass\n\n\ndef f():\n    pass\n').ns


VALUES = {
    'str': lambda it: 'hello world', 'empty': lambda it: '', 'short': lambda it: 'ab', 'exact': lambda it: 'abcde', 'one more': lambda it: 'abcdef', 'unicode': lambda it: 'äöü☃x🎉', 'int': lambda it: 7, 'zero': lambda it: 0,
    'neg': lambda it: -1, 'true': lambda it: True, 'false': lambda it: False, 'float': lambda it: 1.5, 'fzero': lambda it: 0.0, 'bytes': lambda it: b'some bytes', 'ebytes': lambda it: b'', 'ubytes': lambda it: 'äöü☃x'.encode(),
    'badbytes': lambda it: b'\x81\xff', 'none': lambda it: None, 'list': lambda it: ['a', 'b'], 'longs': lambda it: ['abcdefgh', 'x', 'ijklmnop'], 'tuple': lambda it: (1, 2, 3), 'elist': lambda it: [], 'etuple': lambda it: (),
    'bools': lambda it: [True, False], 'floats': lambda it: [1.0, 2.5], 'mixed': lambda it: [1, 'a'], 'mixed2': lambda it: ['a', 1], 'int-bool': lambda it: [1, True], 'bool-int': lambda it: [True, 1], 'int-float': lambda it: [1, 2.0],
    'nones': lambda it: [None, None], 'some none': lambda it: ['a', None, 'b'], 'none mixed': lambda it: [None, 'a', None, 1], 'bytes list': lambda it: [b'abcdefgh', b'b'], 'bytes str': lambda it: [b'a', 'b'], 'bad bytes list': lambda it: [b'\x81', 'a'],
    'nested': lambda it: [[1], [2]], 'nested2': lambda it: ['a', ['b']], 'dicts': lambda it: [{}], 'dict': lambda it: {'a': 1}, 'edict': lambda it: {}, 'set': lambda it: {1}, 'complex': lambda it: 1j, 'range': lambda it: range(3), 'obj': lambda it: it.call(things(it)['A'], [], {}),
    'objs': lambda it: [it.call(things(it)['A'], [], {})], 'late mixed': lambda it: ['a'] * 6 + [1], 'late none': lambda it: [1] * 6 + [None], 'function': lambda it: things(it)['f'], 'class': lambda it: things(it)['A'], 'zeros': lambda it: [0, 0], 'empties': lambda it: ['', ''], 'false list': lambda it: [False],
}
KEYS = {'plain': 'k', 'dotted': 'a.b', 'space': ' ', 'unicode': 'ü', 'long': 'k' * 300, 'empty': '', 'none': None, 'int': 1, 'zero': 0, 'tuple': ('a',), 'bytes': b'k', 'true': True, 'float': 1.5}


def same(it, a, b):
    a, b = it.resolve(a), it.resolve(b)
    if a is b:
        return True
    if isinstance(a, HostVal) or isinstance(b, HostVal) or isinstance(a, Sym) or isinstance(b, Sym):
        return it.tri_eq(a, b) is True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(it, x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def container(it, cap=None, attrs=None, frozen=False, limit=UNSET):
    cls = it.public('deep.api.attributes', 'BoundedAttributes')
    kw = {}
    if limit is not UNSET:
        kw['max_value_len'] = limit
    return it.new(cls, max_length=cap, attributes=attrs, immutable=frozen, **kw)


def items(it, a):
    return [(it.resolve(k), it.resolve(v)) for k, v in [tuple(it.iterate(x)) for x in it.iterate(it.m(a, 'items'))]]


def stored(how, kind, limit):
    """One value into a container, in one of the ways, and what is there then."""
    def fn(it):
        v = VALUES[kind](it)
        want = clean(it, v, limit)
        if how == 'set':
            a = container(it, limit=limit)
            it.m(a, '__setitem__', 'before', 'b')
            it.m(a, '__setitem__', 'k', v)
        elif how == 'init':
            a = container(it, None, {'before': 'b', 'k': v}, limit=limit)
        elif how == 'frozen-init':
            a = container(it, None, {'before': 'b', 'k': v}, True, limit)
        elif how == 'merge':
            a = container(it, limit=limit)
            it.m(a, 'merge_in', {'before': 'b', 'k': v})
        elif how == 'update':
            a = container(it, limit=limit)
            it.m(a, 'update', {'before': 'b', 'k': v})
        elif how == 'again':
            a = container(it, limit=limit)
            it.m(a, '__setitem__', 'k', 'old')
            it.m(a, '__setitem__', 'before', 'b')
            it.m(a, '__setitem__', 'k', v)
        bef = 'b' if limit is None else 'b'[:limit]
        got = dict(items(it, a))
        old = 'old' if limit is None else 'old'[:limit]
        exp = {'before': bef}
        if want is not Bad:
            exp['k'] = want
        elif how == 'again':
            exp['k'] = old
        it.check(set(got) == set(exp), 'C18.values', '%s of %s with the limit %s: the keys are %s, expected %s' % (how, show(v), limit, sorted(got, key=str), sorted(exp)))
        for k in exp:
            it.check(same(it, got[k], exp[k]), 'C18.values', '%s of %s with the limit %s is stored as %s, expected %s' % (how, show(v), limit, show(got[k]), show(exp[k])))
        it.check(it.resolve(it.get(a, 'dropped')) == 0, 'C18.dropped', 'dropped is %s after %s of %s' % (show(it.get(a, 'dropped')), how, show(v)))
        # what is stored does not change with the value that was given
        if isinstance(v, list):
            v.append('later')
            got2 = dict(items(it, a))
            it.check(set(got2) == set(got) and all(same(it, got2[k], got[k]) for k in got2), 'C18.values', 'the stored sequence changes with the one that was given')
        it.witness.add('stored')
    return fn


def symbolic(shape, limit):
    """Texts and numbers of which nothing is known."""
    def fn(it):
        s = it.strsym('s')
        n = it.hint('n')
        v = {'str': lambda: s, 'int': lambda: n, 'list': lambda: [s, s], 'ints': lambda: [n, n], 'mix': lambda: [s, n], 'mix2': lambda: [n, s]}[shape]()
        a = container(it, limit=limit)
        it.m(a, '__setitem__', 'k', v)
        got = dict(items(it, a))
        if shape.startswith('mix'):
            it.check('k' not in got, 'C18.values', 'a mixed sequence is stored as %s' % show(got.get('k')))
            return
        it.check('k' in got, 'C18.values', '%s is not stored' % show(v))
        g = got['k']

        def text(x):
            if limit is None:
                return x is s
            return isinstance(x, Sym) and x.op == 'slice' and x.args[0] is s and x.args[1] in (None, 0) and x.args[2] == limit
        if shape == 'str':
            it.check(text(g), 'C18.values', 'a string with the limit %s is stored as %s' % (limit, show(g)))
        elif shape == 'int':
            it.check(g is n, 'C18.values', 'a number is stored as %s' % show(g))
        else:
            it.check(type(g) is tuple and len(g) == 2 and all(text(x) if shape == 'list' else x is n for x in g), 'C18.values', 'a list is stored as %s' % show(g))
    return fn


def key(kind, how):
    def fn(it):
        k = KEYS[kind]
        ok = isinstance(k, str) and k != ''
        if how == 'init':
            a = container(it, None, {'before': 1, k: 'v', 'after': 2})
        else:
            a = container(it)
            it.m(a, '__setitem__', 'before', 1)
            it.m(a, '__setitem__', k, 'v')
            it.m(a, '__setitem__', 'after', 2)
        got = items(it, a)
        want = [('before', 1)] + ([(k, 'v')] if ok else []) + [('after', 2)]
        it.check(got == want, 'C18.values', 'with the key %r the container has %s' % (k, show_items(got)))
        it.check(it.resolve(it.get(a, 'dropped')) == 0, 'C18.dropped', 'an invalid key is counted as dropped')
    return fn


# -------------------------------------------------------------------- histories

class Model:
    """The reference container: oldest first."""

    def __init__(self, cap):
        self.cap, self.items, self.dropped, self.maybe = cap, [], 0, 0

    def get(self, k):
        return dict(self.items).get(k, UNSET)

    def set(self, k, v):
        v = clean(None, v, None)
        bad = v is Bad or not (isinstance(k, str) and k)
        if self.cap == 0:
            if bad:
                self.maybe += 1         # an invalid value that is not stored anyway
            else:
                self.dropped += 1
            return
        if bad:
            return
        if self.get(k) is not UNSET:
            self.items = [x for x in self.items if x[0] != k]
        elif self.cap is not None and len(self.items) == self.cap:
            self.items.pop(0)
            self.dropped += 1
        self.items.append((k, v))

    def delete(self, k):
        if self.get(k) is UNSET:
            return False
        self.items = [x for x in self.items if x[0] != k]
        return True


def compare(it, a, m, what):
    got = items(it, a)
    n = it.resolve(it.m(a, '__len__'))
    it.check(n == len(got), 'C18.capacity', '%s: the length is %s, there are %d attributes' % (what, show(n), len(got)))
    if m.cap is not None:
        it.check(len(got) <= m.cap, 'C18.capacity', '%s: %d attributes, the capacity is %d' % (what, len(got), m.cap))
    it.check(sorted(k for k, _ in got) == sorted(k for k, _ in m.items), 'C18.eviction', '%s: the container has %s, expected %s' % (what, show_items(got), show_items(m.items)))
    it.check(got == m.items, 'C18.eviction' if dict(got) == dict(m.items) else 'C18.values', '%s: the container has %s, oldest first it is %s' % (what, show_items(got), show_items(m.items)))
    d = it.resolve(it.get(a, 'dropped'))
    it.check(isinstance(d, int) and m.dropped <= d <= m.dropped + m.maybe, 'C18.dropped', '%s: dropped is %s, %d were dropped' % (what, show(d), m.dropped))


OPS = {
    'set a': ('set', 'a'), 'set b': ('set', 'b'), 'set c': ('set', 'c'), 'set d': ('set', 'd'), 'bad a': ('bad', 'a'), 'bad z': ('bad', 'z'), 'bad key': ('badkey', ''), 'del a': ('del', 'a'), 'del b': ('del', 'b'), 'pop a': ('pop', 'a'),
    'popitem': ('popitem', None), 'clear': ('clear', None), 'setdefault a': ('setdefault', 'a'), 'update ab': ('update', 'ab'), 'merge cab': ('merge', 'cab'), 'update self': ('self', None), 'copy': ('copy', None), 'merge bad': ('mergebad', 'de'),
}


def apply(it, a, m, op, n):
    kind, x = OPS[op]
    v = 'v%d' % n
    at = it.attempt
    if kind == 'set':
        it.m(a, '__setitem__', x, v)
        m.set(x, v)
    elif kind == 'bad':
        it.m(a, '__setitem__', x, [1, 'mixed'])
        m.set(x, [1, 'mixed'])
    elif kind == 'badkey':
        it.m(a, '__setitem__', x, v)
        m.set(x, v)
    elif kind == 'del':
        _, e = at(it.m, a, '__delitem__', x)
        ok = m.delete(x)
        it.check((e is None) == ok and (e is None or exc_name(e) == 'KeyError'), 'C18.eviction', 'del of %s %s' % (x, 'raises %s' % exc_name(e) if e else 'raises nothing'))
    elif kind == 'pop':
        r, e = at(it.m, a, 'pop', x, 'default')
        want = m.get(x)
        m.delete(x)
        it.check(e is None and it.resolve(r) == ('default' if want is UNSET else want), 'C18.eviction', 'pop of %s gives %s' % (x, exc_name(e) if e else show(r)))
    elif kind == 'popitem':
        r, e = at(it.m, a, 'popitem')
        if not m.items:
            it.check(e is not None and exc_name(e) == 'KeyError', 'C18.eviction', 'popitem of an empty container')
        else:
            # any item
            it.check(e is None, 'C18.eviction', 'popitem raises %s' % (exc_name(e) if e else ''))
            k, val = [it.resolve(y) for y in it.iterate(r)]
            it.check(m.get(k) == val, 'C18.eviction', 'popitem gives %s' % show(r))
            m.delete(k)
    elif kind == 'clear':
        it.m(a, 'clear')
        m.items = []
    elif kind == 'setdefault':
        it.m(a, 'setdefault', x, v)
        if m.get(x) is UNSET:
            m.set(x, v)
    elif kind == 'update':
        it.m(a, 'update', {y: v + y for y in x})
        for y in x:
            m.set(y, v + y)
    elif kind == 'merge':
        it.m(a, 'merge_in', {y: v + y for y in x})
        for y in x:
            m.set(y, v + y)
    elif kind == 'mergebad':
        it.m(a, 'merge_in', {x[0]: {}, x[1]: v})
        m.set(x[0], {})
        m.set(x[1], v)
    elif kind == 'self':
        it.m(a, 'merge_in', a)
        for k, val in list(m.items):
            m.set(k, val)
    elif kind == 'copy':
        c = it.m(a, 'copy')
        it.setitem(c, 'copied', 1)
        if m.items:
            it.setitem(c, m.items[0][0], 'other')


def history(cap, ops, n, init=''):
    """Every history of n of these operations."""
    def fn(it):
        m = Model(cap)
        a = container(it, cap, {k: 'i' + k for k in init} if init else None)
        for k in init:
            m.set(k, 'i' + k)
        done = ['new(%s)' % init]
        compare(it, a, m, ' '.join(done))
        for j in range(n):
            op = ops[it.choose(len(ops), 'op %d' % j)]
            apply(it, a, m, op, j)
            done.append(op)
            compare(it, a, m, 'capacity %s: %s' % (cap, ', '.join(done)))
    return fn


def from_container(cap, cap2):
    """A container made of another container, and merges of containers."""
    def fn(it):
        a = container(it, cap, {k: 'a' + k for k in 'abcd'})
        m = Model(cap)
        for k in 'abcd':
            m.set(k, 'a' + k)
        b = container(it, cap2, a)
        n = Model(cap2)
        for k, v in m.items:
            n.set(k, v)
        compare(it, a, m, 'source')
        compare(it, b, n, 'container of capacity %s from one of %s' % (cap2, cap))
        it.m(b, 'merge_in', {'a': 'n', 'x': 'n'})
        n.set('a', 'n')
        n.set('x', 'n')
        compare(it, b, n, 'then merged')
        it.m(a, 'merge_in', b)
        for k, v in n.items:
            m.set(k, v)
        compare(it, a, m, 'merged back')
        compare(it, b, n, 'the merged one')
    return fn


def bad_capacity(cap):
    def fn(it):
        a, e = it.attempt(container, it, cap)
        it.check(e is not None, 'C18.capacity', 'a container of capacity %r is made' % (cap,))
    return fn


MODS = {
    'set new': lambda it, a: it.m(a, '__setitem__', 'new', 1), 'set old': lambda it, a: it.m(a, '__setitem__', 'a', 1), 'set invalid': lambda it, a: it.m(a, '__setitem__', 'a', {}), 'del': lambda it, a: it.m(a, '__delitem__', 'a'),
    'pop': lambda it, a: it.m(a, 'pop', 'a'), 'pop default': lambda it, a: it.m(a, 'pop', 'a', None), 'popitem': lambda it, a: it.m(a, 'popitem'), 'clear': lambda it, a: it.m(a, 'clear'), 'update': lambda it, a: it.m(a, 'update', {'a': 2}),
    'update kw': lambda it, a: it.m(a, 'update', new=2), 'setdefault': lambda it, a: it.m(a, 'setdefault', 'new', 2), 'merge_in': lambda it, a: it.m(a, 'merge_in', {'a': 2}), 'merge_in new': lambda it, a: it.m(a, 'merge_in', {'new': 2}),
    'merge_in self': lambda it, a: it.m(a, 'merge_in', a),
}


def frozen(mod, cap, which):
    def fn(it):
        if which == 'container':
            a = container(it, cap, {'a': 1, 'l': [1, 2]}, True)
            want = [('a', 1), ('l', (1, 2))]
            if cap is not None:
                want = want[len(want) - cap:] if cap else []
        else:
            R = it.public('deep.api.resource', 'Resource')
            r = it.new(R, {'a': 1, 'l': [1, 2]})
            if which == 'merged':
                r = it.m(r, 'merge', it.new(R, {'l': [3, 4]}))
            a = it.get(r, 'attributes')
            want = [('a', 1), ('l', (1, 2) if which == 'resource' else (3, 4))]
        d0 = it.resolve(it.get(a, 'dropped'))
        _, e = it.attempt(MODS[mod], it, a)
        nothing = not want and mod in ('clear', 'popitem', 'pop', 'merge_in self', 'del') or mod == 'pop default' and 'a' not in dict(want)
        it.check(e is not None or nothing, 'C18.frozen', '%s of a frozen container raises nothing' % mod)
        it.check(dict(items(it, a)) == dict(want) and it.resolve(it.get(a, 'dropped')) == d0, 'C18.frozen', 'after a rejected %s the container has %s, dropped %s' % (mod, show_items(items(it, a)), show(it.get(a, 'dropped'))))
        if which == 'container':
            # a copy is not the container
            c = it.m(a, 'copy')
            it.setitem(c, 'a', 'changed')
            it.check(dict(items(it, a)) == dict(want), 'C18.frozen', 'changing a copy changes the container')
    return fn


# -------------------------------------------------------------------- merge

POOL = [{}, {'a': 1}, {'a': 2, 'b': 'x'}, {'b': '', 'c': [1, 2]}, {'c': False, 'a': 'text'}, {'bad': {}, 'a': None, 'd': 'd'}]
SCHEMAS = [None, '', 'http://one', 'http://two']


def merges(n):
    """Every chain of n merges."""
    def fn(it):
        R = it.public('deep.api.resource', 'Resource')
        rs, models = [], []
        for k in range(n + 1):
            d = {x: (list(y) if isinstance(y, list) else dict(y) if isinstance(y, dict) else y) for x, y in POOL[it.choose(len(POOL), 'attrs %d' % k)].items()}
            s = SCHEMAS[it.choose(len(SCHEMAS), 'schema %d' % k)] if n == 1 or k < 2 else SCHEMAS[1 + k % 3]
            r = it.new(R, d, s) if s is not None else it.new(R, d)
            # the dict that was given is the one of the caller
            d['later'] = 1
            if isinstance(d.get('c'), list):
                d['c'].append(3)
            rs.append(r)
            d2 = {x: clean(it, y, None) for x, y in d.items() if x != 'later'}
            if isinstance(d.get('c'), list):
                d2['c'] = (1, 2)
            models.append(({x: y for x, y in d2.items() if y is not Bad}, s or ''))
        cur, (want, schema) = rs[0], models[0]
        seen = list(zip(rs, models))
        for r, (attrs, s) in zip(rs[1:], models[1:]):
            new = it.m(cur, 'merge', r)
            if schema and s and schema != s:
                want2, schema2 = want, schema
            else:
                want2, schema2 = dict(want), schema or s
                want2.update(attrs)
            got = dict(items(it, it.get(new, 'attributes')))
            conflict = schema and s and schema != s
            it.check(it.resolve(it.get(new, 'schema_url')) == schema2, 'C18.schema', 'the schema of the merge of %r and %r is %s' % (schema, s, show(it.get(new, 'schema_url'))))
            it.check(got == want2 and all(type(got[k]) is type(want2[k]) for k in got), 'C18.schema' if conflict else 'C18.precedence', 'the merge of %s and %s has %s' % (want, attrs, show_items(got.items())))
            for x, (a2, s2) in seen:
                g = dict(items(it, it.get(x, 'attributes')))
                it.check(g == a2 and it.resolve(it.get(x, 'schema_url')) == s2, 'C18.operands', 'after a merge an operand has %s schema %s, it had %s schema %s' % (show_items(g.items()), show(it.get(x, 'schema_url')), a2, s2))
            _, e = it.attempt(it.m, it.get(new, 'attributes'), '__setitem__', 'x', 1)
            it.check(e is not None, 'C18.frozen', 'the attributes of a merged resource can be set')
            cur, want, schema = new, want2, schema2
            seen.append((cur, (want, schema)))
    return fn


def of_container(cap):
    """A resource made of a container that is not frozen."""
    def fn(it):
        R = it.public('deep.api.resource', 'Resource')
        a = container(it, cap, {'a': 1, 'l': [1]})
        r = it.new(R, a)
        it.m(a, '__setitem__', 'a', 2)
        it.m(a, '__setitem__', 'later', 2)
        r2 = it.m(r, 'merge', it.new(R, {'b': 3}))
        it.m(a, 'clear')
        for x, want in ((r, {'a': 1, 'l': (1,)}), (r2, {'a': 1, 'l': (1,), 'b': 3})):
            got = dict(items(it, it.get(x, 'attributes')))
            it.check(got == want, 'C18.operands', 'a resource changes with the container it was made of: %s' % show_items(got.items()))
            _, e = it.attempt(it.m, it.get(x, 'attributes'), '__setitem__', 'x', 1)
            it.check(e is not None, 'C18.frozen', 'the attributes of a resource made of a container can be set')
    return fn


# -------------------------------------------------------------------- create

ENV_ATTRS = {
    None: {}, '': {}, 'a=1': {'a': '1'}, 'a=1,b=2': {'a': '1', 'b': '2'}, ' a = 1 , b=2 ': {'a': '1', 'b': '2'}, 'a=1,a=2': {'a': '2'}, 'a=b=c': {'a': 'b=c'}, 'a=': {'a': ''}, 'junk': {}, 'junk,a=1': {'a': '1'}, 'a=1,junk,b=2,': {'a': '1', 'b': '2'}, ',': {},
    'a=x%20y%2Cz': {'a': 'x y,z'}, 'a=%C3%A4': {'a': 'ä'}, '=1,b=2': {'b': '2'}, 'service.name=envattr': {NAME: 'envattr'}, 'service.name=': {NAME: ''}, 'telemetry.sdk.name=other': {'telemetry.sdk.name': 'other'},
    'process.executable.name=exe': {'process.executable.name': 'exe'}, 'a=100%': {'a': '100%'}, 'telemetry.sdk.name=,a=1': {'telemetry.sdk.name': '', 'a': '1'},
}
ENV_NAME = [None, '', 'env-name']
CODE = {
    'none': None, 'empty': {}, 'a': {'a': 'code', 'c': 'code'}, 'name': {NAME: 'code-name'}, 'empty name': {NAME: ''}, 'sdk': {'telemetry.sdk.name': 'mine', 'x': 1}, 'exe': {'process.executable.name': 'code-exe'}, 'list': {'l': ['x', 'y'], 'bad': {}, 'a': None},
    'none name': {NAME: None}, 'int exe': {'process.executable.name': 5}, 'list name': {NAME: []},
}


def from_env(it, attrs, name):
    it.env.clear()
    if attrs is not None:
        it.env['DEEP_RESOURCE_ATTRIBUTES'] = attrs
    if name is not None:
        it.env['DEEP_SERVICE_NAME'] = name
    d = dict(ENV_ATTRS[attrs])
    if name:
        d[NAME] = name
    return d


def builtin(it):
    v = it.resolve(it.mod('deep.version')['__version__'])
    return {'telemetry.sdk.language': 'python', 'telemetry.sdk.name': 'deep', 'telemetry.sdk.version': v}


def combined(it, *sources):
    want = builtin(it)
    for s in sources:
        for k, v in (s or {}).items():
            c = clean(it, v, None)
            if c is not Bad:
                want[k] = c
    return want


def identity(it, got, want, what):
    """`want` without a usable service name: any service name will do."""
    for k in BUILTIN:
        it.check(k in got, 'C18.identity', '%s: the resource has no %s: %s' % (what, k, sorted(got)))
    n = got.get(NAME)
    it.check(bool(n) and (isinstance(n, str) or bool(want.get(NAME))), 'C18.identity', '%s: the service name is %s' % (what, show(n)))
    w = dict(want)
    g = dict(got)
    if not w.get(NAME):
        w.pop(NAME, None)
        g.pop(NAME, None)
    it.check(set(g) == set(w), 'C18.precedence', '%s: the resource has the keys %s, expected %s' % (what, sorted(g), sorted(w)))
    for k in w:
        it.check(same(it, g[k], w[k]), 'C18.precedence', '%s: %s is %s, expected %s' % (what, k, show(g[k]), show(w[k])))


def created(code, schema):
    def fn(it):
        attrs = list(ENV_ATTRS)[it.choose(len(ENV_ATTRS), 'DEEP_RESOURCE_ATTRIBUTES')]
        name = ENV_NAME[it.choose(3, 'DEEP_SERVICE_NAME')]
        env = from_env(it, attrs, name)
        R = it.public('deep.api.resource', 'Resource')
        c = CODE[code]
        given = None if c is None else dict(c)
        kw = {} if schema is None else {'schema_url': schema}
        r, e = it.attempt(lambda: it.call(it.get(R, 'create'), [] if given is None else [given], kw))
        what = 'environment %r, %r, code %s' % (attrs, name, c)
        it.check(e is None, 'C18.identity', '%s: create raises %s' % (what, exc_name(e) if e else ''), e.site if e else None)
        got = dict(items(it, it.get(r, 'attributes')))
        want = combined(it, env, c)
        identity(it, got, want, what)
        if not want.get(NAME):
            exe = want.get('process.executable.name')
            it.check('unknown_service' in got[NAME] and (not exe or str(exe) in got[NAME]), 'C18.identity', '%s: the service name is %s' % (what, got[NAME]))
        it.check(it.resolve(it.get(r, 'schema_url')) == (schema or ''), 'C18.schema', '%s: the schema is %s, given was %r' % (what, show(it.get(r, 'schema_url')), schema))
        it.check(given == c, 'C18.operands', 'create changes the attributes that are given')
        # the next one does not have the attributes of this one
        from_env(it, None, None)
        r2 = it.call(it.get(R, 'create'), [], {})
        identity(it, dict(items(it, it.get(r2, 'attributes'))), combined(it), 'after %s: nothing' % what)
    return fn


# -------------------------------------------------------------------- the client

PLUG = '''
from deep.api.plugin import ResourceProvider, Plugin
from deep.api.resource import Resource
import _absint

PLAN = {}


class Base(ResourceProvider):
    def order(self):
        return PLAN[type(self).__name__][0]

    def resource(self):
        n = type(self).__name__
        _absint.boundary('resource', n)
        p = PLAN[n]
        if p[1] is None:
            return None
        return Resource(dict(p[1]), p[2]) if len(p) > 2 else Resource(dict(p[1]))


class P1(Base):
    pass


class P2(Base):
    pass


class P3(Base):
    pass


class Other(Plugin):
    pass
'''
PLANS = {
    'none': {}, 'one': {'P1': (0, {'a': 'p1', 'p': 1})}, 'two': {'P1': (0, {'a': 'p1', 'x': 1}), 'P2': (0, {'a': 'p2', 'y': 2})}, 'reversed': {'P1': (5, {'a': 'p1'}), 'P2': (1, {'a': 'p2', 'b': 'p2'})},
    'negative': {'P1': (0, {'a': 'p1'}), 'P2': (-1, {'a': 'p2'})}, 'three': {'P1': (2, {'a': 'p1', 'b': 'p1', 'c': 'p1'}), 'P2': (3, {'a': 'p2', 'b': 'p2'}), 'P3': (1, {'a': 'p3', 'd': 'p3'})},
    'nothing': {'P1': (0, None), 'P2': (0, {'b': 'p2'})}, 'empty': {'P1': (0, {}), 'P2': (0, {'b': 'p2'})}, 'name': {'P1': (0, {NAME: 'p1'}), 'P2': (1, {'b': 'p2'})}, 'names': {'P1': (1, {NAME: 'p1'}), 'P2': (0, {NAME: 'p2'})},
    'empty name': {'P1': (0, {NAME: '', 'a': 'p1'})}, 'sdk': {'P1': (0, {'telemetry.sdk.name': 'otel', 'telemetry.sdk.language': '', 'a': 'p1'})}, 'invalid': {'P1': (0, {'a': {}, 'b': [1, 'x'], NAME: None, '': 'x'}), 'P2': (0, {'c': [1, 2]})},
    'schema': {'P1': (0, {'a': 'p1'}, 'http://one'), 'P2': (1, {'b': 'p2'})}, 'same schema': {'P1': (0, {'a': 'p1'}, 'http://one'), 'P2': (1, {'a': 'p2'}, 'http://one')},
    'conflict': {'P1': (0, {'a': 'p1'}, 'http://one'), 'P2': (1, {'b': 'p2'}, 'http://two'), 'P3': (2, {'c': 'p3'})},
    'fails': {'P1': (0, {'a': 'p1'}), 'P2': (1, {'b': 'p2'}), 'P3': (2, {'c': 'p3'})}, 'bytes': {'P1': (0, {'a': b'raw', 'b': [b'x', 'y'], 'n': 2 ** 70, 'f': 1.5, 't': True})},
}


def message_value(it, m):
    f = it.call(it.getattr(m, 'WhichOneof'), ['value'], {})
    f = it.resolve(f)
    if f is None:
        return None
    v = it.resolve(it.getattr(m, f))
    if f == 'array_value':
        return tuple(message_value(it, x) for x in it.iterate(it.getattr(v, 'values')))
    return v


def message_resource(it, m):
    out = {}
    m = it.resolve(m)
    for kv in it.iterate(m if it.attempt(it.getattr, m, 'attributes')[1] else it.getattr(m, 'attributes')):
        k = it.resolve(it.getattr(kv, 'key'))
        it.check(k not in out, 'C18.messages', 'the resource of the message has %s twice' % k)
        out[k] = message_value(it, it.getattr(kv, 'value'))
    return out


def in_message(v):
    if isinstance(v, int) and not isinstance(v, bool) and not -2 ** 63 <= v < 2 ** 63:
        return str(v)
    return v


class Client(Rig):
    def __init__(self, it, plan, order, bad=None):
        self.it, self.requests, self.next, self.bad = it, [], None, bad
        it.missing_modules.update({'opentelemetry', 'prometheus_client'})
        ns = it.load_source('plugmod', PLUG).ns
        ns['PLAN'].update(plan)
        names = [n for n in order if n in plan or n == 'Other']
        at_time(it, T0)
        self.config = it.new(it.public('deep.config', 'ConfigService'), {'SERVICE_URL': 'h:1', 'SERVICE_SECURE': 'False', 'APP_ROOT': '/app', 'PLUGINS': ['plugmod.' + n for n in names]})
        self.deep = it.new(it.public('deep.api', 'Deep'), self.config)
        self.hd = it.get(self.deep, 'trigger_handler')
        self.tasks = it.get(self.deep, 'task_handler')
        it.boundary_hook = self.hook
        it.eval_hook = lambda i, name, expr, g, lo, scope: True
        # the order of the plugins: by order, then as configured
        self.order = sorted([n for n in names if n in plan], key=lambda n: plan[n][0])

    def hook(self, i, kind, args, kw):
        if kind == 'resource' and self.bad and args[0] == self.bad[0]:
            raise PyExc(self.bad[1]('failed'), i.site())
        if kind == 'poll':
            self.requests.append(args[0])
            return self.next if self.next is not None else self.no_change()
        return None


def client(plan, attrs, name, order=('P1', 'P2', 'P3', 'Other'), bad=None):
    def fn(it):
        env = from_env(it, attrs, name)
        p = PLANS[plan]
        c = Client(it, p, order, bad)
        what = 'environment %r, %r, plugins %s' % (attrs, name, [(n, p[n]) for n in c.order])
        _, e = it.attempt(it.m, c.deep, 'start')
        it.check(e is None, 'C18.identity', '%s: start raises %s' % (what, exc_name(e) if e else ''), e.site if e else None)
        want, schema = combined(it, env), ''
        for n in c.order:
            pl = p[n]
            if bad and bad[0] == n or pl[1] is None:
                continue
            s = pl[2] if len(pl) > 2 else ''
            if schema and s and s != schema:
                continue
            schema = schema or s
            for k, v in pl[1].items():
                cv = clean(it, v, None)
                if cv is not Bad and k:
                    want[k] = cv
        r = it.resolve(it.get(c.config, 'resource'))
        it.check(r is not None, 'C18.identity', '%s: the client has no resource' % what)
        got = dict(items(it, it.get(r, 'attributes')))
        # the plugin that is built in
        identity(it, {k: v for k, v in got.items() if k != 'python_version'}, want, what)
        # the polls and a snapshot
        e = c.poll(c.update([c.tp('t1', {'fire_count': '-1', 'fire_period': '0'})]))
        it.check(e is None, 'C18.messages', '%s: the poll raises %s' % (what, exc_name(e) if e else ''), e.site if e else None)
        c.settle()
        c.next = None
        n0 = len(it.events)
        hook = it.hooks.get(('sys', 'main'))
        if hook is None:
            raise Undecided('no trace function is set', '?')
        f = it.frame('f', filename='/app/src/target.py', name='func', line=9, first=9, lines=[9, 10, 11, 12], flocals={'x': it.hint('x')})
        pr = Prog(it, hook, thread='main')
        pr.call(f, 9)
        pr.line(f, 10)
        pr.line(f, 11)
        pr.ret(f, None, 11)
        c.settle()
        sent = [e for e in it.events[n0:] if e.kind == 'boundary' and e.name == 'send']
        it.check(len(sent) == 1, 'C18.messages', '%d snapshots are sent' % len(sent))
        e = c.poll(None)
        it.check(len(c.requests) >= 2, 'C18.messages', '%d polls' % len(c.requests))
        for k, m in [('poll %d' % (j + 1), r) for j, r in enumerate(c.requests)] + [('snapshot', sent[0].args[0])]:
            g = message_resource(it, it.getattr(m, 'resource'))
            it.check('python_version' in g or 'python_version' not in got, 'C18.messages', '%s: the resource of the %s is not complete' % (what, k))
            g.pop('python_version', None)
            it.check(g == {x: in_message(y) for x, y in got.items() if x != 'python_version'}, 'C18.messages', '%s: the resource of the %s is %s, that of the client %s' % (what, k, show_items(g.items()), show_items(got.items())))
    return fn


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    for v in VALUES:
        for limit in (None, 5, 0, 1):
            for how in ('set', 'init', 'frozen-init', 'merge', 'update', 'again'):
                if quick and limit in (0, 1) and how not in ('set', 'init'):
                    continue
                out.append(S('value/%s-%s-%s' % (how, v, limit), stored(how, v, limit)))
    for s in ('str', 'int', 'list', 'ints', 'mix', 'mix2'):
        for limit in (None, 5):
            out.append(S('symbolic/%s-%s' % (s, limit), symbolic(s, limit)))
    for k in KEYS:
        out += [S('key/%s-%s' % (how, k), key(k, how)) for how in ('set', 'init')]
    every = list(OPS)
    sets = ['set a', 'set b', 'set c', 'set d', 'bad a', 'del a']
    for cap in (0, 1, 2, 3, None):
        out.append(S('history/%s-all-%d' % (cap, 2 if quick else 3), history(cap, every, 2 if quick else 3, 'ab'), max_paths=20000, max_time=12 if quick else 200))
        out.append(S('history/%s-sets' % cap, history(cap, sets if not quick else sets[:4] + ['del a'], 4 if quick else 6), max_paths=60000, max_time=25 if quick else 300))
        out.append(S('history/%s-long' % cap, history(cap, ['set a', 'set b', 'set c'], 5 if quick else 8, 'dca'), max_paths=20000, max_time=20 if quick else 200))
        out.append(S('history/%s-init' % cap, history(cap, every, 1, 'abcdefg')))
        for cap2 in (0, 1, 2, 3, None):
            out.append(S('container/%s-%s' % (cap, cap2), from_container(cap, cap2)))
    out += [S('capacity/%s' % (c,), bad_capacity(c)) for c in (-1, 'x', 1.5, -100)]
    for m in MODS:
        for cap in (None, 0, 1, 2, 5):
            out.append(S('frozen/%s-%s' % (m, cap), frozen(m, cap, 'container')))
        out += [S('frozen/%s-%s' % (m, w), frozen(m, None, w)) for w in ('resource', 'merged')]
    out += [S('of-container/%s' % c, of_container(c)) for c in (None, 2, 5)]
    out.append(S('merge/1', merges(1), max_paths=2000, max_time=15))
    out.append(S('merge/2', merges(2), max_paths=6000, max_time=20 if quick else 100))
    if not quick:
        out.append(S('merge/3', merges(3), max_paths=40000, max_time=200))
    for c in CODE:
        for s in (None, 'http://one'):
            out.append(S('create/%s-%s' % (c, s), created(c, s), max_paths=200))
    for p in PLANS:
        for a, n in ((None, None), ('a=env,b=env,x=env', 'env-name'), ('service.name=envattr,c=env', None), ('telemetry.sdk.name=other,service.name=', '')):
            ENV_ATTRS.setdefault(a, dict(x.split('=') for x in a.split(',')) if a else {})
            if quick and p not in ('none', 'one', 'two', 'reversed', 'empty name', 'names') and a and 'telemetry' in a:
                continue
            out.append(S('client/%s-%s-%s' % (p, a, n), client(p, a, n)))
    for o in (('P3', 'P2', 'P1'), ('P2', 'Other', 'P1', 'P3')):
        for p in ('two', 'three', 'names', 'reversed', 'conflict'):
            out.append(S('order/%s-%s' % (p, '-'.join(o)), client(p, 'a=env', None, o)))
    ENV_ATTRS.setdefault('a=env', {'a': 'env'})
    for n in ('P1', 'P2', 'P3'):
        for e in (ValueError, RuntimeError, SystemExit, GeneratorExit):
            out.append(S('fails/%s-%s' % (n, e.__name__), client('fails', 'a=env', None, bad=(n, e))))
    return out
