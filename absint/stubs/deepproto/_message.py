"""Protobuf messages: fields with their types, checked as the real ones are."""
import _absint


class Repeated(list):
    def __init__(self, owner, name, ty):
        self._o = owner
        self._n = name
        self._t = ty

    def _check(self, v):
        if v is None:
            raise TypeError('None in repeated field %s' % self._n)
        return _value(self._o, self._n, self._t, v)

    def append(self, v):
        list.append(self, self._check(v))

    def extend(self, vs):
        if vs is None:
            return
        for v in vs:
            self.append(v)

    def add(self, **kw):
        m = self._t(**kw)
        list.append(self, m)
        return m

    def insert(self, i, v):
        list.insert(self, i, self._check(v))

    def MergeFrom(self, o):
        self.extend(o)


class Map(dict):
    def __init__(self, owner, name, kt, vt):
        self._o = owner
        self._n = name
        self._kt = kt
        self._vt = vt

    def __setitem__(self, k, v):
        if not isinstance(self._vt, str):
            raise ValueError('May not set values directly, call my_map[key].foo = 5')
        self._put(k, v)

    def _put(self, k, v):
        if k is None or v is None:
            raise TypeError('None in map field %s' % self._n)
        dict.__setitem__(self, _value(self._o, self._n, self._kt, k), _value(self._o, self._n, self._vt, v))

    def __getitem__(self, k):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        if isinstance(self._vt, str):
            v = '' if self._vt == 'string' else 0
        else:
            v = self._vt()
        dict.__setitem__(self, k, v)
        return v

    def update(self, o):
        for k, v in o.items():
            self._put(k, v)

    def get_or_create(self, k):
        return self[k]


def _value(msg, name, ty, v):
    if isinstance(ty, str):
        r = _absint.pb_check(msg, name, ty, v)
        return r
    if isinstance(v, dict):
        return ty(**v)
    if not isinstance(v, ty):
        raise TypeError('%s.%s: wrong message type' % (type(msg).__name__, name))
    return v


class Message:
    FIELDS = {}

    def __init__(self, *args, **kw):
        if args:
            raise TypeError('No positional arguments allowed')
        d = self.__dict__
        d['_set'] = {}
        for n, v in kw.items():
            f = self.FIELDS.get(n)
            if f is None:
                raise ValueError('Protocol message %s has no "%s" field.' % (type(self).__name__, n))
            if v is None:
                continue
            kind = f[0]
            if kind == 'map':
                m = Map(self, n, f[1], f[2])
                for k, x in v.items():
                    m._put(k, x)
                d['_set'][n] = m
            elif kind == 'rep':
                r = Repeated(self, n, f[1])
                for x in v:
                    r.append(x)
                d['_set'][n] = r
            else:
                self._assign(n, f, _value(self, n, f[1], v))

    def _assign(self, n, f, v):
        s = self.__dict__['_set']
        if f[2] is not None:
            for m, g in self.FIELDS.items():
                if g[0] == 'one' and g[2] == f[2] and m in s:
                    del s[m]
        s[n] = v

    def __getattr__(self, n):
        f = type(self).FIELDS.get(n)
        if f is None:
            raise AttributeError(n)
        s = self.__dict__['_set']
        if n in s:
            return s[n]
        if f[0] == 'map':
            s[n] = Map(self, n, f[1], f[2])
            return s[n]
        if f[0] == 'rep':
            s[n] = Repeated(self, n, f[1])
            return s[n]
        t = f[1]
        if t == 'string':
            return ''
        if t == 'bytes':
            return b''
        if t == 'bool':
            return False
        if t == 'double':
            return 0.0
        if isinstance(t, str):
            return 0
        return t()

    def __setattr__(self, n, v):
        f = type(self).FIELDS.get(n)
        if f is None:
            raise AttributeError('Assignment not allowed (no field "%s" in protocol message object).' % n)
        if f[0] != 'one' or not isinstance(f[1], str):
            raise AttributeError('Assignment not allowed to repeated / message field "%s"' % n)
        if v is None:
            raise TypeError('bad argument type for field %s' % n)
        self._assign(n, f, _value(self, n, f[1], v))

    def HasField(self, n):
        f = type(self).FIELDS.get(n)
        if f is None or f[0] != 'one':
            raise ValueError('no such field ' + n)
        return n in self.__dict__['_set']

    def WhichOneof(self, g):
        for n, f in self.FIELDS.items():
            if f[0] == 'one' and f[2] == g and n in self.__dict__['_set']:
                return n
        return None

    def ClearField(self, n):
        self.__dict__['_set'].pop(n, None)

    def CopyFrom(self, o):
        self.__dict__['_set'].clear()
        self.__dict__['_set'].update(o.__dict__['_set'])

    def MergeFrom(self, o):
        for k, v in o.__dict__['_set'].items():
            if self.FIELDS[k][0] == 'one':
                self.__dict__['_set'][k] = v
            else:
                c = getattr(self, k)
                if self.FIELDS[k][0] == 'rep':
                    c.extend(v)
                else:
                    c.update(v)

    def ListFields(self):
        return [(n, v) for n, v in self.__dict__['_set'].items()]

    def SerializeToString(self):
        return _absint.sym('pb-bytes', self)

    def ByteSize(self):
        return _absint.symint('pb-size', self)


class Enum:
    """An enum of the schema, with Name() and Value()."""

    def __init__(self, **values):
        self._values = values

    def Name(self, number):
        for k, v in self._values.items():
            if v == number:
                return k
        raise ValueError('Enum has no name defined for value %r' % (number,))

    def Value(self, name):
        if name in self._values:
            return self._values[name]
        raise ValueError('Enum has no value defined for name %r' % (name,))

    def keys(self):
        return list(self._values)

    def values(self):
        return list(self._values.values())

    def items(self):
        return list(self._values.items())

    def __getattr__(self, n):
        v = self.__dict__['_values']
        if n in v:
            return v[n]
        raise AttributeError(n)
