SEEDS = {}

SEEDS['c01-module-names'] = dict(prop='C01', edits=[('processor/frame_collector.py', '''        _self = f_locals.get('self', None)
''', '''        # at module level the locals are the globals, do not report what python puts there
        for name in ('__builtins__', '__spec__', '__loader__'):
            f_locals.pop(name, None)
        _self = f_locals.get('self', None)
''' .replace("        _self = f_locals.get('self', None)\n", "        _self = f_locals.get('self')\n"))], demo='''
from rig import *
src = """x = 1
y = x + 1
found = '__spec__' in globals()
"""
def run():
    ns = {'__name__': 'target', '__spec__': 'the spec'}
    exec(compile(src, '/app/target.py', 'exec'), ns)
    return ns['found']
a = Agent(tp('t', 2))
r, e = a.run(run)
require(e is None and r is True, 'the module has lost its own __spec__')
require(len(a.snaps) == 1, 'no snapshot')
''', needs='a snapshot tracepoint on a line that is executed at module level', breaks='names are removed from the globals of the application module')

SEEDS['c02-recursion-collapsed'] = dict(prop='C02', edits=[('processor/frame_collector.py', '''            current_frame = current_frame.f_back
''', '''            current_frame = self._next_frame(current_frame)
'''), ('processor/frame_collector.py', '''    def _process_frame(self,''', '''    @staticmethod
    def _next_frame(frame):
        # the same line can be on the stack many times, this is of no use for anybody
        parent = frame.f_back
        while parent is not None and parent.f_code is frame.f_code and parent.f_lineno == frame.f_lineno:
            parent = parent.f_back
        return parent

    def _process_frame(self,''')], demo='''
from rig import *
m = module("""
def walk(n):
    if n == 0:
        return mark()
    return walk(n - 1)

def mark():
    z = 1
    return z
""")
a = Agent(tp('t', 7))
r, e = a.run(m.walk, 3)
require(e is None and r == 1, 'changed result')
names = [f.method_name for f in a.snaps[0].frames][:5]
require(names == ['mark', 'walk', 'walk', 'walk', 'walk'], 'frames %s' % names)
''', needs='a tracepoint reached through direct recursion, at least two calls from the same line', breaks='the frames of recursive calls are missing in the stack')

SEEDS['c03-def-line'] = dict(prop='C03', edits=[('api/tracepoint/trigger.py', '''        if event == "line" and file == self.path and line == self.line:
            return True
        return False
''', '''        return event in ("line", "call") and file == self.path and line == self.line
''')], demo='''
from rig import *
m = module("""
def outer():
    def inner(): return 5
    return inner() + inner()
""")
a = Agent(tp('t', 2, {'fire_count': '-1', 'fire_period': '0'}))
r, e = a.run(m.outer)
require(r == 10, 'result')
got = [s.frames[0].method_name for s in a.snaps]
# 'line' events at line 2: the def statement, and the body of each call
require(got == ['outer', 'inner', 'inner'], 'acted at %s' % got)
''', needs='a line tracepoint on the line of a def: it must not act for the call event', breaks='a line tracepoint also acts on the call event of its line')

SEEDS['c04-zero'] = dict(prop='C04', edits=[('api/tracepoint/trigger.py', '''        if self.fire_count != -1 and self.fire_count <= self.__stats.fire_count:
''', '''        if 0 < self.fire_count <= self.__stats.fire_count:
''')], demo='''
from rig import *
m = module("""
def f(n):
    v = n
    return v
""")
for count, want in (('0', 0), ('2', 2), ('-1', 4), ('-5', 0)):
    a = Agent(tp('t', 2, {'fire_count': count, 'fire_period': '0'}))
    for i in range(4):
        a.run(m.f, i)
    require(len(a.snaps) == want, 'fire_count %s: %d snapshots' % (count, len(a.snaps)))
''', needs='a fire_count of 0, or a negative one that is not -1', breaks='fire_count 0 means unlimited')

SEEDS['c05-children-first'] = dict(prop='C05', edits=[('processor/bfs/__init__.py', '''            queue += pop.children
''', '''            # values that have been found last are the most specific ones
            queue = pop.children + queue if pop.depth > 1 else queue + pop.children
''')], demo='''
from rig import *
m = module("""
def f():
    a = {'k': [[i, str(i) * 2, [i]] for i in range(9)], 'x1': 'x1', 'x2': 'x2'}
    b = {'y1': 'y1!', 'y2': 'y2!'}
    return 1
""")
a = Agent(tp('t', 4, {'MAX_VARIABLES': '25'}))
a.run(m.f)
s = a.snaps[0]
vals = {v.value for v in s.var_lookup.values()}
require({'y1!', 'y2!'} <= vals, 'depth 3 values are crowded out: %s' % sorted(vals))
''', needs='a variable budget that runs out, and a nested structure in the first of several containers', breaks='deep values of one structure are recorded before the shallower ones of another')

SEEDS['c06-class-attr'] = dict(prop='C06', edits=[('processor/variable_processor.py', '''    variable_type = type(node.value)
''', '''    variable_type = node.value.__class__
''')], demo='''
from rig import *
m = module("""
class Lazy:
    @property
    def __class__(self):
        raise RuntimeError('not loaded')

def f():
    before = 'b'
    lazy = Lazy()
    after = 'a'
    return after
""")
a = Agent(tp('t', 10))
r, e = a.run(m.f)
require(r == 'a' and e is None, 'result')
require(len(a.snaps) == 1, 'no snapshot')
require({v.name for v in a.snaps[0].frames[0].variables} == {'before', 'lazy', 'after'}, 'variables')
''', needs='an object (e.g. a lazy proxy) whose __class__ cannot be read', breaks='the snapshot is lost')

SEEDS['c07-str-hash'] = dict(prop='C07', edits=[('processor/variable_processor.py', '''    identity_hash_id = str(id(node.value))
''', '''    # texts are often equal, but not the same object: these are the same for a user
    identity_hash_id = str(hash(node.value) if type(node.value) is str and node.depth > 1 else id(node.value))
'''), ('processor/variable_set_processor.py', '''            process_result = process_variable(self, node_value)''', '''            node_value.depth = node.depth
            process_result = process_variable(self, node_value)''')][:1], demo='''
from rig import *
m = module("""
def f():
    a = ''.join(['ab', 'cd'])
    b = ''.join(['abc', 'd'])
    c = [a, b]
    return 1
""")
a = Agent(tp('t', 5))
a.run(m.f)
s = a.snaps[0]
ids = {v.name: v.vid for v in s.frames[0].variables}
require(ids['a'] != ids['b'], 'two objects share an id')
''', needs='two equal but distinct strings', breaks='different objects share one id')
SEEDS['c07-str-hash']['edits'] = [('processor/variable_processor.py', '''    identity_hash_id = str(id(node.value))
''', '''    # equal texts are the same for a user, even if they are not the same object
    identity_hash_id = str(hash(node.value) if type(node.value) is str else id(node.value))
'''), ('processor/variable_set_processor.py', '''        identity_hash_id = str(id(value))
''', '''        identity_hash_id = str(hash(value) if type(value) is str else id(value))
''')]

SEEDS['c08-empty-values'] = dict(prop='C08', edits=[('push/__init__.py', '''    for k, v in var_lookup.items():
        converted[k] = __convert_variable(v)
''', '''    for k, v in var_lookup.items():
        # do not send what is the default value on the other side
        if v.value or v.children:
            converted[k] = __convert_variable(v)
''')], demo='''
from rig import *
from deep.push import convert_snapshot
m = module("""
def f():
    a = ''
    b = 'x'
    return 1
""")
a = Agent(tp('t', 4))
a.run(m.f)
s = a.snaps[0]
c = convert_snapshot(s)
require(set(c.var_lookup) == set(s.var_lookup), 'sent %s of %s' % (set(c.var_lookup), set(s.var_lookup)))
''', needs='a variable with an empty text value', breaks='the entry of the variable is not part of the message')

SEEDS['c09-shared-slot'] = dict(prop='C09', edits=[('push/push_service.py', '''        converted = convert_snapshot(snapshot)
        if converted is None:
            return
''', '''        self.last_converted = convert_snapshot(snapshot)
        if self.last_converted is None:
            return
'''), ('push/push_service.py', '''        stub.send(converted, metadata''', '''        stub.send(self.last_converted, metadata''')], demo='''
from rig import *
from deep.push.push_service import PushService
import deep.push.push_service as ps
from deep.task import TaskHandler
m = module("""
def f(n):
    v = n
    return v
""")
both = threading.Barrier(2, timeout=20)
sent = []
class Stub:
    def __init__(self, channel):
        both.wait()                 # both workers have converted their snapshot
    def send(self, snap, metadata=None): sent.append(snap.ID)
ps.SnapshotServiceStub = Stub
class G:
    channel = None
    def metadata(self): return []
th = TaskHandler()
a = Agent(tp('t', 2, {'fire_count': '-1', 'fire_period': '0'}))
for i in range(2):
    a.run(m.f, i)
p = PushService(G(), th)
for s in a.snaps:
    p.push_snapshot(s)
th.flush()
require(sorted(sent) == sorted(s.id.to_bytes(16, 'big') for s in a.snaps), 'sent %d different of %d' % (len(set(sent)), len(a.snaps)))
''', needs='both workers convert a snapshot before one of them sends', breaks='one snapshot is sent twice, the other one not at all')

SEEDS['c10-watch-exit'] = dict(prop='C10', edits=[('processor/context/action_context.py', '''        except BaseException as e:
            deep.logging.exception("Error evaluating watch %s", watch)
''', '''        except Exception as e:
            deep.logging.exception("Error evaluating watch %s", watch)
''')], demo='''
from rig import *
m = module("""
import sys

def f(n):
    v = n
    return v
""")
a = Agent(tp('t', 4, {}, ['v0', 'sys.exit(3)', 'n + 1']))
r, e = a.run(m.f, 4)
require(r == 4 and e is None, 'result')
require(len(a.snaps) == 1, 'no snapshot')
w = a.snaps[0].watches
require([x.error is None for x in w] == [False, False, True], 'watch results')
''', needs='a watch that raises an exception that is not an Exception (sys.exit)', breaks='the other watches and the snapshot are lost')
