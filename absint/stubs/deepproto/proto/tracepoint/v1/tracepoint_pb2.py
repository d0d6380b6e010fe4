"""Message types of the schema."""
from deepproto._message import Message, Enum
from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue


class TracePointConfig(Message):
    pass


class Metric(Message):
    pass


class LabelExpression(Message):
    pass


class VariableID(Message):
    pass


class Variable(Message):
    pass


class StackFrame(Message):
    pass


class WatchResult(Message):
    pass


class Snapshot(Message):
    pass


class SnapshotResponse(Message):
    pass


MetricType = Enum(COUNTER=0, GAUGE=1, HISTOGRAM=2, SUMMARY=3)
COUNTER = 0
GAUGE = 1
HISTOGRAM = 2
SUMMARY = 3


WatchSource = Enum(WATCH=0, LOG=1, METRIC=2, CAPTURE=3)
WATCH = 0
LOG = 1
METRIC = 2
CAPTURE = 3


TracePointConfig.FIELDS = {
    'ID': ('one', 'string', None),
    'path': ('one', 'string', None),
    'line_number': ('one', 'uint32', None),
    'args': ('map', 'string', 'string'),
    'watches': ('rep', 'string'),
    'targeting': ('rep', KeyValue),
    'metrics': ('rep', Metric)
}


Metric.FIELDS = {
    'name': ('one', 'string', None),
    'labelExpressions': ('rep', LabelExpression),
    'type': ('one', 'enum', None),
    'expression': ('one', 'string', '_expression'),
    'namespace': ('one', 'string', '_namespace'),
    'help': ('one', 'string', '_help'),
    'unit': ('one', 'string', '_unit')
}


LabelExpression.FIELDS = {
    'key': ('one', 'string', None),
    'static': ('one', AnyValue, 'value'),
    'expression': ('one', 'string', 'value')
}


VariableID.FIELDS = {
    'ID': ('one', 'string', None),
    'name': ('one', 'string', None),
    'modifiers': ('rep', 'string'),
    'original_name': ('one', 'string', '_original_name')
}


Variable.FIELDS = {
    'type': ('one', 'string', None),
    'value': ('one', 'string', None),
    'hash': ('one', 'string', None),
    'children': ('rep', VariableID),
    'truncated': ('one', 'bool', '_truncated')
}


StackFrame.FIELDS = {
    'file_name': ('one', 'string', None),
    'method_name': ('one', 'string', None),
    'line_number': ('one', 'uint32', None),
    'class_name': ('one', 'string', '_class_name'),
    'is_async': ('one', 'bool', '_is_async'),
    'column_number': ('one', 'uint32', '_column_number'),
    'transpiled_file_name': ('one', 'string', '_transpiled_file_name'),
    'transpiled_line_number': ('one', 'uint32', '_transpiled_line_number'),
    'transpiled_column_number': ('one', 'uint32', '_transpiled_column_number'),
    'variables': ('rep', VariableID),
    'app_frame': ('one', 'bool', '_app_frame'),
    'native_frame': ('one', 'bool', '_native_frame'),
    'short_path': ('one', 'string', '_short_path')
}


WatchResult.FIELDS = {
    'expression': ('one', 'string', None),
    'good_result': ('one', VariableID, 'result'),
    'error_result': ('one', 'string', 'result'),
    'from_metric': ('one', 'bool', '_from_metric'),
    'source': ('one', 'enum', None)
}


Snapshot.FIELDS = {
    'ID': ('one', 'bytes', None),
    'tracepoint': ('one', TracePointConfig, None),
    'var_lookup': ('map', 'string', Variable),
    'ts_nanos': ('one', 'fixed64', None),
    'frames': ('rep', StackFrame),
    'watches': ('rep', WatchResult),
    'attributes': ('rep', KeyValue),
    'duration_nanos': ('one', 'uint64', None),
    'resource': ('rep', KeyValue),
    'log_msg': ('one', 'string', '_log_msg')
}

