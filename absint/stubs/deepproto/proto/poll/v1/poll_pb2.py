"""Message types of the schema."""
from deepproto._message import Message, Enum
from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue
from deepproto.proto.resource.v1.resource_pb2 import Resource
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig


class PollRequest(Message):
    pass


class PollResponse(Message):
    pass


ResponseType = Enum(NO_CHANGE=0, UPDATE=1)
NO_CHANGE = 0
UPDATE = 1


PollRequest.FIELDS = {
    'ts_nanos': ('one', 'fixed64', None),
    'current_hash': ('one', 'string', None),
    'resource': ('one', Resource, None)
}


PollResponse.FIELDS = {
    'ts_nanos': ('one', 'fixed64', None),
    'current_hash': ('one', 'string', None),
    'response': ('rep', TracePointConfig),
    'response_type': ('one', 'enum', None)
}
