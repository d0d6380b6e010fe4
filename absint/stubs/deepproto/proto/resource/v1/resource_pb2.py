"""Message types of the schema."""
from deepproto._message import Message, Enum
from deepproto.proto.common.v1.common_pb2 import KeyValue, AnyValue


class Resource(Message):
    pass


Resource.FIELDS = {
    'attributes': ('rep', KeyValue),
    'dropped_attributes_count': ('one', 'uint32', None)
}
