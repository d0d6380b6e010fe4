"""Message types of the schema."""
from deepproto._message import Message, Enum


class AnyValue(Message):
    pass


class ArrayValue(Message):
    pass


class KeyValueList(Message):
    pass


class KeyValue(Message):
    pass


AnyValue.FIELDS = {
    'string_value': ('one', 'string', 'value'),
    'bool_value': ('one', 'bool', 'value'),
    'int_value': ('one', 'int64', 'value'),
    'double_value': ('one', 'double', 'value'),
    'array_value': ('one', ArrayValue, 'value'),
    'kvlist_value': ('one', KeyValueList, 'value'),
    'bytes_value': ('one', 'bytes', 'value')
}


ArrayValue.FIELDS = {
    'values': ('rep', AnyValue)
}


KeyValueList.FIELDS = {
    'values': ('rep', KeyValue)
}


KeyValue.FIELDS = {
    'key': ('one', 'string', None),
    'value': ('one', AnyValue, None)
}
