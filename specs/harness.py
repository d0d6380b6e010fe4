"""Harness code, interpreted together with the agent: the plugins, push service and listeners of a scenario.
Everything they are called with is recorded as a boundary event."""
import _absint
from deep.config import ConfigService
from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateListener
from deep.processor.trigger_handler import TriggerHandler
from deep.api.resource import Resource
from deep.api.attributes import BoundedAttributes
from deep.api.plugin import ResourceProvider, SnapshotDecorator, TracepointLogger, Plugin
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor, Span
from deep.api.tracepoint.tracepoint_config import MetricDefinition, LabelExpression
from deep.api.tracepoint.trigger import build_trigger


class Push:
    def push_snapshot(self, snapshot):
        return _absint.boundary('push', snapshot)


class MetricPlug(MetricProcessor):
    """Records what is reported. With `spoils` it changes the labels it is given."""

    def __init__(self, tag, spoils=False):
        super().__init__('metric_' + tag, None)
        self.tag = tag
        self.spoils = spoils

    def report(self, op, name, labels, namespace, help_string, unit, value):
        given = dict(labels) if isinstance(labels, dict) else labels
        if self.spoils:
            labels['added by ' + self.tag] = 'x'
            labels.pop('key', None)
        _absint.boundary('metric', self.tag, op, name, given, namespace, help_string, unit, value)

    def counter(self, name, labels, namespace, help_string, unit, value):
        self.report('counter', name, labels, namespace, help_string, unit, value)

    def gauge(self, name, labels, namespace, help_string, unit, value):
        self.report('gauge', name, labels, namespace, help_string, unit, value)

    def histogram(self, name, labels, namespace, help_string, unit, value):
        self.report('histogram', name, labels, namespace, help_string, unit, value)

    def summary(self, name, labels, namespace, help_string, unit, value):
        self.report('summary', name, labels, namespace, help_string, unit, value)


class MetricSpanPlug(MetricPlug, SpanProcessor):
    def __len__(self):
        return 0

    def create_span(self, name, context_id, tracepoint_id):
        return None

    def current_span(self):
        return None


class PlugSpan(Span):
    def __init__(self, tag):
        self.tag = tag

    @property
    def name(self):
        return 'span'

    @property
    def trace_id(self):
        return 'trace'

    @property
    def span_id(self):
        return 'id'

    def add_attribute(self, key, value):
        _absint.boundary('span.attribute', self, key, value)

    def add_event(self, name, attributes=None):
        _absint.boundary('span.event', self, name)

    def close(self):
        _absint.boundary('span.close', self)


class FalsySpan(PlugSpan):
    def __len__(self):
        return 0


class SpanPlug(SpanProcessor):
    def __init__(self, tag, cls=PlugSpan):
        super().__init__('span_' + tag, None)
        self.tag = tag
        self.cls = cls

    def create_span(self, name, context_id, tracepoint_id):
        s = None if self.cls is None else self.cls(self.tag)
        _absint.boundary('span.create', self.tag, name, context_id, tracepoint_id, s)
        return s

    def current_span(self):
        return None


class LogPlug(TracepointLogger):
    def __init__(self, tag):
        super().__init__('log_' + tag, None)
        self.tag = tag

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        _absint.boundary('tplog', self.tag, log_msg, tp_id, ctx_id)


class DecoratorPlug(SnapshotDecorator):
    def __init__(self, tag, attrs):
        super().__init__('deco_' + tag, None)
        self.tag = tag
        self.attrs = attrs

    def decorate(self, snapshot_id, context):
        _absint.boundary('decorate', self.tag, snapshot_id, context)
        return None if self.attrs is None else BoundedAttributes(attributes=self.attrs)


class ResourcePlug(ResourceProvider):
    def __init__(self, tag, attrs):
        super().__init__('res_' + tag, None)
        self.tag = tag
        self.attrs = attrs

    def resource(self):
        _absint.boundary('resource', self.tag)
        return None if self.attrs is None else Resource(self.attrs)


class Listener(ConfigUpdateListener):
    def __init__(self, tag):
        self.tag = tag

    def config_change(self, ts, old_hash, current_hash, old_config, new_config):
        _absint.boundary('config_change', self.tag, ts, old_hash, current_hash, list(old_config), list(new_config))


def make_config(custom, plugins, resource):
    tps = TracepointConfigService()
    c = ConfigService(custom, tracepoints=tps)
    c.resource = resource
    c.plugins = plugins
    return c


def make_handler(custom=None, plugins=None, resource=None):
    if custom is None:
        custom = {}
    c = make_config(custom, plugins or [], resource if resource is not None else Resource({'service.name': 'svc'}))
    return TriggerHandler(c, Push())


def deliver(local, frame, event, arg):
    return local(frame, event, arg)
