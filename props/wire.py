"""A NETCONF session stand-in below the real ncclient operations: requests
are recorded as XML, replies are made by the harness."""
from lxml import etree
from . import lib

NC = lib.NC
NCM = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
YLIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
BASE = ['urn:ietf:params:netconf:base:1.0', 'urn:ietf:params:netconf:base:1.1']
CANDIDATE = 'urn:ietf:params:netconf:capability:candidate:1.0'
RUNNING = 'urn:ietf:params:netconf:capability:writable-running:1.0'
ERROR = ('<rpc-error><error-type>protocol</error-type><error-tag>'
         'operation-failed</error-tag><error-severity>error</error-severity>'
         '</rpc-error>')


def q(name, ns=NC):
    return '{%s}%s' % (ns, name)


class Wire(object):
    """answer(operation element) -> content of the rpc-reply (string), or an
    exception to raise in the operation"""

    def __init__(self, caps, answer=None, abbreviations=True):
        from ncclient.capabilities import Capabilities
        self.server_capabilities = Capabilities(caps) if abbreviations \
            else caps
        self._server_capabilities = self.server_capabilities
        self._connected = True
        self.answer = answer or (lambda op: '<ok/>')
        self.sent = []
        self.listener = None
        self.connected = True
        self.id = '1'

    def add_listener(self, x):
        self.listener = x

    def get_listener_instance(self, cls):
        return self.listener if isinstance(self.listener, cls) else None

    def send(self, xml):
        rpc = etree.fromstring(xml.encode('utf-8'))
        op = rpc[0]
        self.sent.append(op)
        mid = rpc.get('message-id')
        body = self.answer(op)
        if isinstance(body, Exception):
            self.listener.errback(body)
            return
        raw = '<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>' % (
            NC, mid, body)
        self.listener.callback((q('rpc-reply'), {'message-id': mid}), raw)


def device(caps, answer=None, abbreviations=True, **kw):
    """(ModelDevice, session)"""
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    s = Wire(caps, answer, abbreviations)
    return ModelDevice(s, DefaultDeviceHandler(), **kw), s
