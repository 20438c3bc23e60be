"""A device without a connection, for demonstrations."""
import logging
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
HERE = os.path.dirname(os.path.abspath(__file__))
NS = ('xmlns:nc="urn:ietf:params:xml:ns:netconf:base:1.0" '
      'xmlns:yang="urn:ietf:params:xml:ns:yang:1"')


class Session(object):
    def __init__(self, caps):
        self.server_capabilities = self._server_capabilities = caps
        self.connected, self._is_stopped, self.id = True, False, '1'

    def add_listener(self, *a):
        pass

    def get_listener_instance(self, *a):
        return None


def device(names=('vx', 'vy'), files=None, load=None):
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    d = tempfile.mkdtemp(prefix='ncdemo-')
    try:
        for n in names:
            if files is None:
                shutil.copy(os.path.join(HERE, n + '.yang'), d)
        for n in files or ():
            with open(os.path.join(d, n + '.yang'), 'w') as f:
                f.write(files[n])
        dev = ModelDevice(Session(
            ['urn:ietf:params:netconf:base:1.0'] +
            ['urn:%s?module=%s&revision=2024-01-01' % (n, n)
             for n in names]), DefaultDeviceHandler())
        dev.scan_models(folder=d, download='ignore')
        for n in names if load is None else load:
            dev.load_model(n)
        dev.namespaces
    finally:
        shutil.rmtree(d)
    return dev


def xml(inner):
    return ('<nc:config %s>%s</nc:config>' % (NS, inner)).replace(
        '<top>', '<top xmlns="urn:vx">').replace(
        '<ytop>', '<ytop xmlns="urn:vy">')


def config(dev, inner):
    from ncdiff.config import Config
    from lxml import etree
    return Config(dev, etree.fromstring(xml(inner)))


def expect(ok, what):
    if not ok:
        print('FAILED: ' + what)
        sys.exit(1)
