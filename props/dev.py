"""Devices for the harnesses: the real ModelDevice over a session stand-in,
with the YANG modules of /verif/yang compiled by the real ModelCompiler in a
scratch folder."""
import os
import shutil
import tempfile

YANG = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'yang')
BASE_CAPS = [
    'urn:ietf:params:netconf:base:1.0',
    'urn:ietf:params:netconf:base:1.1',
    'urn:ietf:params:netconf:capability:writable-running:1.0',
]


class Session(object):
    """Stand-in for an ncclient session; nothing is ever sent."""

    def __init__(self, caps):
        self._server_capabilities = caps
        self._is_stopped = False
        self._connected = True
        self.id = '1'

    @property
    def server_capabilities(self):
        return self._server_capabilities

    @property
    def connected(self):
        return self._connected

    def add_listener(self, *a):
        pass

    def get_listener_instance(self, *a):
        return None


def scratch(files):
    d = tempfile.mkdtemp(prefix='ncverif-yang-')
    for name, text in files.items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(text)
    return d


def yang_files(*names):
    out = {}
    for n in names:
        with open(os.path.join(YANG, n + '.yang')) as f:
            out[n + '.yang'] = f.read()
    return out


def caps(names):
    return BASE_CAPS + ['urn:%s?module=%s&revision=2024-01-01' % (n, n)
                        for n in names]


def make(names=('vx', 'vy'), load=None, files=None):
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    d = scratch(files or yang_files(*names))
    try:
        dev = ModelDevice(Session(caps(names)), DefaultDeviceHandler())
        dev.scan_models(folder=d, download='ignore')
        for n in (load if load is not None else names):
            dev.load_model(n)
        dev.namespaces
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return dev
