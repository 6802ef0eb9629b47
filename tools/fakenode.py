"""A small stand-in for the node: starts the executor of the current directory's repository and serves it over a socket."""
import os
import shutil
import socket
import subprocess
import tempfile
import msgpack

VERSION, INVOKE, RESULT, GETVALUE, SETVALUE, CALL, EVENT, GETINFO, GETBALANCE, GETAPI, LOG, CLOSE = range(12)
SETFEEPCT, CONTAINS = 15, 16
NIL, DICT, LIST, BYTES, STRING, BOOL, ADDRESS, INT = 0, 1, 2, 3, 4, 5, 10, 11

EOA = b'\x00' + bytes(range(20))
SELF = b'\x01' + bytes(range(30, 50))
OWNER = b'\x00' + bytes(range(60, 80))


def i2b(n):
    return n.to_bytes(((n + (n < 0)).bit_length() + 8) // 8, 'big', signed=True)


def b2i(b):
    return int.from_bytes(b, 'big', signed=True)


def enc(v):
    if v is None:
        return [NIL, None]
    if isinstance(v, Raw):
        return [v.tag, v.data]
    if isinstance(v, bool):
        return [BOOL, b'\x01' if v else b'\x00']
    if isinstance(v, int):
        return [INT, i2b(v)]
    if isinstance(v, str):
        return [STRING, v.encode()]
    if isinstance(v, bytes):
        return [BYTES, v]
    if isinstance(v, dict):
        return [DICT, {k: enc(x) for k, x in v.items()}]
    return [LIST, [enc(x) for x in v]]


def dec(o):
    t, v = o
    if t == NIL:
        return None
    if t == DICT:
        return {(k.decode() if isinstance(k, bytes) else k): dec(x) for k, x in v.items()}
    if t == LIST:
        return [dec(x) for x in v]
    if t == STRING:
        return v.decode()
    if t == INT:
        return b2i(v)
    if t == BOOL:
        return v == b'\x01'
    return v


class Raw:
    def __init__(self, tag, data):
        self.tag, self.data = tag, data


class Dead(Exception):
    pass


class Node:
    def __init__(self, scores, verify=False, python='/opt/venv/bin/python', timeout=20):
        self.dir = tempfile.mkdtemp(prefix='fakenode')
        for name, src in scores.items():
            self.package(name, src)
        path = os.path.join(self.dir, '.socket')
        srv = socket.socket(socket.AF_UNIX)
        srv.bind(path)
        srv.listen(1)
        srv.settimeout(timeout)
        env = dict(os.environ, PYTHONPATH=os.path.join(os.getcwd(), 'pyee'), PYTHONDONTWRITEBYTECODE='1')
        self.proc = subprocess.Popen([python, '-m', 'pyexec', '-s', path, '-u', 'u'] + (['-p'] if verify else []), env=env, cwd=self.dir,
                                     stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        self.sock, _ = srv.accept()
        srv.close()
        self.sock.settimeout(timeout)
        self.unp = msgpack.Unpacker(strict_map_key=False)
        self.state = {}
        self.log = []           # messages of the executor, without log lines
        self.balance = 1000
        self.on_call = None     # f(node, to, value, limit, method, params) -> (status, used, value)
        self.fees = []
        self.events = []
        self.contains = None
        assert self.recv()[0] == VERSION
        self.log.clear()

    def package(self, name, src):
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        files = src if isinstance(src, dict) else {'main.py': src}
        for f, text in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'w') as h:
                h.write(text)
        for f, text in (('__init__.py', ''), ('package.json', '{"version": "0.0.1", "main_module": "main", "main_score": "Score"}')):
            if f not in files:
                with open(os.path.join(d, f), 'w') as h:
                    h.write(text)

    def code(self, name):
        return os.path.join(self.dir, name)

    def send(self, m, data):
        try:
            self.sock.sendall(msgpack.packb([m, data]))
        except OSError:
            raise Dead('the executor is gone')

    def recv(self):
        while True:
            for m in self.unp:
                if m[0] != LOG:
                    self.log.append(m)
                    return m
            try:
                b = self.sock.recv(65536)
            except socket.timeout:
                raise Dead('the executor does not answer')
            except OSError:
                raise Dead('the executor is gone')
            if not b:
                raise Dead('the executor is gone')
            self.unp.feed(b)

    def serve(self, until):
        while True:
            m, d = self.recv()
            if m == until:
                return d
            if m == GETVALUE:
                v = self.state.get(d)
                self.send(GETVALUE, [v is not None, v])
            elif m == SETVALUE:
                k, flag, v = d
                old = self.state.get(k)
                if flag & 1:
                    self.state.pop(k, None)
                else:
                    self.state[k] = v
                if flag & 2:
                    self.send(SETVALUE, [old is not None, len(old) if old is not None else 0])
            elif m == GETBALANCE:
                self.send(GETBALANCE, i2b(self.balance))
            elif m == CONTAINS:
                self.send(CONTAINS, self.contains(d) if self.contains else [False, 0, 0])
            elif m == SETFEEPCT:
                self.fees.append(d)
            elif m == EVENT:
                self.events.append(d)
            elif m == CALL:
                st, used, res = (0, 0, None)
                if self.on_call:
                    p = dec(d[4])
                    st, used, res = self.on_call(self, d[0], b2i(d[1]), b2i(d[2]), p.get('method'), p.get('params'))
                self.send(RESULT, [st, i2b(used), enc(res)])
            else:
                raise Dead('unexpected message %r' % m)

    def info(self, costs=None, revision=0, **kw):
        d = {'B.timestamp': 1000, 'B.height': 10, 'T.hash': b'\x07' * 32, 'T.index': 1, 'T.from': Raw(ADDRESS, EOA), 'T.timestamp': 999, 'T.nonce': 5,
             'Revision': revision, 'StepCosts': costs or {}, 'C.owner': Raw(ADDRESS, OWNER)}
        d.update(kw)
        return enc(d)

    def invoke(self, code, method, params=(), flag=0, sender=EOA, to=SELF, value=0, limit=10 ** 9, costs=None, revision=0, **info):
        """-> (status, used, result)"""
        self.send(INVOKE, [self.code(code), flag, sender, to, i2b(value), i2b(limit), method, enc(params),
                           self.info(costs, revision, **info), b'', 0, None])
        d = self.serve(RESULT)
        return d[0], b2i(d[1]), dec(d[2])

    def getapi(self, code):
        self.send(GETAPI, self.code(code))
        return self.serve(GETAPI)

    def alive(self):
        return self.proc.poll() is None

    def close(self):
        try:
            self.send(CLOSE, None)
        except Dead:
            pass
        self.sock.close()
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def score(init='', methods=''):
    """Source of a contract: lines of the constructor and of the class body."""
    ind = lambda s, n: ''.join(' ' * n + l + '\n' for l in s.strip('\n').splitlines())
    return ('from iconservice import *\n\n\nclass Score(IconScoreBase):\n    def __init__(self, db):\n        super().__init__(db)\n' + ind(init, 8) +
            '\n    def on_install(self):\n        super().on_install()\n\n    def on_update(self):\n        super().on_update()\n\n' + ind(methods, 4))
