"""Observers that talk to another program."""
import itertools
import os
import socket
import struct
import sys
import threading
import time
import numpy as np
from mc.engine import Cov
from mc.worlds import same, require
from mc import scen

META = dict(
    rule='every sequence of what the other program does at each step (nothing, '
         'read, stop writing, close, reset), from the one that never connects '
         'to the one that stays to the end, with every number of ports '
         'already in use and every number of socket observers; the '
         'simulation is compared with the one without the observer, what the '
         'other program received with what was sent, and the port must be '
         'free afterwards; non-trivial: the other program connects',
    bounds='3 steps x 5 actions (sequences up to the end of the connection), '
           '4 moments of connection (at once to 3.5 s, never), messages of 1 '
           'kB to 12 MB read at once to 0.5 s later, 0 to 5 ports in use, 1 '
           'to 3 observers, '
           '3 scenarios',
    assumptions=['the messages are sent by the update method of the derived '
                 'class, that ignores the errors of the connection, as in '
                 'arboris.visu', 'loopback network only'],
)
CHUNK = 4
ACTIONS = ['none', 'read', 'eof', 'close', 'reset']
TIMELINE = [0., 0.01, 0.02, 0.04]


def sequences(n, short=False):
    """All the sequences of actions; nothing happens after the end."""
    def grow(pre, left):
        if left == 0 or (pre and pre[-1] in (3, 4)):
            yield pre
            return
        for a in range(5):
            if short and a == 2:
                continue
            for s in grow(pre + [a], left - 1):
                yield s
    return grow([], n)


def cases(tier):
    n = 0
    for s in sequences(4 if tier != 'thorough' else 5):
        n += 1
        yield {'m': 'peer', 's': ['arm', 'contact', 'weight'][n % 3], 'a': s,
               'p': n % 4, 'id': n}
    for busy in range(6):
        for k in (1, 2, 3):
            n += 1
            yield {'m': 'ports', 'b': busy, 'k': k, 'id': n}
    for size in range(3):
        for wait in range(3):
            n += 1
            yield {'m': 'slow', 'z': size, 'w': wait, 'id': n}
    for late in range(4):
        for s in ('arm', 'contact', 'still'):
            if late == 3 and s != 'arm' and tier != 'thorough':
                continue
            n += 1
            yield {'m': 'late', 'l': late, 's': s, 'id': n}


def run(case):
    cov = Cov()
    n = case['id']
    # an address of the loopback network for each case
    host = '127.7.%d.%d' % (os.getpid() % 200 + 1, n % 250 + 1)
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    try:
        globals()['run_' + case['m']](case, cov, host)
    finally:
        sys.stdout.close()
        sys.stdout = out
    cov.traces = 1
    cov.state({k: v for k, v in case.items() if k != 'id'})
    return cov


def sender(host, port, timeout, hook, name=None):
    from arboris.observers import SocketCom

    class Sender(SocketCom):
        def __init__(self):
            SocketCom.__init__(self, host, port, timeout, name)
            self.sent = []
            self.n = 0

        def init(self, world, timeline):
            SocketCom.init(self, world, timeline)
            self.world = world
            hook(self, 0)

        def update(self, dt):
            self.n += 1
            msg = ('%d %r\n' % (self.n, dt)).encode()
            if self.conn is not None:
                try:
                    self.conn.send(msg)
                    self.sent.append(msg)
                except socket.error:
                    pass
            hook(self, self.n)
    return Sender()


class Peer(object):
    """The other program."""

    def __init__(self):
        self.sock = None
        self.data = b''
        self.thread = None
        self.stop = False

    def connect(self, host, port, delay=0.):
        def work():
            time.sleep(delay)
            end = time.time() + 20
            while not self.stop and time.time() < end:
                s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
                try:
                    s.connect((host, port))
                    self.sock = s
                    return
                except socket.error:
                    s.close()
                    time.sleep(0.001)
        self.thread = threading.Thread(target=work)
        self.thread.daemon = True
        self.thread.start()

    def ready(self):
        self.thread.join()

    def act(self, action):
        if self.sock is None:
            return
        if action == 'read':
            self.read()
        elif action == 'eof':
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except socket.error:
                pass
        elif action == 'close':
            self.sock.close()
            self.sock = None
        elif action == 'reset':
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                                 struct.pack('ii', 1, 0))
            self.sock.close()
            self.sock = None

    def read(self, until=None):
        self.sock.settimeout(5. if until else 0.)
        try:
            while until is None or len(self.data) < until:
                d = self.sock.recv(65536)
                if not d:
                    break
                self.data += d
        except socket.error:
            pass

    def end(self):
        self.stop = True
        if self.thread is not None:
            self.thread.join()
        if self.sock is not None:
            self.sock.close()


def reference(name):
    from arboris.core import simulate
    w = scen.build(name)['world']
    simulate(w, TIMELINE)
    return scen.state(w)


def free(host, port, what):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    try:
        s.bind((host, port))
        s.listen(1)
    except socket.error:
        require(False, what + ': the port is still in use after the end')
    finally:
        s.close()


def run_peer(case, cov, host):
    from arboris.core import simulate
    what = 'other program: %s' % [ACTIONS[a] for a in case['a']]
    acts = [ACTIONS[a] for a in case['a']]
    peer = Peer()

    def hook(obs, n):
        if n == 0:
            peer.ready()
        if n < len(acts):
            peer.act(acts[n])
    w = scen.build(case['s'])['world']
    obs = sender(host, 5000 + case['p'], 5., hook, 'com')
    require(obs.port == 5000 + case['p'] and obs.host == host,
            'port of the observer')
    peer.connect(host, obs.port)
    try:
        simulate(w, TIMELINE, [obs])
        same(what + ': the simulation', scen.state(w), reference(case['s']),
             1e-12)
        require(obs.conn is not None, what + ': no connection')
        require(obs.n == 3, what + ': %d updates' % obs.n)
        if peer.sock is not None:
            want = b''.join(obs.sent) + b'close_connection'
            require(len(obs.sent) == 3, what + ': %d messages' % len(obs.sent))
            peer.read(len(want))
            require(peer.data == want, what + ': received %r instead of %r' % (
                peer.data, want))
        free(host, obs.port, what)
    finally:
        peer.end()
    cov.step(len(acts))
    cov.check(5)
    cov.nontrivial = True


def run_ports(case, cov, host):
    """Some ports are in use, several observers."""
    from arboris.core import simulate
    busy = []
    for i in range(case['b']):
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind((host, 6000 + i + (i >= 3)))
        s.listen(1)
        busy.append(s)
    taken = [s.getsockname()[1] for s in busy]
    peers = [Peer() for i in range(case['k'])]

    def hook(obs, n):
        p = peers[int(obs.name)]
        if n == 0:
            p.ready()
        elif n == 2:
            p.act('read')
    try:
        obs, ports = [], []
        for i in range(case['k']):
            o = sender(host, 6000, 5., hook, str(i))
            want = 6000
            while want in taken + ports:
                want += 1
            require(o.port == want, 'port %d instead of %d, in use: %s' % (
                o.port, want, taken + ports))
            require(o.s.getsockname() == (host, o.port), 'another port is used')
            ports.append(o.port)
            obs.append(o)
        for i in range(case['k']):
            peers[i].connect(host, obs[i].port)
        w = scen.build('arm')['world']
        simulate(w, TIMELINE, obs)
        same('simulation with %d observers' % case['k'], scen.state(w),
             reference('arm'), 1e-12)
        for o, p in zip(obs, peers):
            want = b''.join(o.sent) + b'close_connection'
            require(len(o.sent) == 3, '%d messages' % len(o.sent))
            p.read(len(want))
            require(p.data == want, 'received %r instead of %r' % (
                p.data, want))
            free(host, o.port, 'observer %s' % o.name)
    finally:
        for p in peers:
            p.end()
        for s in busy:
            s.close()
    cov.step(3 * case['k'])
    cov.check(4 * case['k'])
    cov.nontrivial = True


def run_slow(case, cov, host):
    """More than the connection can hold, read later."""
    from arboris.core import simulate
    size = (1 << 10, 3 << 20, 12 << 20)[case['z']]
    wait = (0., 0.1, 0.5)[case['w']]
    peer = Peer()
    reader = []

    def hook(obs, n):
        if n == 0:
            peer.ready()

            def work():
                time.sleep(wait)
                peer.read(3 * size + len(b'close_connection'))
            reader.append(threading.Thread(target=work))
            reader[0].daemon = True
            reader[0].start()
    w = scen.build('arm')['world']
    obs = sender(host, 8000, 5., hook)
    part = []

    def update(dt):
        obs.n += 1
        part.append(bytes(bytearray([obs.n])) * size)
        obs.conn.sendall(part[-1])
    obs.update = update
    peer.connect(host, 8000)
    try:
        simulate(w, TIMELINE, [obs])
        same('the simulation', scen.state(w), reference('arm'), 1e-12)
        reader[0].join(20)
        require(peer.data == b''.join(part) + b'close_connection',
                '%d bytes received, %d sent' % (len(peer.data), 3 * size))
        free(host, 8000, 'slow')
    finally:
        peer.end()
    cov.step(3)
    cov.check(3)
    cov.nontrivial = True


def run_late(case, cov, host):
    """Connection before the timeout, or never."""
    from arboris.core import simulate
    peer = Peer()

    def hook(obs, n):
        pass
    w = scen.build(case['s'])['world']
    timeout = (0.05, 5., 0.4, 8.)[case['l']]
    obs = sender(host, 7000, timeout, hook)
    t0 = time.time()
    if case['l'] in (1, 3):
        peer.connect(host, 7000, {1: 0.2, 3: 3.5}[case['l']])
    try:
        simulate(w, TIMELINE, [obs])
        dt = time.time() - t0
        same('the simulation', scen.state(w), reference(case['s']), 1e-12)
        if case['l'] in (1, 3):
            peer.ready()
            require(obs.conn is not None, 'no connection')
            want = b''.join(obs.sent) + b'close_connection'
            require(len(obs.sent) == 3, '%d messages' % len(obs.sent))
            peer.read(len(want))
            require(peer.data == want, 'received %r' % peer.data)
        else:
            require(obs.conn is None, 'a connection with nobody')
            require(dt > 0.9 * timeout, 'waits %g s instead of %g' % (
                dt, timeout))
            require(obs.n == 3, '%d updates' % obs.n)
        free(host, 7000, 'late')
    finally:
        peer.end()
    cov.step(3)
    cov.check(3)
    cov.nontrivial = case['l'] in (1, 3)
