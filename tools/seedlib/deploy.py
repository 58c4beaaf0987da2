"""Starts the real binaries of a checkout on the loopback, in a scratch folder."""
import os
import select
import shutil
import socket
import struct
import subprocess
import sys
import tempfile
import time

REPO = os.getcwd()
MAIN = os.path.join(REPO, '_build/out/DPPIR.main')
GEN = os.path.join(REPO, '_build/out/DPPIR.config.gen_config')
QUERY = 12
RESPONSE = 52
LAYER = 124


class Deploy:
    def __init__(self, db, eps, delta, parties, servers):
        self.dir = tempfile.mkdtemp(prefix='dppir-demo-')
        self.config = os.path.join(self.dir, 'config.bin')
        self.parties = parties
        self.servers = servers
        self.procs = {}
        subprocess.run([GEN, self.config, str(db), str(eps), str(delta),
                        str(parties), str(servers)], check=True, cwd=self.dir,
                       stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, timeout=60)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        for p in self.procs.values():
            if p.poll() is None:
                p.kill()
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def port(self, party, server):
        return 3000 + party * self.servers + server

    def run(self, name, *args):
        log = open(os.path.join(self.dir, name + '.log'), 'wb')
        self.procs[name] = subprocess.Popen(
            [MAIN, '--config=' + self.config] + list(args), cwd=self.dir,
            stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        return self.procs[name]

    def party(self, party, server, stage):
        return self.run('party-%d-%d' % (party, server), '--role=party',
                        '--stage=' + stage, '--party_id=%d' % party,
                        '--server_id=%d' % server)

    def client(self, server, stage, queries):
        return self.run('client-%d' % server, '--role=client',
                        '--stage=' + stage, '--server_id=%d' % server,
                        '--queries=%d' % queries)

    def everything(self, stage, queries):
        for party in range(self.parties):
            for server in range(self.servers):
                self.party(party, server, stage)
        for server in range(self.servers):
            self.client(server, stage, queries[server])

    def wait(self, timeout):
        """Name -> exit status; None for a process that did not end."""
        end = time.time() + timeout
        while time.time() < end:
            rc = {n: p.poll() for n, p in self.procs.items()}
            if all(v is not None for v in rc.values()):
                return rc
            if any(v not in (None, 0) for v in rc.values()):
                return rc
            time.sleep(0.02)
        return {n: p.poll() for n, p in self.procs.items()}


def listen(port):
    s = socket.socket()
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind(('127.0.0.1', port))
    s.listen(8)
    s.settimeout(30)
    return s


def connect(port, timeout=30):
    end = time.time() + timeout
    while True:
        s = socket.socket()
        try:
            s.connect(('127.0.0.1', port))
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.settimeout(30)
            return s
        except OSError:
            s.close()
            if time.time() > end:
                raise
            time.sleep(0.05)


def read(sock, n):
    data = b''
    while len(data) < n:
        chunk = sock.recv(n - len(data))
        if not chunk:
            raise EOFError('peer closed after %d of %d bytes' % (len(data), n))
        data += chunk
    return data


def quiet(sock, seconds):
    """True if nothing arrives within that time."""
    return not select.select([sock], [], [], seconds)[0]


def count(n):
    return struct.pack('<I', n)


def query(tag, tally):
    return struct.pack('<QI', tag, tally)


def fail(msg):
    print('FAIL:', msg)
    sys.exit(1)
