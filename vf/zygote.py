"""
Reference processes: a process in a chosen environment that has done nothing but to import the code under test,
and forks a new child for every request.
"""
import os
import pickle
import struct
import subprocess
import sys
from pathlib import Path

if __name__ == '__main__':
    sys.path[0] = str(Path(__file__).resolve().parent.parent)

from vf.core import REPO, VERIF, Inconclusive


class Zygote:
    def __init__(self, env=None, cwd='/', flags=()):
        e = dict(os.environ)
        e.update(env or {})
        e['VF_REPO'] = str(REPO)
        self.p = subprocess.Popen([sys.executable, '-B', '-W', 'ignore', *flags, str(VERIF / 'vf' / 'zygote.py')],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, cwd=cwd)

    def ask(self, op):
        data = pickle.dumps(op)
        self.p.stdin.write(struct.pack('<I', len(data)) + data)
        self.p.stdin.flush()
        head = self.p.stdout.read(4)
        if len(head) < 4:
            raise Inconclusive('a reference process died')
        return pickle.loads(self.p.stdout.read(struct.unpack('<I', head)[0]))


def read_exact(fd, n):
    data = b''
    while len(data) < n:
        chunk = os.read(fd, n - len(data))
        if not chunk:
            return None
        data += chunk
    return data


def serve():
    from vf import ops
    from vf.core import import_sut
    import_sut()
    import creole.rest_tools.clean_writer    # noqa: F401
    import creole.rest_tools.pypi_rest2html  # noqa: F401
    import creole.shared.example_macros      # noqa: F401
    out = os.dup(1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    while True:
        head = read_exact(0, 4)
        if head is None:
            return
        op = pickle.loads(read_exact(0, struct.unpack('<I', head)[0]))
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                data = pickle.dumps(ops.perform(op))
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        data = data or pickle.dumps(['died'])
        os.write(out, struct.pack('<I', len(data)))
        pos = 0
        while pos < len(data):
            pos += os.write(out, data[pos:])


if __name__ == '__main__':
    serve()
