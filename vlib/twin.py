"""A second process without the accelerator modules which runs the same programs (see props/c16.py)."""
import importlib
import json
import os
import subprocess
import sys


class Twin:
    def __init__(self, module):
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        env = dict(os.environ, PYTHONPATH=here)
        self.p = subprocess.Popen([sys.executable, '-m', 'vlib.twin', module], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        first = self.p.stdout.readline()
        assert first == 'ready\n', first

    def send(self, *request):
        self.p.stdin.write(json.dumps(request) + '\n')
        self.p.stdin.flush()

    def receive(self):
        line = self.p.stdout.readline()
        if not line:
            raise RuntimeError('the process without accelerator ended: %s' % self.p.wait())
        return json.loads(line)

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def main():
    from . import rec
    out = sys.stdout
    sys.path.insert(0, rec.REPO)
    sys.stdout = open(os.devnull, 'w')
    try:
        import vrml_accelerate  # noqa
        sys.exit('accelerator importable')
    except ImportError:
        pass
    module = importlib.import_module(sys.argv[1])
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        out.write(json.dumps(module.trace(*json.loads(line))) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
