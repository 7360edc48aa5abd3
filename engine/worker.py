"""Client side of the concrete worker (engine/conc.py)."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CVI_REPO', '/repo')


def python():
    for p in ('/opt/venv/bin/python', sys.executable):
        if os.path.exists(p):
            return p


class Worker:
    def __init__(self):
        self.p = None
        self.runs = 0

    def start(self):
        env = dict(os.environ)
        env['PYTHONPATH'] = os.path.join(REPO, 'src') + os.pathsep + VERIF
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
            env[k] = '1'
        self.p = subprocess.Popen([python(), '-u', '-m', 'engine.conc'], cwd=VERIF, env=env, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, h, params, assign, timeout=60):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.runs += 1
        req = {'h': h, 'params': params, 'assign': assign, 'timeout': timeout}
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            self.stop()
            return {'violations': [], 'trace': [], 'skip': 'worker died', 'err': 'worker died', 'used': {}}
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None
