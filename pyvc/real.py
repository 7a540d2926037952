"""Client of the real-code worker."""
import json
import os
import select
import subprocess
import sys

PY = os.environ.get('VERIF_REAL_PYTHON', '/opt/venv/bin/python')
HERE = os.path.dirname(os.path.abspath(__file__))


class Real:
    def __init__(self):
        self.p = None
        self.calls = 0
        self.broken = None

    def start(self):
        env = dict(os.environ)
        env.pop('PYTHONPATH', None)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['OMP_NUM_THREADS'] = '1'
        self.p = subprocess.Popen([PY, os.path.join(HERE, 'worker_real.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, bufsize=1)
        r = self.read(120)
        if not r or not r.get('ready'):
            err = ''
            try:
                self.p.kill()
                err = self.p.stderr.read()[-1500:]
            except Exception:
                pass
            self.broken = 'the package cannot be imported: ' + err
            self.p = None
            return
        from . import inputs
        inputs.CONSTS.update(r['consts'])
        # stderr must not fill up
        import threading
        threading.Thread(target=self.drain, args=(self.p,), daemon=True).start()

    @staticmethod
    def drain(p):
        try:
            for _ in p.stderr:
                pass
        except Exception:
            pass

    def read(self, timeout):
        fd = self.p.stdout
        r, _, _ = select.select([fd], [], [], timeout)
        if not r:
            return None
        line = fd.readline()
        if not line:
            return None
        try:
            return json.loads(line)
        except ValueError:
            return None

    def call(self, script, inputs, timeout=60):
        """-> dict with ret/exc/mutated, or {'dead': ...}"""
        if self.broken:
            return {'dead': self.broken}
        if self.p is None:
            self.start()
            if self.broken:
                return {'dead': self.broken}
        self.calls += 1
        try:
            self.p.stdin.write(json.dumps({'call': script, 'inputs': inputs}) + '\n')
            self.p.stdin.flush()
            r = self.read(timeout)
        except (BrokenPipeError, OSError):
            r = None
        if r is None:
            try:
                self.p.kill()
            except Exception:
                pass
            self.p = None
            return {'dead': 'no answer from the real code (timeout or crash)', 'timeout': True}
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.kill()
            except Exception:
                pass
            self.p = None


REAL = Real()
