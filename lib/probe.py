"""Talks to the executor process: one case in, everything observed out."""
import os, resource, select, signal, subprocess, tempfile, time

ENV = {
    'ASAN_OPTIONS': 'exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=0:'
                    'max_malloc_fill_size=4096:malloc_fill_byte=190:detect_stack_use_after_return=0:'
                    'allocation_size_limit_mb=2048:symbolize=1:handle_segv=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66',
    'PATH': '/usr/bin:/bin', 'LC_ALL': 'C',
}


class Crash(Exception):
    """the executor died: kind is crash, hang or timeout"""

    def __init__(self, kind, code, err):
        Exception.__init__(self, '%s exit=%s %s' % (kind, code, err[:300]))
        self.kind, self.code, self.err = kind, code, err


class Probe:
    def __init__(self, exe, prefix=(), env=None, cpu=30, stack_mb=512, cwd=None, wall=None):
        self.exe, self.prefix = exe, list(prefix)
        self.env = dict(ENV)
        self.env['PROBE_CPU'] = str(cpu)
        if env:
            self.env.update(env)
        self.cpu, self.stack = cpu, stack_mb
        self.wall = wall or cpu * 6 + 60
        self.cwd = cwd
        self.p = None
        self.restarts = 0

    def _start(self):
        self.errf = tempfile.TemporaryFile()

        def pre():
            n = self.stack << 20
            try:
                resource.setrlimit(resource.RLIMIT_STACK, (n, n))
            except (ValueError, OSError):
                pass
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.p = subprocess.Popen(self.prefix + [self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=self.env, preexec_fn=pre, cwd=self.cwd)
        self.restarts += 1

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def _dead(self, kind):
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        code = self.p.returncode
        self.errf.seek(0)
        err = self.errf.read(200000).decode('latin1')
        self.p.stdout.close()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.errf.close()
        self.p = None
        if code == 78 or 'PROBE-HANG' in err:
            kind = 'hang'
        raise Crash(kind, code, err)

    def run(self, script):
        """script: bytes; returns list of lines (str)"""
        if isinstance(script, str):
            script = script.encode('latin1')
        if self.p is None:
            self._start()
        try:
            self.p.stdin.write(b'%d\n' % len(script))
            self.p.stdin.write(script)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._dead('crash')
        fd = self.p.stdout.fileno()
        buf = b''
        end = time.time() + self.wall
        need = None
        while True:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r:
                self.p.kill()
                self._dead('timeout')
            d = os.read(fd, 1 << 20)
            if not d:
                self._dead('crash')
            buf += d
            if need is None:
                i = buf.find(b'\n')
                if i < 0:
                    continue
                need = int(buf[:i]) + i + 1
                start = i + 1
            if len(buf) >= need:
                return buf[start:need].decode('latin1').split('\n')[:-1]


def src_cmd(slot, text):
    if isinstance(text, str):
        text = text.encode('latin1')
    return b'src %d %d\n%s\n' % (slot, len(text), text)
