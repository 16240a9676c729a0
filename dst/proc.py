"""Disposable forked processes: the unit of isolation of the simulator."""
import ctypes
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

_libc = ctypes.CDLL(None)
CPU_LIMIT = 30.  # of CPU time in one request
TRACED_CPU_LIMIT = 150.  # if instructions of the library are followed
STALL_LIMIT = 60.  # of wall time without using CPU
WALL_LIMIT = 400.
MEMORY_LIMIT = 5 << 29


class Ended(Exception):
    """The process has ended instead of answering."""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind = kind
        self.detail = detail


class HarnessError(Exception):
    pass


class LibraryError(HarnessError):
    """The library has raised an exception where it should not."""


# say that the library has a different interface than harness expects
INTERFACE = (AttributeError, NameError, ImportError, TypeError, KeyError,
             AssertionError)


def is_raised_by_library(error):
    if not isinstance(error, Exception):
        return False
    from .build import REPO
    frames = traceback.extract_tb(error.__traceback__)
    path = os.path.abspath(frames[-1].filename) if frames else ''
    if path.startswith(os.path.join(REPO, 'wagyu') + os.sep):
        return True
    if os.path.basename(path) in ('copy.py', 'pickle.py', 'copyreg.py'):
        return True
    # native functions have no frames
    return not isinstance(error, INTERFACE + (HarnessError, Ended, OSError,
                                              MemoryError))


def _read_exactly(fd, size):
    chunks = []
    while size:
        chunk = os.read(fd, min(size, 1 << 20))
        if not chunk:
            return None
        chunks.append(chunk)
        size -= len(chunk)
    return b''.join(chunks)


def _send(fd, value):
    data = pickle.dumps(value, 4)
    data = struct.pack('!Q', len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def _receive(fd):
    header = _read_exactly(fd, 8)
    if header is None:
        return None
    data = _read_exactly(fd, struct.unpack('!Q', header)[0])
    return None if data is None else pickle.loads(data)


def cpu_time(pid):
    try:
        with open('/proc/%d/stat' % pid) as file:
            fields = file.read().rpartition(')')[2].split()
    except OSError:
        return None
    return (int(fields[11]) + int(fields[12])) / os.sysconf('SC_CLK_TCK')


def activity(pid):
    """CPU time of the process and of its living descendants."""
    result = cpu_time(pid) or 0.
    try:
        with open('/proc/%d/task/%d/children' % (pid, pid)) as file:
            children = file.read().split()
    except OSError:
        return result
    return result + sum(activity(int(child)) for child in children)


def is_traced(message):
    return isinstance(message, dict) and (
        bool(message.get('record')) or bool(message.get('measure'))
        or bool(message.get('fault')) or is_traced(message.get('copy')))


class Proc:
    """Serves requests with ``handler(request)`` in a forked process."""

    def __init__(self, make_handler):
        to_child, from_parent = os.pipe()
        to_parent, from_child = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if not self.pid:
            code = 1
            try:
                os.close(from_parent)
                os.close(to_parent)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG
                resource.setrlimit(resource.RLIMIT_AS,
                                   (MEMORY_LIMIT, MEMORY_LIMIT))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)  # last words of crashing processes
                os.close(null)
                handler = make_handler()
                while True:
                    message = _receive(to_child)
                    if message is None:
                        break
                    try:
                        reply = True, handler(message)
                    except BaseException as error:
                        sys.settrace(None)
                        reply = False, (is_raised_by_library(error),
                                        traceback.format_exc())
                    _send(from_child, reply)
                code = 0
            finally:
                os._exit(code)
        os.close(to_child)
        os.close(from_child)
        self._output = from_parent
        self._input = to_parent
        self.alive = True

    def ask(self, message, cpu_limit=None, stall_limit=STALL_LIMIT,
            wall_limit=WALL_LIMIT):
        if cpu_limit is None:
            cpu_limit = TRACED_CPU_LIMIT if is_traced(message) else CPU_LIMIT
        self.post(message)
        started = last_change = time.monotonic()
        start_cpu = cpu_time(self.pid) or 0.
        last_activity = 0.
        while not select.select([self._input], [], [], 1.)[0]:
            now, cpu = time.monotonic(), cpu_time(self.pid)
            if cpu is None:
                break
            active = activity(self.pid)
            if abs(active - last_activity) > .05:
                last_activity, last_change = active, now
            if cpu - start_cpu > cpu_limit:
                self.kill()
                raise Ended('hang', 'used more than %g s of CPU'
                            % cpu_limit)
            if now - last_change > stall_limit:
                self.kill()
                raise Ended('deadlock', 'waits forever')
            if now - started > wall_limit:
                self.kill()
                raise HarnessError('request took more than %g s of wall time'
                                   % wall_limit)
        return self.collect()

    def post(self, message):
        if not self.alive:
            raise Ended('dead', 'already')
        try:
            _send(self._output, message)
        except BrokenPipeError:
            raise self._ended()

    def fileno(self):
        return self._input

    def collect(self):
        reply = _receive(self._input)
        if reply is None:
            raise self._ended()
        success, value = reply
        if not success:
            by_library, text = value
            if by_library:
                raise LibraryError(text)
            raise HarnessError('in the simulated process:\n' + text)
        return value

    def _ended(self):
        status = self._reap()
        if status is None:
            return Ended('crash', 'ended')
        if os.WIFSIGNALED(status):
            number = os.WTERMSIG(status)
            try:
                name = signal.Signals(number).name
            except ValueError:
                name = str(number)
            if number == signal.SIGKILL:
                raise HarnessError('the simulated process was killed')
            return Ended('crash', name)
        code = os.WEXITSTATUS(status)
        if code == 77:
            return Ended('hang', 'exceeded the budget of steps')
        return Ended('crash', 'exit %d' % code)

    def _reap(self):
        if not self.alive:
            return None
        self.alive = False
        os.close(self._output)
        os.close(self._input)
        return os.waitpid(self.pid, 0)[1]

    def kill(self):
        if self.alive:
            os.kill(self.pid, signal.SIGKILL)
            self._reap()

    def close(self):
        """Lets the process end on its own."""
        if self.alive:
            os.close(self._output)
            self.alive = False
            os.close(self._input)
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def isolated(function, *args, **limits):
    """Calls the function in a process forked from the current one."""
    proc = Proc(lambda: lambda message: function(*args))
    try:
        return proc.ask((), **limits)
    finally:
        proc.close()
