"""Shared plumbing: building the binding, the worker pool, running TLC."""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WAGYU_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
EVIDENCE = os.path.join(ROOT, 'evidence')
PYTHON = '/opt/venv/bin/python'
if not os.path.exists(PYTHON):
    PYTHON = sys.executable
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar'
CORES = os.cpu_count() or 4


class Machinery(Exception):
    """The check itself failed; neither a pass nor a violation."""


# --------------------------------------------------------------- the binding
def inputs_hash():
    """The hash that /opt/vp/build.sh stamps a build with."""
    script = r'''
{ find src include -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum
  sha256sum setup.py wagyu/__init__.py requirements.txt requirements-setup.txt README.md
  PY -c 'import sys, pybind11, setuptools; print(sys.version, pybind11.__version__, setuptools.__version__)'
  g++ --version; } 2>&1 | sha256sum'''.replace('PY', PYTHON)
    return subprocess.run(['bash', '-c', script], cwd=REPO, check=True,
                          stdout=subprocess.PIPE, text=True).stdout.split()[0]


def sources_hash():
    script = (r"find src include -type f -print0 | LC_ALL=C sort -z "
              r"| xargs -0 sha256sum; g++ --version; %s --version" % PYTHON)
    text = subprocess.run(['bash', '-c', script], cwd=REPO, check=True,
                          stdout=subprocess.PIPE).stdout
    return hashlib.sha256(text).hexdigest()


def stamp_matches():
    try:
        with open(os.path.join(REPO, 'build', 'vp-stamp')) as stream:
            stamp = stream.read().split()[0]
    except (OSError, IndexError):
        return False
    return bool(glob.glob(os.path.join(REPO, '_wagyu*.so'))) and stamp == inputs_hash()


def binding_directory():
    """Where to import the binding from: the repository's own build when it
    is up to date, else a fresh build of the current sources (cached by the
    hash of the sources, outside both trees)."""
    if stamp_matches():
        return []
    key = sources_hash()
    cache = os.path.join(tempfile.gettempdir(), 'wagyu-verif-%d' % os.getuid(), key[:24])
    os.makedirs(cache, exist_ok=True)
    with open(os.path.join(cache, '.lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not glob.glob(os.path.join(cache, '_wagyu*.so')):
            include, suffix = subprocess.run(
                [PYTHON, '-c', 'import pybind11, sysconfig; print(pybind11.get_include()); '
                               'print(sysconfig.get_paths()["include"]); '
                               'print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                check=True, stdout=subprocess.PIPE, text=True
            ).stdout.strip().rsplit('\n', 1)
            command = ['g++', '-O1', '-std=c++23', '-fPIC', '-shared', '-fvisibility=hidden',
                       '-DVERSION_INFO=0', '-w']
            for directory in include.split('\n'):
                command += ['-I', directory]
            target = os.path.join(cache, '_wagyu' + suffix)
            command += ['-I', os.path.join(REPO, 'include'),
                        os.path.join(REPO, 'src', 'main.cpp'), '-o', target + '.tmp']
            done = subprocess.run(command, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True)
            if done.returncode:
                raise Machinery('the binding does not compile:\n' + done.stdout[-3000:])
            os.rename(target + '.tmp', target)
    return [cache]


# --------------------------------------------------------------- the workers
class Worker:
    def __init__(self, directories):
        self.directories = directories
        self.process = None

    def start(self):
        environment = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.process = subprocess.Popen(
            [PYTHON, os.path.join(ROOT, 'harness', 'worker.py')] + self.directories + [REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True, env=environment, cwd='/')

    def stop(self):
        if self.process is not None:
            self.process.kill()
            self.process.wait()
            self.process.stdin.close()
            self.process.stdout.close()
            self.process = None

    def ask(self, request, timeout):
        """The reply, or None when the worker died or took too long."""
        if self.process is None:
            self.start()
        expired = []
        process = self.process
        timer = threading.Timer(timeout, lambda: (expired.append(1), process.kill()))
        timer.start()
        try:
            process.stdin.write(json.dumps(request) + '\n')
            process.stdin.flush()
            line = process.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        finally:
            timer.cancel()
        if not line.endswith('\n'):
            self.stop()
            return None
        return json.loads(line)


class Pool:
    def __init__(self, size=None):
        directories = binding_directory()
        probe = Worker(directories)
        reply = probe.ask({'kind': 'screen', 'cases': []}, 120)
        probe.stop()
        if reply is None:
            # neither imports nor crashes at import are verdicts of a property
            raise Machinery('the code under test cannot be imported')
        self.workers = [Worker(directories) for _ in range(size or CORES)]

    def close(self):
        for worker in self.workers:
            worker.stop()

    def map(self, requests, timeout=60, deadline=None):
        """Replies in order (None for a dead worker or after the deadline)."""
        replies = [None] * len(requests)
        iterator = iter(range(len(requests)))
        lock = threading.Lock()

        def serve(worker):
            while True:
                with lock:
                    index = next(iterator, None)
                if index is None:
                    return
                if deadline is not None and time.time() > deadline:
                    replies[index] = 'late'
                    continue
                replies[index] = worker.ask(requests[index], timeout)
        threads = [threading.Thread(target=serve, args=(w,)) for w in self.workers]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join()
        return replies

    def play(self, scripts, timeout=90):
        """Recorded histories of the scripts.  A script whose process died or
        hung is played again with every call in a process of its own, so that
        the crash becomes a recorded answer."""
        replies = self.map([{'kind': 'play', 'script': s} for s in scripts], timeout)
        for index, reply in enumerate(replies):
            if reply is None:
                again = self.map([{'kind': 'play', 'script': scripts[index], 'fork': True}], 600)
                if again[0] is None:
                    raise Machinery('a history could not be recorded: %r' % (scripts[index],))
                replies[index] = again[0]
        return replies


# ----------------------------------------------------------------------- TLC
class Tlc:
    """One run of TLC; its counts and the lines it printed."""

    def __init__(self, module, config=None, environment=None, workers=None,
                 arguments=(), timeout=840, heap='6g'):
        self.scratch = tempfile.mkdtemp(prefix='wagyu-tlc-')
        try:
            command = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m',
                       '-cp', JAVA_CP + ':' + os.path.dirname(JAVA_CP) + '/*',
                       'tlc2.TLC', '-workers', str(workers or CORES), '-nowarning', '-noGenerateSpecTE',
                       '-metadir', self.scratch, '-config', (config or module) + '.cfg',
                       *arguments, module + '.tla']
            started = time.time()
            try:
                done = subprocess.run(command, cwd=SPEC, stdout=subprocess.PIPE,
                                      stderr=subprocess.STDOUT, text=True, timeout=timeout,
                                      env=dict(os.environ, **(environment or {})))
            except subprocess.TimeoutExpired:
                raise Machinery('TLC took longer than %d s on %s' % (timeout, module))
            self.seconds = time.time() - started
            self.output, self.code = done.stdout, done.returncode
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)
        self.lines = [line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
                      for line in self.output.split('\n')
                      if line.startswith('"') and line.endswith('"')]
        match = re.findall(r'(\d+) states generated, (\d+) distinct states found', self.output)
        self.generated, self.distinct = map(int, match[-1]) if match else (0, 0)

    def require_success(self):
        if self.code or 'No error has been found' not in self.output:
            raise Machinery('TLC failed (%d):\n%s' % (self.code, self.output[-4000:]))

    def said(self, word):
        return [json.loads(line[len(word) + 1:]) for line in self.lines
                if line.startswith(word + ' ')]


def validate(module, traces, judge, config=None, heap='12g', timeout=840):
    """Checks recorded traces against a trace specification.  Returns the
    rejections as (trace, position, property, clause, detail)."""
    directory = tempfile.mkdtemp(prefix='wagyu-traces-')
    try:
        path = os.path.join(directory, 'traces.json')
        with open(path, 'w') as stream:
            json.dump(traces, stream)
        judges = os.path.join(directory, 'judge.json')
        with open(judges, 'w') as stream:
            json.dump(sorted(judge), stream)
        run = Tlc(module, config, {'TRACES': path, 'JUDGE': judges}, heap=heap, timeout=timeout)
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    run.require_success()
    expected = sum(len(t['ev']) + 1 for t in traces)
    if run.distinct != expected:
        raise Machinery('TLC consumed %d states of %d:\n%s'
                        % (run.distinct, expected, run.output[-3000:]))
    if run.said('MACHINERY'):
        raise Machinery('the specification refused a claim of the recorder: %r'
                        % run.said('MACHINERY')[:3])
    return run, [tuple(x) for x in run.said('REJECT')]
