"""Compiles witness translation units against the working tree of /repo and extracts their IR."""
import hashlib
import os
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HSMV_REPO', '/repo')
BUILD = os.environ.get('HSMV_BUILD') or os.path.join(VERIF, 'build')
CLANG = 'clang++'
FLAGS = ['-std=c++20', '-O1', '-fignore-exceptions', '-Xclang', '-disable-llvm-passes', '-gline-tables-only',
         '-Wno-everything', '-ferror-limit=3', '-ftemplate-backtrace-limit=4', '-fbracket-depth=4096', '-ftemplate-depth=4096']


SUPPORT = '-fno-strict-aliasing -D_GLIBCXX_EXTERN_TEMPLATE=0 -include ' + os.path.join(VERIF, 'support', 'support.h')


class AnalysisError(Exception):
    """the analysis itself is broken (never a verdict)"""


class CompileError(Exception):
    def __init__(self, what, text):
        self.what = what
        self.text = text


def run(cmd, timeout=600, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd)
    return p.returncode, p.stdout.decode('utf8', 'replace')


_lock = threading.Lock()


def irdump():
    """path of the IR extractor, built on demand"""
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    with open(src, 'rb') as f:
        h = hashlib.sha1(f.read()).hexdigest()[:12]
    exe = os.path.join(BUILD, 'irdump-' + h)
    with _lock:
        if os.path.exists(exe):
            return exe
        os.makedirs(BUILD, exist_ok=True)
        cfg = subprocess.check_output(['llvm-config-18', '--cxxflags']).decode().split()
        ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs', '--link-shared']).decode().split()
        tmp = exe + '.%d' % os.getpid()
        rc, out = run([CLANG] + cfg + ['-O1', '-fno-exceptions', '-fno-rtti', '-w', src, '-o', tmp] + ld)
        if rc:
            raise AnalysisError('cannot build irdump:\n' + out[-2000:])
        os.rename(tmp, exe)
    return exe


_tree = {}


def tree_hash(repo):
    if repo not in _tree:
        h = hashlib.sha1()
        for d, _, fs in sorted(os.walk(os.path.join(repo, 'include'))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
        _tree[repo] = h.hexdigest()
    return _tree[repo]


def stub_hash():
    h = hashlib.sha1()
    for d in ('stubs', 'support'):
        d = os.path.join(VERIF, d)
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f), 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def witness(cpp, stubs=True, repo=None, name='w', mode=(), peek=None, support=False):
    """compile C++ text -> path of the JSON IR. Raises CompileError if the text is rejected.
    peek: name of a function that is also wanted on its own, fully optimised (<path>.peek)
    mode: options for irdump; --eh keeps the exceptions
    support: with the definitions of functions of the standard library that are not in its headers"""
    repo = repo or REPO
    exe = irdump()
    flags = [f for f in FLAGS if f != '-fignore-exceptions' or '--eh' not in mode]
    key = hashlib.sha1('\0'.join([cpp, tree_hash(repo), stub_hash(), 'stubs' if stubs else '-', ' '.join(FLAGS), ' '.join(mode), peek or '', SUPPORT if support else '',
                                  os.path.basename(exe)]).encode()).hexdigest()[:20]
    cache = os.path.join(BUILD, 'cache')
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + '.json')
    if os.path.exists(out):
        return out
    src = os.path.join(cache, '%s-%d.cpp' % (key, os.getpid()))
    bc = src[:-4] + '.bc'
    tmp = src[:-4] + '.json'
    try:
        with open(src, 'w') as f:
            f.write(cpp)
        inc = SUPPORT.split() if support else []
        inc += (['-isystem', os.path.join(VERIF, 'stubs')] if stubs else []) + ['-I', os.path.join(repo, 'include')]
        rc, txt = run([CLANG] + flags + inc + ['-emit-llvm', '-c', src, '-o', bc])
        if rc:
            raise CompileError(name, txt)
        for o, a in ([(out + '.peek', ['--only=' + peek])] if peek else []) + [(out, [x for x in mode if x != '--eh'])]:
            rc, txt = run([exe, bc, tmp] + a)
            if rc:
                raise AnalysisError('irdump failed: ' + txt[-1000:])
            if o != out:
                os.rename(tmp, o)
        os.rename(tmp, out)
    finally:
        for p in (src, bc, tmp):
            if os.path.exists(p):
                os.unlink(p)
    return out


def syntax(cpp, repo=None, std='-std=c++20', timeout=300):
    """front end verdict on C++ text (real standard headers): (accepted, diagnostics)"""
    repo = repo or REPO
    p = subprocess.run([CLANG, std, '-fsyntax-only', '-Wno-everything', '-ferror-limit=4',
                        '-ftemplate-backtrace-limit=6', '-I', os.path.join(repo, 'include'), '-x', 'c++', '-'],
                       input=cpp.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode == 0, p.stdout.decode('utf8', 'replace')


def levels(f, need, missing):
    """apply f(stubs, support): with the abstract containers, or with the real ones if the code uses something
    they do not offer (need), with the definitions from support.h if the code calls the library (missing)"""
    try:
        return f(True, False)
    except missing:
        last = (True, True)
    except need + (CompileError,):
        last = (False, False)
    try:
        return f(*last)
    except missing + need + (CompileError,):
        if last == (True, True) or last == (False, False):
            return f(False, True)
        raise
