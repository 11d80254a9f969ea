"""Scratch copies of the current tree, with the C extensions compiled from it."""
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VC_REPO', '/repo')


def make(c=True, flags=('-O1',)):
    d = tempfile.mkdtemp(prefix='vcheck.', dir=os.environ.get('TMPDIR', '/tmp'))
    src = os.path.join(REPO, 'src', 'zope', 'security')
    dst = os.path.join(d, 'zope', 'security')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns(
        'tests', '*.so', '__pycache__', '*.pyc'))
    err = None
    if c:
        ps = []
        for n in ('_proxy', '_zope_security_checker'):
            cmd = ['gcc', '-shared', '-fPIC', '-w', '-g', *flags,
                   '-I/usr/include/python3.12',
                   '-I' + os.path.join(REPO, 'include', 'zope.proxy'),
                   os.path.join(dst, n + '.c'), '-o',
                   os.path.join(dst, n + '.cpython-312-x86_64-linux-gnu.so')]
            ps.append(subprocess.Popen(cmd, stderr=subprocess.PIPE))
        for p in ps:
            o, e = p.communicate()
            if p.returncode:
                err = e.decode()[-2000:]
    return d, err


def remove(d):
    shutil.rmtree(d, ignore_errors=True)
