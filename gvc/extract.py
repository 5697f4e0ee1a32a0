"""Mechanical extraction: /repo source -> LLVM IR (clang -O0, then SSA construction only)."""
import hashlib, os, subprocess, sys
from .ir import Module

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('GVC_REPO', '/repo')


class ExtractError(Exception):
    pass


def flags():
    p = subprocess.run(['pkg-config', '--cflags', 'glib-2.0', 'gobject-2.0'], capture_output=True, text=True)
    return p.stdout.split() + ['-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32', '-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED']


def extract(src, workdir, defs=(), prelude=True):
    """returns Module for REPO/src/<src>.c"""
    path = src if src.startswith('/') else '%s/src/%s.c' % (REPO, src)
    base = os.path.join(workdir, os.path.basename(path).replace('.c', ''))
    cmd = ['clang-18', '-S', '-emit-llvm', '-O0', '-w', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names',
           '-I', REPO + '/include', '-I', REPO + '/src'] + list(defs) + flags()
    if prelude:
        cmd += ['-include', HERE + '/prelude.h']
    cmd += [path, '-o', base + '.0.ll']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise ExtractError('clang failed on %s:\n%s' % (path, p.stderr[-3000:]))
    p = subprocess.run(['opt-18' if os.path.exists('/usr/bin/opt-18') else 'opt', '-S', '-passes=function(mem2reg,loop-simplify)', base + '.0.ll', '-o', base + '.ll'], capture_output=True, text=True)
    if p.returncode:
        raise ExtractError('opt failed on %s:\n%s' % (path, p.stderr[-3000:]))
    return Module(open(base + '.ll').read(), os.path.basename(path))
