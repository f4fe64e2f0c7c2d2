"""Front end: build the dumper, parse the current sources of /repo."""
import os
import subprocess
import sys
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LIBAMI_REPO', '/repo')
SRC = ['ami_base', 'ami_base_construct', 'ami_base_evaluate', 'ami_base_optimize', 'ami_base_terms',
       'ami_base_terms_evaluate', 'ami_base_terms_optimize']


class FrontError(Exception):
    pass


def tool():
    out = os.path.join(VERIF, 'build', 'amidump')
    src = os.path.join(VERIF, 'tools', 'amidump.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = None
    for c in ('llvm-config-18', 'llvm-config', '/usr/lib/llvm-18/bin/llvm-config'):
        try:
            cfg = subprocess.run([c, '--cppflags'], capture_output=True, text=True, check=True).stdout.split()
            break
        except (OSError, subprocess.CalledProcessError):
            pass
    if cfg is None:
        cfg = ['-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS']
    tmp = out + '.%d' % os.getpid()
    r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', src, '-o', tmp] + cfg +
                       ['-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'],
                       capture_output=True, text=True)
    if r.returncode:
        raise FrontError('building amidump: ' + r.stderr[-400:])
    os.rename(tmp, out)
    return out


def sources():
    """library translation units of the current tree"""
    d = os.path.join(REPO, 'src')
    fs = sorted(f for f in os.listdir(d) if f.endswith('.cpp'))
    if not fs:
        raise FrontError('no sources in ' + d)
    return [os.path.join(d, f) for f in fs]


def pysources():
    d = os.path.join(REPO, 'pyami_src')
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')] if os.path.isdir(d) else []


def dump(scratch, jobs):
    """jobs: (tag, source, flags) -> {tag: path}"""
    t = tool()
    out = {}

    def one(j):
        tag, src, flags = j
        o = os.path.join(scratch, tag + '.json')
        r = subprocess.run([t, '--root', REPO + '/src', '--root', REPO + '/pyami_src', '--root', VERIF + '/spec',
                            '-o', o, src, '--'] + flags, capture_output=True, text=True)
        if not os.path.exists(o) or os.path.getsize(o) == 0:
            raise FrontError('%s: %s' % (src, (r.stderr or 'no output')[-300:]))
        return tag, o
    with cf.ThreadPoolExecutor(8) as ex:
        for tag, o in ex.map(one, jobs):
            out[tag] = o
    return out


BASE = ['-std=c++14', '-I' + REPO + '/src', '-I' + REPO + '/pyami_src']


def gcc_include():
    """quadmath.h belongs to gcc"""
    return subprocess.run(['g++', '-print-file-name=include'], capture_output=True, text=True).stdout.strip()


def lib_jobs(mp=False, spec=True):
    fl = BASE + (['-DBOOST_MP', '-idirafter', gcc_include()] if mp else [])
    p = 'm_' if mp else 'd_'
    j = [(p + os.path.basename(s)[:-4], s, fl) for s in sources()]
    if spec:
        j.append(('s_mp' if mp else 's_ref', os.path.join(VERIF, 'spec', 'ref.cpp'), fl))
    return j


def py_jobs():
    return [('y_' + os.path.basename(s)[:-4], s, BASE + ['-isystem', '/usr/include/python3.12']) for s in pysources()]
