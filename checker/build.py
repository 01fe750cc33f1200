"""Compiles /repo's current sources to LLVM bitcode (no optimisation) and extracts the JSON program
description with tool/irx.  Nothing of the project is executed.  Everything is written to a scratch
directory that is removed afterwards."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf, re, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'pyfastutil', 'src')
WORK = os.path.join(VERIF, '.work')

class BuildError(Exception):
    pass

WARN = ['-w']
# The project is built with the interpreter's own flags plus the ISA flags of setup.py; the flags that
# matter for the meaning of the source are repeated here.
CFLAGS = ['-DNDEBUG', '-fwrapv', '-fno-strict-overflow', '-fno-strict-aliasing', '-fPIC'] + WARN

def isa_flags():
    """-m flags that setup.py passes (read from the file, so that a change there is followed)."""
    t = open(os.path.join(REPO, 'setup.py'), encoding='utf-8').read()
    fl = []
    for m in re.findall(r'["\'](-m[a-z0-9.]+)["\']', t):
        if m not in fl and not m.startswith('-march') and not m.startswith('-mtune'):
            fl.append(m)
    return fl

def python_include():
    for v in ('3.12',):
        d = '/usr/include/python' + v
        if os.path.exists(os.path.join(d, 'Python.h')):
            return d
    raise BuildError('no Python.h')

def irx():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(VERIF, 'tool', 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(WORK, 'irx-' + h)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['clang++-18', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                            '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('cannot build irx: ' + r.stderr[:2000])
        os.replace(tmp, out)
    return out

def sources(skip=()):
    out = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.c', '.cc', '.cxx')) and f not in skip:
                out.append(os.path.join(d, f))
    return sorted(out)

def compile_cmd(f, extra=()):
    c = ['clang-18'] if f.endswith('.c') else ['clang++-18', '-std=c++20']
    return c + isa_flags_cached() + ['-I' + SRC, '-I' + python_include()] + CFLAGS + list(extra) + [f]

_isa = None
def isa_flags_cached():
    global _isa
    if _isa is None:
        _isa = isa_flags()
        if not _isa:
            _isa = ['-mavx', '-mavx2', '-mavx512f', '-mavx512bw', '-mavx512dq', '-mavx512vl']
    return _isa

def compile_one(f, out, extra):
    r = subprocess.run(compile_cmd(f, extra) + ['-o', out], capture_output=True, text=True)
    if r.returncode:
        # Sources that use the intrinsics in the way GCC allows (the project is built with GCC here).
        r2 = subprocess.run(compile_cmd(f, list(extra) + ['-mxsave', '-include', os.path.join(VERIF, 'tool', 'gnuc13.h')]) + ['-o', out],
                            capture_output=True, text=True)
        if r2.returncode:
            return (f, r.stderr[:3000])
    return None

def bitcode(d, files, extra=('-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm')):
    jobs = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        for k, f in enumerate(files):
            jobs.append(ex.submit(compile_one, f, os.path.join(d, '%03d_%s.bc' % (k, os.path.basename(f))), extra))
    errs = [j.result() for j in jobs if j.result()]
    if errs:
        raise BuildError('does not compile: ' + '\n'.join('%s: %s' % e for e in errs))
    return sorted(os.path.join(d, x) for x in os.listdir(d) if x.endswith('.bc'))

def extract(skip=('SIMDLowAVX512.cpp',), only=None, vector=False):
    """-> path of the JSON file inside a temporary directory (caller removes), list of TUs"""
    tool = irx()
    d = tempfile.mkdtemp(prefix='pyfu-')
    try:
        fs = [f for f in sources(skip) if only is None or os.path.basename(f) in only]
        if not fs:
            raise BuildError('no sources')
        bcs = bitcode(d, fs)
        js = os.path.join(d, 'all.json')
        r = subprocess.run([tool] + bcs + ['-o', js, '-project', SRC + '/'] + (['-vector'] if vector else []) + (['-mm'] if vector == 'mm' else []), capture_output=True, text=True)
        if r.returncode:
            raise BuildError('irx failed: ' + (r.stderr or r.stdout)[:2000])
        return d, js, fs
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise

if __name__ == '__main__':
    d, js, fs = extract(vector=sys.argv[2] if len(sys.argv) > 2 else False)
    shutil.copy(js, sys.argv[1])
    shutil.rmtree(d)
    print(len(fs), 'TUs')
