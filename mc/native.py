"""Compiles C++ drivers against /repo's current tree and the libraries that
run.sh has just rebuilt from it."""
import ctypes
import json
import os
import shlex
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = '/opt/k2-build'


def flags(of='hash.cc'):
    for e in json.load(open(BUILD + '/compile_commands.json')):
        if e['file'].endswith('/' + of):
            toks = shlex.split(e['command'])
            out = []
            i = 0
            while i < len(toks):
                t = toks[i]
                if t in ('-I', '-D', '-isystem'):
                    out += [t, toks[i + 1]]
                    i += 1
                elif t.startswith(('-I', '-D', '-isystem')):
                    out.append(t)
                i += 1
            return out
    raise RuntimeError('no compile command for ' + of)


def build(src, out, extra=(), shared=True, libs=('k2context', 'k2_log')):
    torch = '/opt/venv/lib/python3.12/site-packages/torch/lib'
    cmd = (['g++', '-std=c++17', '-DNDEBUG', '-w'] + flags() +
           list(extra) + [os.path.join(HERE, 'native', src), '-o', out] +
           (['-shared', '-fPIC'] if shared else []) +
           ['-L' + BUILD + '/lib'] + ['-l' + x for x in libs] +
           ['-Wl,-rpath,' + BUILD + '/lib', '-L' + torch, '-lc10', '-ltorch_cpu',
            '-ltorch', '-Wl,-rpath,' + torch, '-pthread'])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        e = [x for x in r.stderr.split('\n') if 'error' in x] or [r.stderr]
        raise RuntimeError('driver does not compile:\n' +
                           '\n'.join(e)[:3000])


def load(src, extra=('-O2',), before_k2=False, **kw):
    """-> ctypes library; the file is gone afterwards, the mapping stays."""
    d = tempfile.mkdtemp(prefix='k2mc-native-', dir='/tmp')
    try:
        so = os.path.join(d, src.replace('.cc', '.so'))
        build(src, so, extra, **kw)
        if not before_k2:
            import k2  # noqa: loads the libraries of the build
        return ctypes.CDLL(so)
    finally:
        shutil.rmtree(d)


def module(src, name):
    """-> a Python extension module on torch tensors"""
    import importlib.util
    inc = '/opt/venv/lib/python3.12/site-packages/torch/include'
    d = tempfile.mkdtemp(prefix='k2mc-native-', dir='/tmp')
    try:
        so = os.path.join(d, name + '.so')
        build(src, so, ('-O0', '-DTORCH_EXTENSION_NAME=' + name,
                        '-D_GLIBCXX_USE_CXX11_ABI=0', '-isystem', inc,
                        '-isystem', inc + '/torch/csrc/api/include'),
              libs=('k2_torch_api', 'k2_torch', 'k2context', 'k2_log',
                    'torch_python'))
        import k2  # noqa
        spec = importlib.util.spec_from_file_location(name, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m
    finally:
        shutil.rmtree(d)
