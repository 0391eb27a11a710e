"""Builds the IR exporter and turns harness translation units into analysable JSON."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PTL_REPO', '/repo')
BUILD = os.path.join(ROOT, '.build')
CLANG = '/usr/bin/clang++-18'
GXX = GCC = '/usr/bin/g++'
OPT = '/usr/bin/opt-18'


def env():
    e = {k: v for k, v in os.environ.items() if k not in ('LD_LIBRARY_PATH', 'LD_PRELOAD', 'CPATH', 'CPLUS_INCLUDE_PATH', 'LIBRARY_PATH', 'CXXFLAGS')}
    e['PATH'] = '/usr/bin:/bin:/usr/local/bin'
    e['LC_ALL'] = 'C'
    return e


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def exporter():
    src = os.path.join(ROOT, 'exporter', 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    r = sh([GXX, '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode:
        raise RuntimeError('exporter does not build:\n' + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


class CompileError(Exception):
    pass


def failing(log, src, text):
    """line -> diagnostic of the entry lines a compilation fails in; empty when an error cannot be attributed to entries"""
    lines = text.split('\n')
    first = next((i for i, l in enumerate(lines, 1) if l.startswith('extern "C"')), len(lines))
    out = {}
    groups = []
    for l in log.split('\n'):
        m = re.match(r'(\S+?):(\d+):\d+: (fatal error|error|note|warning): (.*)', l)
        if m:
            if m.group(3).endswith('error'):
                groups.append((l, set()))
            if groups and m.group(1) == src:
                groups[-1][1].add(int(m.group(2)))
    for err, ls in groups:
        ls = {n for n in ls if n > first and re.match(r'^\w.*[;})]\s*$', lines[n - 1])}
        if not ls:
            return {}
        for n in ls:
            out.setdefault(n, err.replace(src, 'harness/' + os.path.basename(src))[-300:])
    return out


def module(name, defs=(), flags=()):
    """JSON of harness/<name>.cpp against the current tree"""
    ex = exporter()
    d = tempfile.mkdtemp(prefix='ptl-sa-')
    try:
        with open(os.path.join(ROOT, 'harness', name + '.cpp')) as f:
            text = f.read()
        src = os.path.join(d, name + '.cpp')
        bc0, bc, js = (os.path.join(d, x) for x in ('a.bc', 'b.bc', 'c.json'))
        cmd = [CLANG, '-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-fno-discard-value-names', '-w',
                '-I' + REPO + '/inc', '-I' + os.path.join(ROOT, 'harness')] + ['-D' + x for x in defs] + list(flags) + ['-ferror-limit=0', '-emit-llvm', '-c', src, '-o', bc0]
        dropped = []
        for attempt in range(4):
            with open(src, 'w') as f:
                f.write(text)
            r = sh(cmd)
            if not r.returncode:
                break
            # operations that no longer instantiate are set aside (and reported); the others are still analysed
            lines, bad = text.split('\n'), failing(r.stdout, src, text)
            if not bad or attempt == 3:
                raise CompileError(r.stdout)
            for n, why in sorted(bad.items()):
                dropped.append((n, lines[n - 1].strip(), why))
                lines[n - 1] = ''
            text = '\n'.join(lines)
        r = sh([OPT, '-passes=mem2reg', bc0, '-o', bc])
        if r.returncode:
            raise RuntimeError(r.stdout[-2000:])
        r = sh([ex, bc, js])
        if r.returncode:
            raise RuntimeError(r.stdout[-2000:])
        with open(js) as f:
            mod = json.load(f)
        mod['dropped'] = dropped
        return mod
    finally:
        shutil.rmtree(d, ignore_errors=True)


def control():
    """does the toolchain work at all? (guards against blaming the tree for a broken sandbox)"""
    r = sh([CLANG, '-std=c++17', '-fsyntax-only', '-x', 'c++', '-'], input='#include <vector>\n#include <string_view>\nint main(){std::vector<int> v; return v.size();}\n')
    return r.returncode == 0
