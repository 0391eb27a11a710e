"""Type-level witnesses: claims the compilers evaluate while type checking the headers.

witness/*.cpp hold one claim per line:
  W(id, condition)      a static assertion over the library's types
  A(id, code)           code that has to type check
  R(id, bad, good)      `bad` must be rejected while `good`, which differs in the decisive type only, is accepted
  // @props C01,C02     the properties the following claims belong to
Everything else is common preamble.  Nothing is executed.
"""
import concurrent.futures
import glob
import os
import re
import shutil
import subprocess
import tempfile
import build

DIR = os.path.join(build.ROOT, 'witness')
FLAGS = ['-std=c++17', '-fsyntax-only', '-w', '-I' + build.REPO + '/inc', '-I' + os.path.join(build.ROOT, 'harness'), '-I' + DIR]
COMPILERS = {'clang': [build.CLANG, '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=3'], 'gcc': [build.GCC, '-fno-diagnostics-show-caret']}
# option sets that must not matter
OPTIONS = {'': [], 'O2,NDEBUG': ['-O2', '-DNDEBUG'], 'debug': ['-D_DEBUG', '-DDEBUG', '-D_GLIBCXX_ASSERTIONS'], 'no-rtti': ['-fno-rtti'], 'short-enums,unsigned-char': ['-fshort-enums', '-funsigned-char'],
           'old-abi': ['-D_GLIBCXX_USE_CXX11_ABI=0'], 'Os': ['-Os'], 'O3,fast-math': ['-O3', '-ffast-math'], 'stdlib-debug': ['-D_GLIBCXX_DEBUG'], 'windows-defines': ['-D_WIN32', '-D_WIN64'], 'strict': ['-fvisibility=hidden', '-fno-common']}


class Claim:
    def __init__(self, kind, ident, props, line, text, args):
        self.kind, self.id, self.props, self.line, self.text, self.args = kind, ident, props, line, text, args


def split_args(s):
    """top-level comma separated arguments, honouring () [] {} and quotes"""
    out, depth, cur, q = [], 0, '', None
    i = 0
    while i < len(s):
        ch = s[i]
        if q:
            if ch == '\\':
                cur += s[i:i + 2]
                i += 2
                continue
            if ch == q:
                q = None
        elif ch in '"\'':
            q = ch
        elif ch in '([{':
            depth += 1
        elif ch in ')]}':
            depth -= 1
        elif ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
            i += 1
            continue
        cur += ch
        i += 1
    out.append(cur)
    return [x.strip().replace(' COMMA ', ', ').replace('COMMA', ',') for x in out]


def parse(path):
    """(preamble lines with claims blanked, claims)"""
    pre, claims, props = [], [], ()
    for n, line in enumerate(open(path).read().split('\n'), 1):
        m = re.match(r'// @props (.*)', line)
        if m:
            props = tuple(x.strip() for x in m.group(1).split(','))
        m = re.match(r'([WAR])\((.*)\);?\s*$', line)
        if m:
            args = split_args(m.group(2))
            ident = args[0]
            if m.group(1) == 'R':
                body = m.group(2)[len(args[0]) + 1:]
                parts = split_r(body)
                args = [ident] + parts
            elif m.group(1) == 'A':
                args = [ident, m.group(2)[len(ident) + 1:].strip().replace(' COMMA ', ', ')]
            claims.append(Claim(m.group(1), ident, props, n, line, args))
            pre.append('')
        else:
            pre.append(line)
    return pre, claims


def split_r(body):
    """the two programs of an R claim, separated by ';,' """
    i = body.index(';,')
    return [body[:i + 1].strip().replace(' COMMA ', ', '), body[i + 2:].strip().replace(' COMMA ', ', ')]


def code_of(c, which=None):
    fn = 'f_' + re.sub(r'\W', '_', c.id)
    if c.kind == 'W':
        return c.text
    if c.kind == 'A':
        return 'void %s() { using namespace std; %s }' % (fn, c.args[1])
    return 'void %s() { %s }' % (fn, c.args[1 if which == 'bad' else 2])


def unit_text(path, pre, claims, which=None):
    lines = list(pre)
    for c in claims:
        lines[c.line - 1] = code_of(c, which)
    return '\n'.join(lines) + '\n'


def compile_(d, name, text, comp, extra=()):
    src = os.path.join(d, name + '.cpp')
    with open(src, 'w') as f:
        f.write(text)
    r = subprocess.run(COMPILERS[comp] + FLAGS + list(extra) + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.env())
    if r.returncode < 0 or 'internal compiler error' in r.stdout or 'PLEASE submit a bug report' in r.stdout:
        raise RuntimeError('compiler failure: ' + r.stdout[-500:])
    return r.returncode == 0, r.stdout


def errors(text):
    return [l for l in text.split('\n') if re.search(r'(fatal )?error:', l)]


def run(prop, tier):
    res = dict(violations=[], obligations=0, undecided=0, kinds={}, samples=[])
    d = tempfile.mkdtemp(prefix='ptl-wit-')
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            jobs = []
            for path in sorted(glob.glob(os.path.join(DIR, '*.cpp'))):
                pre, claims = parse(path)
                sel = [c for c in claims if prop in c.props]
                if sel:
                    jobs.append((path, pre, sel))
            if not jobs and not extra_checks(prop):
                return res
            futs = []
            for path, pre, sel in jobs:
                opts = dict(OPTIONS) if prop in ('C01', 'C03') else {'': []}
                for comp in COMPILERS:
                    for oname, o in opts.items():
                        if comp == 'gcc' and oname and tier == 'quick':
                            continue
                        futs.append(pool.submit(positive, pool, d, path, pre, sel, comp, oname, o))
                    for c in sel:
                        if c.kind == 'R':
                            futs.append(pool.submit(negative, d, path, pre, c, comp))
            for f in extra_checks(prop):
                futs += f(pool, d, tier)
            for f in futs:
                one = f.result()
                res['obligations'] += one['n']
                res['undecided'] += one.get('undecided', 0)
                for k, v in one.get('kinds', {}).items():
                    res['kinds'][k] = res['kinds'].get(k, 0) + v
                for v in one['bad']:
                    if prop in v['props']:
                        res['violations'].append(v)
                if len(res['samples']) < 6:
                    res['samples'] += one.get('samples', [])[:2]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def viol(path, c, comp, kind, msg, log, oname=''):
    name = os.path.basename(path)
    return dict(unit='witness', entry=name + ':' + c.id, case=comp + (' ' + oname if oname else ''), kind=kind, msg=msg, loc='witness/%s:%d' % (name, c.line), witness={},
                path=[re.sub(r'/tmp/ptl-wit-\w+/', '', l)[:300] for l in log[:4]], props=sorted(c.props), id=c.id)


def mentioned(log, src, claims):
    """claims whose line a diagnostic of this compilation mentions"""
    lines = {int(x) for x in re.findall(re.escape(src) + r'\.cpp:(\d+)', log)}
    return [c for c in claims if c.line in lines]


def positive(pool, d, path, pre, sel, comp, oname, opt):
    """all claims of a file at once; whatever goes wrong is then attributed claim by claim"""
    base = os.path.basename(path)[:-4]
    name = '%s-%s-%s' % (base, comp, re.sub(r'\W', '_', oname) or 'plain')
    ok, log = compile_(d, name, unit_text(path, pre, sel), comp, opt)
    kinds = {}
    for c in sel:
        kinds[{'W': 'static claim', 'A': 'must compile', 'R': 'counterpart must compile'}[c.kind]] = kinds.get({'W': 'static claim', 'A': 'must compile', 'R': 'counterpart must compile'}[c.kind], 0) + 1
    out = dict(n=len(sel), bad=[], kinds=kinds, samples=[dict(unit='witness', claim=c.id, compiler=comp, rule=c.text[:160]) for c in sel[:2]])
    if ok:
        return out
    if not build.control():
        raise RuntimeError('the compiler does not work')
    ok, plog = compile_(d, name + '-p', '\n'.join(pre) + '\n', comp, opt)
    if not ok:
        pl = parse_props(sel)
        c = Claim('P', 'headers', pl, 1, '', [])
        out['bad'].append(viol(path, c, comp, 'compile', 'the headers do not compile', errors(plog), oname))
        return out
    cand = mentioned(log, name, sel) or sel
    left = [c for c in sel if c not in cand]
    if left:
        ok2, _ = compile_(d, name + '-l', unit_text(path, pre, left), comp, opt)
        if not ok2:
            cand = sel
    for c in cand:
        ok2, l2 = compile_(d, name + '-' + re.sub(r'\W', '_', c.id), unit_text(path, pre, [c]), comp, opt)
        if ok2:
            continue
        e = errors(l2)
        if c.kind == 'W':
            hard = [x for x in e if 'PTLW:' not in x]
            msg = 'static claim does not hold' if not hard else 'static claim cannot be evaluated (hard error instead of a verdict)'
        else:
            msg = 'admissible code is rejected'
        out['bad'].append(viol(path, c, comp, 'claim', msg + ': ' + (c.text[:200]), e, oname))
    return out


def parse_props(sel):
    s = set()
    for c in sel:
        s |= set(c.props)
    return tuple(sorted(s))


def negative(d, path, pre, c, comp):
    base = os.path.basename(path)[:-4]
    ok, log = compile_(d, '%s-%s-bad-%s' % (base, comp, re.sub(r'\W', '_', c.id)), unit_text(path, pre, [c], 'bad'), comp)
    out = dict(n=1, bad=[], kinds={'must be rejected': 1}, samples=[dict(unit='witness', claim=c.id, compiler=comp, rule='rejected: ' + c.args[1][:120])])
    if ok:
        out['bad'].append(viol(path, c, comp, 'accepts', 'inadmissible code is accepted: ' + c.args[1][:160], []))
    return out


def extra_checks(prop):
    return EXTRA.get(prop, [])


# -- headers: self-contained, order independent, no strong definitions -------------------------------------
HEADERS = ['array', 'array_ref', 'bitset', 'function_ref', 'optional', 'optional_ref', 'string', 'string_ref', 'tuple', 'variant', 'variant_ref', 'vector']


def header_jobs(pool, d, tier):
    hs = sorted(os.path.basename(x)[:-4] for x in glob.glob(os.path.join(build.REPO, 'inc/ptl/*.hpp')))
    missing = [h for h in HEADERS if h not in hs]
    futs = []
    for h in missing:
        futs.append(pool.submit(lambda h=h: dict(n=1, bad=[hviol(h, '', 'public header %s.hpp vanished' % h, [])])))
    stds = ['c++17'] if tier == 'quick' else ['c++17', 'c++20']
    for comp in COMPILERS:
        for h in hs:
            futs.append(pool.submit(header, d, comp, 'alone-' + h, [h], 'header %s.hpp does not compile on its own' % h))
            futs.append(pool.submit(header, d, comp, 'twice-' + h, [h, h], 'header %s.hpp cannot be included twice' % h))
        futs.append(pool.submit(header, d, comp, 'all', hs, 'the headers do not compile together'))
        futs.append(pool.submit(header, d, comp, 'reverse', hs[::-1], 'the headers do not compile together in reverse order'))
        if tier != 'quick':
            for a in hs:
                for b in hs:
                    if a != b:
                        futs.append(pool.submit(header, d, comp, '%s-%s' % (a, b), [a, b], '%s.hpp followed by %s.hpp does not compile' % (a, b)))
    for h in hs:
        futs.append(pool.submit(strong, d, h))
    return futs


def hviol(h, comp, msg, log):
    return dict(unit='witness', entry='header:' + h, case=comp, kind='header', msg=msg, loc='inc/ptl/%s.hpp' % h, witness={}, path=log[:4], props=['C33'], id='header:' + h)


def header(d, comp, name, hs, msg):
    ok, log = compile_(d, 'h-%s-%s' % (comp, name), ''.join('#include <ptl/%s.hpp>\n' % h for h in hs), comp)
    out = dict(n=1, bad=[], kinds={'header compiles': 1}, samples=[])
    if not ok:
        if not build.control():
            raise RuntimeError('the compiler does not work')
        out['bad'].append(hviol(hs[0], comp, msg, errors(log)))
    return out


def strong(d, h):
    """definitions in a header must be inline: two translation units including it have to link"""
    src = os.path.join(d, 's-%s.cpp' % h)
    ll = src[:-4] + '.ll'
    with open(src, 'w') as f:
        f.write('#include <ptl/%s.hpp>\n' % h)
    r = subprocess.run([build.CLANG, '-std=c++17', '-w', '-I' + build.REPO + '/inc', '-S', '-emit-llvm', '-O0', src, '-o', ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=build.env())
    out = dict(n=1, bad=[], kinds={'no strong definition': 1}, samples=[])
    if r.returncode:
        return out          # reported by header()
    for line in open(ll):
        m = re.match(r'define (?!(?:linkonce_odr|weak_odr|internal|private|available_externally))(.*?)@"?([\w.$]+)', line) or re.match(r'@([\w.$]+) = (?:dso_local )?(?:global|constant) ()', line)
        if m:
            out['bad'].append(hviol(h, 'clang', 'non-inline definition %s in header %s.hpp: cannot be included from several translation units' % (m.group(2) or m.group(1), h), [line.strip()]))
    return out


def harness_jobs(pool, d, tier):
    """every documented operation instantiates with every compiler"""
    import catalogue
    futs = []
    units = []
    for h in sorted(glob.glob(os.path.join(build.ROOT, 'harness', '*.cpp'))):
        units.append((h, ()))
    for n in ('0', '1', '64', '65') if tier == 'quick' else [str(i) for i in (0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000)]:
        units.append((os.path.join(build.ROOT, 'harness', 'bitset.cpp'), ('N=' + n,)))
    for h, defs in units:
        for comp in COMPILERS:
            futs.append(pool.submit(harness, d, h, defs, comp))
    return futs


def entries(text):
    """line number -> entry name of the one-line functions in a harness"""
    out = {}
    for n, line in enumerate(text.split('\n'), 1):
        m = re.match(r'^(?!#|//|template|struct|using|namespace|extern|inline|constexpr).*?\b(\w+)\((?:.*)\)\s*(?:noexcept)?\s*\{.*\}\s*$', line) or re.match(r'^(?:[\w:<>,&*\s]+?)\b(\w+)\(.*\{.*\}\s*$', line)
        if m:
            out[n] = m.group(1)
    return out


def harness(d, path, defs, comp):
    text = open(path).read()
    name = 'i-%s-%s-%s' % (os.path.basename(path)[:-4], '_'.join(defs).replace('=', ''), comp)
    ext = ['-D' + x for x in defs]
    ok, log = compile_(d, name, text, comp, ext)
    ent = entries(text)
    out = dict(n=max(1, len(ent)), bad=[], kinds={'operation instantiates': max(1, len(ent))}, samples=[])
    if ok:
        return out
    if not build.control():
        raise RuntimeError('the compiler does not work')
    lines = {int(x) for x in re.findall(re.escape(name) + r'\.cpp:(\d+)', log)}
    hit = sorted(n for n in lines if n in ent) or sorted(lines)[:5] or [0]
    for n in hit:
        out['bad'].append(dict(unit='witness', entry='%s:%s' % (os.path.basename(path), ent.get(n, 'line %d' % n)), case=comp + ' ' + ' '.join(defs), kind='instantiate', msg='operation cannot be instantiated: ' + text.split('\n')[n - 1].strip()[:160],
                               loc='harness/%s:%d' % (os.path.basename(path), n), witness={}, path=errors(log)[:3], props=['C33'], id='instantiate'))
    return out


EXTRA = {'C33': [header_jobs, harness_jobs]}
PROPS = set(EXTRA)
for _p in glob.glob(os.path.join(DIR, '*.cpp')):
    for _c in parse(_p)[1]:
        PROPS |= set(_c.props)
