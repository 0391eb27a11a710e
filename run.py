#!/usr/bin/env python3
"""Static checks of PTL's properties.

  run.py check <property> [--tier quick|thorough]   decide one property on /repo's working tree
  run.py setup                                        build the IR exporter

Exit 0: property holds on everything analysed.  Exit 1 with VIOLATION lines: a rule is broken.
Exit 2: the check itself could not do its work.
"""
import argparse
import concurrent.futures
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'sa'))
sys.setrecursionlimit(20000)
import build            # noqa: E402
import spec             # noqa: E402
import catalogue        # noqa: E402


class Timeout(Exception):
    pass


def alarm(*_):
    raise Timeout()


G = {}


def init_worker(parts):
    """contexts of all analysed units; cases are generated identically in every worker"""
    for name, (unit, mod) in parts.items():
        m = spec.load(unit[0], unit[1].get('param', {}))
        opt = dict(getattr(m, 'OPT', {}) or {})
        opt.update(unit[1].get('opt', {}))
        ctx = spec.Ctx(mod, opt, m.KINDS)
        ctx.variant = unit[1]
        cases = list(m.cases(ctx))
        for c in cases:
            c.props = tuple(c.props) + catalogue.extra_props(unit[0], c.entry)
        G[name] = (ctx, cases)


def work(job):
    name, ix, limit = job
    ctx, cases = G[name]
    e = ctx.eng
    c = cases[ix]
    n0, u0 = len(e.reports), len(e.unknown)
    o0, i0, k0 = dict(e.obls), e.stat['insts'], e.stat['calls']
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    t = time.time()
    err = None
    e.used = set()
    try:
        ctx.run(c)
    except Timeout:
        e.unknown.append((c.entry, c.label, 'time limit', '?'))
    except MemoryError:
        e.unknown.append((c.entry, c.label, 'memory limit', '?'))
    except Exception:
        err = traceback.format_exc()
        e.unknown.append((c.entry, c.label, 'internal error: ' + err.strip().split('\n')[-1], '?'))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    reps = []
    for r in e.reports[n0:]:
        props = getattr(r, 'props', None)
        if props is None:
            props = set(c.props) | set(ctx.kinds.get(r.kind, ()))
        reps.append(dict(unit=name, entry=r.entry, case=r.case, kind=r.kind, msg=r.msg, loc=e.locs(r.loc), witness={k: str(v) for k, v in (r.point or {}).items()}, path=r.where[-12:], props=sorted(props)))
    del e.reports[n0:]
    unk = [dict(unit=name, entry=x[0], case=x[1], why=x[2], loc=x[3]) for x in e.unknown[u0:]]
    del e.unknown[u0:]
    outs = ctx.results[-1][2] if ctx.results and ctx.results[-1][0] == c.entry else 0
    return dict(name=name, entry=c.entry, label=c.label, props=sorted(set(c.props)), reps=reps, unk=unk, outs=outs, err=err,
                obl={k: v - o0.get(k, 0) for k, v in e.obls.items() if v != o0.get(k, 0)}, insts=e.stat['insts'] - i0, calls=e.stat['calls'] - k0,
                used=sorted(e.used), t=time.time() - t)


def load_known():
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: '):
                f = dict(x.split('=', 1) for x in line[9:].split(' -- ')[0].split())
                f['text'] = line.split(' -- ', 1)[1] if ' -- ' in line else ''
                out.append(f)
    return out


def known(f, prop, r):
    return f.get('property') == prop and all(r.get(k) == v.replace('~', ' ') for k, v in f.items() if k in ('unit', 'entry', 'case', 'kind', 'id'))


def analyse(prop, tier, t_end):
    units = catalogue.units_for(prop, tier)
    parts, compile_errors = {}, []

    def load(u):
        m = spec.load(u[0], u[1].get('param', {}))
        try:
            return build.module(m.NAME, tuple(getattr(m, 'DEFS', ())) + tuple(u[1].get('defs', ())))
        except build.CompileError as ex:
            return ex
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        mods = list(ex.map(load, units))
    for u, mod in zip(units, mods):
        name = u[0] + u[1].get('suffix', '')
        if isinstance(mod, build.CompileError):
            if not build.control():
                raise RuntimeError('the compiler does not work')
            compile_errors.append((name, '(harness)', '', str(mod)))
        else:
            parts[name] = (u, mod)
    if not parts:
        return [], compile_errors, []
    init_worker(parts)
    for name, (ctx, cases) in G.items():
        for c in cases:
            if c.entry not in ctx.mod['functions']:
                if ctx.mod['dropped']:
                    n, text, why = next((x for x in ctx.mod['dropped'] if c.entry + '(' in x[1]), ctx.mod['dropped'][0])
                    if prop in c.props:
                        compile_errors.append((name, c.entry, text, why))
                    continue
                raise RuntimeError('entry %s vanished' % c.entry)
    jobs = []
    limit = 60 if tier == 'quick' else 240
    for name, (ctx, cases) in G.items():
        for i, c in enumerate(cases):
            if catalogue.relevant(prop, name, c) and c.entry in ctx.mod['functions']:
                jobs.append((name, i, limit))
    n = int(os.environ.get('PTL_JOBS', '8'))
    res = []
    if n <= 1:
        res = [work(j) for j in jobs]
    else:
        # workers inherit the loaded modules
        ctxm = multiprocessing.get_context('fork')
        with ctxm.Pool(n) as pool:
            it = pool.imap_unordered(work, jobs, chunksize=1)
            done = 0
            while done < len(jobs):
                left = t_end - time.time()
                try:
                    res.append(it.next(timeout=max(1, left)))
                    done += 1
                except multiprocessing.TimeoutError:
                    have = {(r['name'], r['entry'], r['label']) for r in res}
                    for nm, i, _ in jobs:
                        c = G[nm][1][i]
                        if (nm, c.entry, c.label) not in have:
                            res.append(dict(name=nm, entry=c.entry, label=c.label, props=[], reps=[], unk=[dict(unit=nm, entry=c.entry, case=c.label, why='overall time limit', loc='?')], outs=0, err=None, obl={}, insts=0, calls=0, used=[], t=0))
                    pool.terminate()
                    break
    return res, compile_errors, sorted(parts)


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t_end = t0 + (780 if tier == 'quick' else 3000)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    violations = []
    res, cerr, units = analyse(prop, tier, t_end)
    for name, entry, op, text in dict.fromkeys(cerr):
        violations.append(dict(unit=name, entry=entry, case='', kind='compile', msg='a documented operation can no longer be instantiated: ' + op[:200], loc=next((l for l in text.split('\n') if 'error' in l), '')[:300], witness={}, path=[l for l in text.split('\n') if 'error' in l or 'note:' in l][:10], props=[prop], id='compile:' + name))
    obl, used, undec = {}, set(), []
    insts = calls = outs = 0
    reported_elsewhere = 0
    for r in res:
        for k, v in r['obl'].items():
            obl[k] = obl.get(k, 0) + v
        used.update(r['used'])
        undec += r['unk']
        insts += r['insts']
        calls += r['calls']
        outs += r['outs']
        for x in r['reps']:
            if prop in x['props']:
                violations.append(x)
            else:
                reported_elsewhere += 1
    import witness
    w = witness.run(prop, tier)
    violations += w['violations']
    # de-duplicate
    uniq, seen = [], set()
    for v in violations:
        k = (v['unit'], v['entry'], v['kind'], v['loc'], v['msg'] if v['unit'] == 'witness' else '')
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    finds = load_known()
    fresh, hit = [], []
    for v in uniq:
        f = next((f for f in finds if known(f, prop, v)), None)
        (hit if f else fresh).append((v, f))
    total = sum(obl.values()) + w['obligations']
    ev = dict(property=prop, tier=tier, seed=seed, level='other', wall_s=0.0, violations=len(fresh), coverage=dict(
        explanation=catalogue.explain(prop),
        units=units, entry_cases=len(res), abstract_outcomes=outs, instructions_interpreted=insts, calls_analysed=calls,
        functions_analysed=len(used), obligations=total, discharged=total - len(fresh) - len({(u['unit'], u['entry'], u['case'], u['why']) for u in undec}) - w['undecided'],
        obligations_by_rule=obl, type_witnesses=w['obligations'], witness_kinds=w['kinds'],
        undecided=[u for u in undec][:40], undecided_count=len(undec) + w['undecided'],
        functions=sorted(f for f in used)[:60],
        samples=[dict(unit=r['name'], entry=r['entry'], case=r['label'], outcomes=r['outs'], obligations=sum(r['obl'].values()), rules=r['obl']) for r in sorted(res, key=lambda r: -sum(r['obl'].values()))[:6]] + w['samples'][:6]),
        assumptions=catalogue.ASSUMPTIONS)
    code = 0
    if total == 0 and not fresh:
        print('no obligation was analysed for %s' % prop)
        code = 2
    for v, f in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, f['text']))
    if fresh:
        code = 1
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for i, (v, _) in enumerate(fresh[:12]):
            p = os.path.join(rd, '%s-%d.json' % (prop, i))
            with open(p, 'w') as fh:
                json.dump(v, fh, indent=1)
            print('%s [%s] %s: %s' % (v['loc'], v['kind'], v['entry'] + (' (%s)' % v['case'] if v['case'] else ''), v['msg']))
            for q in v['path']:
                print('    in ' + q[:200])
            if v['witness']:
                print('    for example with ' + ', '.join('%s=%s' % (a, b) for a, b in sorted(v['witness'].items())[:12]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d cases, %d obligations, %d type witnesses, %d undecided, %d violations, %.1f s' % (prop, len(res), total, w['obligations'], ev['coverage']['undecided_count'], len(fresh), ev['wall_s']))
    for r in res:
        if r['err']:
            print('internal error in %s %s:\n%s' % (r['entry'], r['label'], r['err']), file=sys.stderr)
    return code


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('cmd', choices=['check', 'setup'])
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    os.environ.pop('LD_LIBRARY_PATH', None)
    build.exporter()
    if a.cmd == 'setup':
        return 0
    try:
        return check(a.prop, a.tier)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
