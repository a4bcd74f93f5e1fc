#!/usr/bin/env python3
"""Decide one property on /repo's current source.   check.py PROPERTY [quick|thorough]

Builds the MIR dumper when it is missing, type-checks the analysis harness against /repo's current
working tree (nothing is executed), and runs the analyses registered for the property.
exit 0: holds; 1: VIOLATION lines; 2: the analysis could not be carried out.
"""
import fcntl
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
sys.path.insert(0, os.path.join(HERE, 'py'))


def sh(cmd, env=None, cwd=None, **kw):
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Fail(Exception):
    pass


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + '.lock')

    def __enter__(self):
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sysroot():
    return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()


def driver():
    exe = os.path.join(BUILD, 'driver', 'debug', 'vmir')
    with Lock('driver'):
        src = os.path.join(HERE, 'driver', 'src', 'main.rs')
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            r = sh(['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'driver')],
                   {'RUSTUP_TOOLCHAIN': 'nightly'}, os.path.join(HERE, 'driver'))
            if r.returncode or not os.path.exists(exe):
                raise Fail('building the analysis driver failed:\n' + r.stdout[-3000:])
    return exe


def dump(name='harness', features=None):
    """type-check the harness crate against /repo and dump the monomorphic MIR of its roots"""
    exe = driver()
    with Lock('dump-' + name):
        src = os.path.join(HERE, name)
        dst = os.path.join(BUILD, 'src-' + name)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst)
        ct = os.path.join(dst, 'Cargo.toml')
        s = open(ct).read().replace('"/repo"', json.dumps(REPO))
        open(ct, 'w').write(s)
        lib = os.path.join(dst, 'src', 'lib.rs')
        s = open(lib).read().replace('"../../streams/', '"%s/streams/' % HERE)
        open(lib, 'w').write(s)
        tgt = os.path.join(BUILD, 't-' + name)
        # never trust cargo's freshness tests
        shutil.rmtree(tgt, ignore_errors=True)
        out = os.path.join(BUILD, name + '.json')
        if os.path.exists(out):
            os.remove(out)
        r = sh(['cargo', 'check', '--offline', '--target-dir', tgt],
               {'RUSTUP_TOOLCHAIN': 'nightly', 'LD_LIBRARY_PATH': sysroot() + '/lib', 'VMIR_CRATE': name, 'VMIR_OUT': out,
                'VMIR_STOP': os.path.join(HERE, 'stop.txt'), 'VMIR_SHIMS': os.path.join(HERE, 'shims.txt'), 'RUSTC_WORKSPACE_WRAPPER': exe,
                'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings'}, dst)
        if r.returncode or not os.path.exists(out):
            raise Fail('the harness does not type-check against %s:\n%s' % (REPO, r.stdout[-6000:]))
        from absint import Prog
        return Prog(out)


# ------------------------------------------------------------------------------------------- engine
PROG = {}


def run_root(job):
    prog, name, limit = job
    import absint
    import model
    import specs
    P = PROG[prog]
    sp = spec_of(prog, name)
    if prog != 'harness':
        import lin
        it = lin.interp(P, sp, budget=sp.budget, deadline=time.time() + limit)
    else:
        it = absint.Interp(P, model.models_for(sp), model.World(sp), budget=sp.budget, deadline=time.time() + limit)
    it.ret_kinds = set()
    it.graph = {}
    if prog == 'harness':
        it.recur = model.recursion(sp)
        it.binop_hook = model.dist_hook
    inc = None
    t = time.time()
    try:
        if 'roots::' + name not in P.roots:
            raise Fail('root %s is missing from the dump' % name)
        it.run(P.roots['roots::' + name])
    except absint.Budget:
        inc = 'state budget or time limit reached'
    except Exception:
        return {'root': name, 'crash': traceback.format_exc()}
    vs = []
    for key, (msg, ev, stk) in it.violations.items():
        rule, resumed, round2 = key if isinstance(key, tuple) else (key, False, False)
        vs.append({'root': name, 'rule': rule, 'resumed': resumed, 'round2': round2, 'msg': msg,
                   'path': [' '.join(str(x) for x in e) for e in ev], 'stack': stk})
    def lost(rule, msg, node):
        fr, tr = it.nodes[node]
        fn = next((P.insts[i]['path'] for i in reversed(fr) if P.insts[i]['crate'] == 'combine'), '?')
        ev = []
        while tr:
            ev.append(tr[0])
            tr = tr[1]
        vs.append({'root': name, 'rule': '%s in %s' % (rule, fn), 'resumed': False, 'round2': False, 'msg': '%s (in %s)' % (msg, fn),
                   'path': [' '.join(str(x) for x in e) for e in ev[::-1]], 'stack': [P.insts[i]['name'] for i in fr]})
    comps = it.cycles()
    for c in comps[:3]:
        lost('no progress', 'the parser can run in a circle without consuming or producing anything', c[0])
    if 'depth' in it.imprecise and it.nodes:
        lost('unbounded recursion', 'calls nest without bound and without consuming input', max(it.nodes, key=lambda n: len(it.nodes[n][0])))
    edges = sum(map(len, it.graph.values()))
    fns = sorted({P.insts[i]['path'] for i in it.funcs if P.insts[i]['crate'] == 'combine'})
    cs = sum(1 for (i, b) in it.callsites if P.insts[i]['crate'] == 'combine')
    return {'prog': prog, 'root': name, 'states': it.nstates, 'steps': it.steps, 'fns': fns, 'callsites': cs, 'returns': sorted(map(str, it.ret_kinds)),
            'edges': edges, 'maybe': sorted({'%s: %s' % (k[0], k[1]) for k in it.panics if not k[2]}),
            'imprecise': it.imprecise, 'violations': vs, 'incomplete': inc, 'wall': round(time.time() - t, 2),
            'end': it.ends}


def spec_of(prog, name):
    if prog == 'harness':
        import specs
        return specs.SPECS[name]
    import lspecs
    return lspecs.L[name]


def roots_of(pid):
    import props
    import lspecs
    for roots, flt in props.ENGINE.get(pid, ()):
        for r in roots:
            yield 'harness', r, flt
    for roots, flt in props.LIN.get(pid, ()):
        for r in roots:
            yield lspecs.L[r].prog, r, flt


def engine(jobs, limit):
    """jobs: [(prog name, root)] -> results"""
    jobs = sorted(jobs, key=lambda j: -spec_of(*j).cost)
    with mp.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(run_root, [(a, b, limit) for a, b in jobs], chunksize=1)


def norm(s):
    return re.sub(r':\d+(:\d+)?\b', '', s)


def known():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import props
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': {}, 'assumptions': [], 'violations': 0}
    cov = ev['coverage']
    expl = []
    viol = []   # dicts: key, where, msg, detail
    want = {}
    for prog, r, flt in roots_of(pid):
        want.setdefault((prog, r), []).append(flt)
    if want:
        progs = sorted({p for p, _ in want})
        for p in progs:
            PROG[p] = dump(p)
        res = engine(list(want), 700 if tier == 'thorough' else 400)
        lost = [r for r in res if 'crash' in r]
        res = [r for r in res if 'crash' not in r]
        if not res:
            raise Fail('analysis of %s failed:\n%s' % (lost[0]['root'], lost[0]['crash']))
        undecided = ['%s: the analysis does not handle this code: %s' % (r['root'], r['crash'].strip().split('\n')[-1]) for r in lost]
        fns = sorted({f for r in res for f in r['fns']})
        cov.update({
            'combinator_instances' if progs == ['harness'] else 'analysed_roots': len(res), 'abstract_states': sum(r['states'] for r in res),
            'transfer_steps': sum(r['steps'] for r in res), 'functions_analysed': len(fns),
            'call_sites': sum(r['callsites'] for r in res),
            'incomplete': undecided,
            'imprecision': {r['root']: r['imprecise'] for r in res if r['imprecise']},
            'samples': [{'root': r['root'], 'states': r['states'], 'outcomes': r['returns'][:12]} for r in res],
            'panic_sites_excluded_only_by_assumption': sorted({m for r in res for m in r['maybe']}),
            'edges_without_progress': sum(r['edges'] for r in res),
            'functions': fns})
        if 'harness' in progs:
            expl.append('typestate/dataflow fixpoint over the monomorphic MIR of the listed functions, each combinator instantiated with '
                        'arbitrary child parsers, stream, values and errors (modelled by contract); every abstract path is compared with the '
                        'specification automaton of the combinator')
        if 'streams' in progs or 'incr' in progs:
            expl.append('event and label dataflow fixpoint over the monomorphic MIR of the listed functions: everything from outside is an '
                        'uninterpreted label, numbers are linear forms over input positions, and on every abstract path the order, the '
                        'arguments and the use of the results of outside calls are compared with the rule of the operation')
        for r in res:
            for v in r['violations']:
                if any(f(v) for f in want[r['prog'], r['root']]):
                    viol.append({'key': norm('%s/%s%s%s' % (v['root'], v['rule'], '/resumed' if v['resumed'] else '', '/again' if v['round2'] else '')).replace(' ', '_'),
                                 'msg': '%s: %s' % (v['root'], v['msg']), 'detail': v})
            if r['incomplete']:
                undecided.append('%s: %s' % (r['root'], r['incomplete']))
            elif not r['violations'] and not r['returns'] and not r['end']:
                if not r['imprecise']:
                    raise Fail('the analysis of %s reached no result (vacuous)' % r['root'])
                undecided.append('%s: nothing decided (%s)' % (r['root'], ', '.join(r['imprecise'])))
        for u in undecided:
            print('  NOT DECIDED ' + u[:200])
    for fn in props.CUSTOM.get(pid, ()):
        c, e, vs, asm = fn(REPO, BUILD, tier, sys.modules[__name__])
        for k, x in c.items():
            cov[k] = x
        expl.append(e)
        viol.extend(vs)
        ev['assumptions'] += asm
    cov['explanation'] = '; '.join(expl)
    ev['assumptions'] += props.ASSUME.get(pid, [])
    kn = {k: (p, w) for p, k, w in known() if p == pid}
    bad = []
    seenk = set()
    for v in viol:
        if v['key'] in kn:
            if v['key'] not in seenk:
                print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']][1]))
            seenk.add(v['key'])
        else:
            bad.append(v)
    ev['violations'] = len(bad)
    ev['wall_s'] = round(time.time() - t0, 2)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(edir, pid + '.violations.json')
    if bad:
        with open(rp, 'w') as f:
            json.dump(bad, f, indent=1)
        for v in bad[:30]:
            print('  ' + v['msg'])
            if os.environ.get('VERIF_VERBOSE'):
                print('      ' + ' ; '.join(v['detail'].get('path', [])[:60]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print('ok property=%s (%.1f s)' % (pid, time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Fail as e:
        print('ERROR: %s' % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
