"""S26: what the type checker decides. The witness crate is type-checked against the source as it is:
every build configuration has to type-check, every use in `uses` has to, and every misuse in
`rejected` has to be refused with one of the error codes of its rule."""
import json
import os
import re
import shutil

FEATURES = ['alloc', 'std', 'bytes', 'bytes_05', 'regex', 'pin-project', 'tokio-02', 'tokio-03', 'tokio', 'futures-03', 'mp4']


def messages(out):
    for l in out.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error' and m['message']['spans']:
                yield m['message']


def spans(m):
    """every source place the diagnostic names, the innermost of macro expansions first"""
    out = []
    def walk(s, prim):
        e = s.get('expansion')
        out.append((s['file_name'], s['line_start'], prim))
        if e:
            walk(e['span'], prim)
    for s in sorted(m['spans'], key=lambda s: not s['is_primary']):
        walk(s, s['is_primary'])
    for c in m['children']:
        for s in c['spans']:
            walk(s, False)
    return out


def run(REPO, BUILD, tier, check):
    here = os.path.join(check.HERE, 'witness')
    with check.Lock('witness'):
        dst = os.path.join(BUILD, 'src-witness')
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(here, dst)
        ct = os.path.join(dst, 'Cargo.toml')
        s = open(ct).read().replace('"/repo"', json.dumps(REPO))
        open(ct, 'w').write(s)
        tgt = os.path.join(BUILD, 't-witness')
        shutil.rmtree(tgt, ignore_errors=True)
        return inner(REPO, dst, tgt, check)


def inner(REPO, dst, tgt, check):
    def cargo(features, cfgs=()):
        a = ['cargo', 'rustc', '--lib', '--profile=check', '--offline', '--no-default-features', '--features', ','.join(features), '--target-dir', tgt,
             '--message-format', 'json', '--', '-Awarnings']
        for c in cfgs:
            a += ['--cfg', c]
        r = check.sh(a, {'RUSTUP_TOOLCHAIN': 'nightly', 'RUSTFLAGS': '-Awarnings'}, dst)
        ms = list(messages(r.stdout))
        if r.returncode and not ms:
            raise check.Fail('cargo failed:\n' + r.stdout[-3000:])
        return ms
    def rel(f):
        for b in (REPO + '/', dst + '/'):
            if f.startswith(b):
                return (f[len(b):] if b == REPO + '/' else 'witness/' + f[len(b):])
        return 'witness/' + f if not f.startswith('/') else f
    viol = []
    def bad(key, msg, m):
        viol.append({'key': key.replace(' ', '_'), 'msg': msg, 'detail': {'path': ['%s:%d' % (rel(f), l) for f, l, p in spans(m)] if m else [],
                                                                            'rendered': m.get('rendered', '')[:3000] if m else ''}})
    def in_repo(m):
        return [(f, l) for f, l, p in spans(m) if rel(f) == f[len(REPO) + 1:] and f.startswith(REPO + '/')]
    # 1. every build
    builds = [[]] + [[f] for f in FEATURES] + [['futures-03', 'futures-io-std']]
    for b in builds:
        for m in cargo(b):
            pl = in_repo(m)
            where = '%s:%d' % (rel(pl[0][0]), pl[0][1]) if pl else '%s:%d' % (rel(m['spans'][0]['file_name']), m['spans'][0]['line_start'])
            bad('build/%s/%s/%s' % ('+'.join(b) or 'none', where.split(':')[0], m['message']),
                'combine does not build with %s: %s (%s)' % ('only the features ' + ', '.join(b) if b[1:] else 'only the feature ' + b[0] if b else 'no feature', m['message'], where), m)
    # 2. every use
    us = FEATURES + ['uses']
    text = open(os.path.join(dst, 'src', 'uses.rs')).read().split('\n')
    nuses = sum(1 for l in text if re.match(r'\s+\w+ = ', l)) + sum(l.count('<') for l in text if re.match(r'\s+(send|sync|clone|copy|error|all!|copies!)', l))
    for m in cargo(us):
        own = [(f, l) for f, l, p in spans(m) if f.endswith('uses.rs')]
        # the outermost expansion is the use itself
        prim = [(f, l) for f, l, p in spans(m) if p and f.endswith('uses.rs')]
        if not own and in_repo(m):
            raise check.Fail('combine does not build with all features: %s' % m['message'])
        f, l = (prim or own or [(m['spans'][0]['file_name'], m['spans'][0]['line_start'])])[-1]
        what = text[l - 1].strip() if f.endswith('uses.rs') else '%s:%d' % (rel(f), l)
        pl = in_repo(m)
        bad('uses/' + re.split(r'[ (:;<]', what)[0], 'not accepted: `%s`: %s%s' % (what[:100], m['message'], ' (because of %s)' % ', '.join(
            '%s:%d' % (rel(a), b) for a, b in pl[:3]) if pl else ''), m)
    # 3. every misuse
    text = open(os.path.join(dst, 'src', 'rejected.rs')).read().split('\n')
    cases = {}
    for i, l in enumerate(text):
        c = re.match(r'#\[cfg\(rejected = "(\w+)"\)\] //~ (.*)', l)
        if c:
            cases[c.group(1)] = (i + 2, c.group(2).split(), text[i + 1].strip())
    if not viol:
        ok = set()
        def take(ms, names):
            for m in ms:
                for f, l, p in spans(m):
                    for n in names:
                        if p and f.endswith('rejected.rs') and l == cases[n][0] and (m.get('code') or {}).get('code') in cases[n][1]:
                            ok.add(n)
        for borrow in (False, True):
            ns = [n for n in cases if ('E0277' in cases[n][1] or 'E0271' in cases[n][1]) != borrow]
            take(cargo(us, ['rejected'] + ['rejected="%s"' % n for n in ns]), ns)
        for n in cases:
            if n not in ok:
                ms = cargo(us, ['rejected', 'rejected="%s"' % n])
                take(ms, [n])
                if n not in ok:
                    bad('accepted/' + n, 'the type checker accepts a misuse (%s): `%s`%s' % (n.replace('_', ' '), cases[n][2][:120],
                        ' (fails otherwise: %s)' % ms[0]['message'] if ms else ''), ms[0] if ms else None)
    return ({'builds_type_checked': ['+'.join(b) or 'none' for b in builds], 'uses_type_checked': nuses, 'misuses_refused': len(cases) if not viol else 0,
             'rules': sorted(cases)},
            'type-level witnesses: the crate is type-checked without features, with each feature alone and with all; every listed use must be '
            'accepted by the type checker and every listed misuse refused with an error code of its rule', viol,
            ['the type checker of the installed nightly compiler is sound; the cached versions of the optional dependencies are used'])
