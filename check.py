#!/usr/bin/env python3
"""check.py PROPERTY... [--thorough]   decides properties on the current sources in /repo

exit status: 0 the property holds, 1 violations (VIOLATION lines), 2 no answer"""
import json
import os
import pickle
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('DW_REPO', '/repo')


def known():
    out = {}
    fixed = []
    with open(os.path.join(HERE, 'known_findings.txt')) as f:
        for line in f:
            line = line.strip()
            if line.startswith('known: property='):
                head, key = line[len('known: property='):].split(' ', 1)
                out.setdefault(head, set()).add(key.split(' -- ')[0].strip())
            elif line.startswith('fixed: '):
                fixed.append(line)
    return out


class Result:
    def __init__(self):
        self.bad, self.obl, self.roots, self.paths, self.notes = {}, {}, {}, 0, []

    def take(self, rep, ex):
        for k, v in rep.bad.items():
            self.bad.setdefault(k, v)
        for k, v in rep.obl.items():
            self.obl[k] = self.obl.get(k, 0) + len(v)
        for r in rep.roots:
            self.roots[r] = sum(1 for n, i in rep.paths if n == r)
        self.paths += len(rep.paths)

    def add(self, o):
        for k, v in o.bad.items():
            self.bad.setdefault(k, v)
        for k, v in o.obl.items():
            self.obl[k] = self.obl.get(k, 0) + v
        self.roots.update(o.roots)
        self.paths += o.paths
        self.notes += o.notes


def run_rules(ex, rules, root, res):
    from dw.rules import Report, Ctx, Missing
    for f in rules:
        rep = Report(ex)
        try:
            f(Ctx(ex, rep), *([root] if root else []))
        except Missing as e:
            rep.violation(root.name if root else f.__name__, str(e))
        res.take(rep, ex)


def attempt(ex, root=None):
    """a function that cannot be analysed is reported, it is never taken to be right"""
    from dw.absint import AnalysisError
    try:
        ex.examine(root) if root else ex.prepare()
    except AnalysisError:
        if not ex.undecided:
            raise


def net_checks(mod, props, thorough):
    from dw.net import Net
    from dw.registry import NET
    out = {p: Result() for p in props}
    ex = Net(mod)
    attempt(ex)
    if ex.undecided:
        for p in props:
            out[p].bad.update(ex.undecided)
        return out
    for r in ex.roots:
        if r.how == 'api':
            attempt(ex, r)
    kids = []
    for r in ex.threads:
        todo = {p: NET[p][1].get(r.cls, []) for p in props}
        todo = {p: f for p, f in todo.items() if f}
        if not todo:
            continue
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                attempt(ex, r)
                part = {}
                for p, fs in todo.items():
                    part[p] = Result()
                    if not ex.undecided:
                        run_rules(ex, fs, r, part[p])
                    part[p].bad.update(ex.undecided)
                    part[p].notes.append('%s: %d histories, %d events, %.1f s' % (r.name, len(r.paths), len(ex.nodes), ex.spent.get(r.name, 0)))
                blob = pickle.dumps(('ok', part))
            except BaseException:
                blob = pickle.dumps(('error', '%s: %s' % (r.name, traceback.format_exc())))
            with os.fdopen(wr, 'wb') as f:
                f.write(blob)
            os._exit(0)
        os.close(wr)
        kids.append((pid, rd, todo))
    for p in props:
        if not ex.undecided:
            run_rules(ex, NET[p][0], None, out[p])
        out[p].bad.update(ex.undecided)
        for c, fs in NET[p][1].items():
            if not any(t.cls == c for t in ex.threads):
                out[p].bad[(c, 'no thread is started by this class')] = (c, ())
    for pid, rd, todo in kids:
        with os.fdopen(rd, 'rb') as f:
            blob = f.read()
        os.waitpid(pid, 0)
        kind, part = pickle.loads(blob)
        if kind == 'error':
            raise RuntimeError(part)
        for p, r in part.items():
            out[p].add(r)
    return out


def main():
    thorough = '--thorough' in sys.argv
    props = [a for a in sys.argv[1:] if not a.startswith('-')]
    from dw.registry import NET, claimed
    if props == ['all']:
        props = claimed()
    tier = 'thorough' if thorough else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from dw import frontend
    mod, info = frontend.build(REPO)
    res = {}
    net = [p for p in props if p in NET]
    if net:
        res.update(net_checks(mod, net, thorough))
    other = [p for p in props if p not in NET]
    if other:
        from dw import codecrules
        res.update(codecrules.checks(mod, other, thorough))
    listed = known()
    status = 0
    evdir = os.environ.get('DW_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for p in props:
        r = res[p]
        n = sum(r.obl.values())
        if not n and not r.bad:
            print('%s: the rule was not applied to anything' % p, file=sys.stderr)
            status = max(status, 2)
            continue
        viol, shown = [], []
        for (fn, msg), (at, chain) in sorted(r.bad.items(), key=str):
            key = '%s: %s' % (fn.replace('DowowNetwork::', ''), msg)
            if key in listed.get(p, ()):
                shown.append(key)
            else:
                viol.append((key, at, chain))
        for k in shown:
            print('KNOWN-FINDING: property=%s %s' % (p, k))
        path = os.path.join(evdir, '%s.violations.txt' % p)
        if os.path.exists(path):
            os.unlink(path)
        if viol:
            with open(path, 'w') as f:
                f.write('property %s is violated; to look again: python3 %s %s\n' % (p, os.path.join(HERE, 'check.py'), p))
                for key, at, chain in viol:
                    f.write('\n%s\n  at %s\n  reached through %s\n' % (key, at, chain))
            for key, at, chain in viol:
                print('%s: at %s: %s' % (p, at, key.split(': ', 1)[1]))
            print('VIOLATION property=%s replay=%s' % (p, path), flush=True)
            status = max(status, 1) if status != 2 else 1
        ev = {'property': p, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(time.time() - t0, 2),
              'violations': len(viol),
              'coverage': {
                  'explanation': 'Static analysis of the LLVM IR compiled from /repo in this run (%d functions of %d source files): '
                                 'every path of the listed functions is interpreted abstractly, under interference of all other threads, '
                                 'and the rule is decided on every resulting history.' % (info['functions'], len(info['sources'])),
                  'histories_examined': r.paths, 'histories_per_function': r.roots, 'instances_per_obligation': r.obl,
                  'instances': n, 'instances_violated': len(r.bad), 'known_findings': shown, 'notes': r.notes},
              'assumptions': ASSUME}
        with open(os.path.join(evdir, p + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not viol:
            print('%s: holds (%d instances of %d obligations on %d histories, %.0f s)' % (p, n, len(r.obl), r.paths, time.time() - t0))
    return status


ASSUME = [
    'the models of libc and libstdc++ functions in dw/models.py (containers, strings, mutexes, system calls) describe them correctly',
    'operator new does not fail',
    'user-supplied handlers use connections and servers only through their public interface',
]

if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
