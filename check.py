#!/usr/bin/env python3
"""Entry point of every check:  check.py <PROPERTY-ID> [--tier quick|thorough]

Extracts typed MIR facts from /repo's current sources (cached by content hash), runs the static rules of
the property and writes evidence/<id>.json.  Exit 0: the property holds on everything analysed
(known findings are printed); exit 1: VIOLATION."""
import sys, os, json, time, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.path.insert(0, V)
sys.setrecursionlimit(100000)
import threading
threading.stack_size(512 * 1024 * 1024)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.findings = []      # (key, message, where)
        self.notes = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            import extract, facts
            d = extract.ensure()
            self._prog = facts.load(d)
        return self._prog

    def ob(self, key, good, msg='', where=''):
        """one obligation: holds or becomes a finding"""
        self.obligations += 1
        if good:
            self.discharged += 1
            if len(self.samples) < 40:
                self.samples.append(key)
        else:
            self.fail(key, msg, where)
        return good

    def fail(self, key, msg, where=''):
        if not any(k == key for k, _, _ in self.findings):
            self.findings.append((key, msg, where))

    def need(self, cond, key, msg):
        """an anchor the rule depends on; its absence is a violation (fail closed)"""
        if not cond:
            self.fail('anchor:' + key, 'construct the rule is anchored in was not found: ' + msg)
        return cond

    def body(self, path, key=None):
        b = self.prog.bodies.get(path)
        if b is None:
            t = self.prog.tainted.get(path)
            self.fail('anchor:' + (key or path), 'function %s %s' % (path, 'does not type-check' if t else 'not found'))
        return b

    def note(self, k, v):
        self.notes[k] = v

    def floor(self, what, n, least):
        self.note(what, n)
        self.need(n >= least, 'floor:' + what, '%s: %d analysed, at least %d expected' % (what, n, least))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module('rules.' + pid.lower())
    try:
        mod.check(ctx)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = tb[-1]
        ctx.fail('undecided:%s:%s' % (type(e).__name__, fr.name),
                 'the analysis could not decide the property on this source (%s: %s)' % (type(e).__name__, str(e)[:300]),
                 ''.join(traceback.format_exception(e))[-2000:])
    known = {}
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf):
        for k in json.load(open(kf))['findings']:
            if k['property'] == pid:
                known[k['key']] = k
    viol = []
    for key, msg, where in ctx.findings:
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key]['what']))
        else:
            viol.append((key, msg, where))
    wall = time.time() - t0
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    cov = {
        'explanation': mod.__doc__.strip() if mod.__doc__ else '',
        'rule': getattr(mod, 'RULE', ''),
        'obligations': ctx.obligations,
        'discharged': ctx.discharged,
        'known_findings': len(ctx.findings) - len(viol),
        'bodies_in_program': len(ctx._prog.bodies) if ctx._prog else 0,
        'tainted_bodies': len(ctx._prog.tainted) if ctx._prog else 0,
        'sample_obligations': ctx.samples,
    }
    cov.update(ctx.notes)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2),
          'violations': len(viol)}
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if viol:
        rp = os.path.join(V, 'evidence', pid + '.replay.txt')
        with open(rp, 'w') as f:
            for key, msg, where in viol:
                f.write('%s\n  %s\n  %s\n' % (key, msg, where))
        for key, msg, where in viol[:20]:
            print('  [%s] %s %s' % (key, msg[:400], ('at ' + where.strip().splitlines()[-1][:200]) if where.strip() else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK %s: %d obligations hold (%.1fs)' % (pid, ctx.obligations, wall))
    return 0


if __name__ == '__main__':
    rc = []
    def run():
        try:
            rc.append(main())
        except SystemExit as e:
            rc.append(e.code)
        except BaseException:
            traceback.print_exc()
            pid = sys.argv[1]
            rp = os.path.join(V, 'evidence', pid + '.replay.txt')
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, 'w').write(traceback.format_exc())
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc.append(1)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc and isinstance(rc[0], int) else 1)
