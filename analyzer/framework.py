"""Rule harness: obligations, violations, evidence, known findings."""
import importlib, json, os, sys, time, traceback
from irlib import AnalysisBroken, Program, REPO
from flow import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Report:
    def __init__(self, pid, prog):
        self.pid = pid
        self.prog = prog
        self.rules = {}          # rule -> dict(text, obligations, sites[])
        self.viol = []
        self.fns = set()
        self.cur = None

    def rule(self, rid, text):
        self.cur = rid
        self.rules.setdefault(rid, {'text': text, 'obligations': 0, 'discharged': 0, 'sites': []})

    def saw(self, fn):
        self.fns.add(getattr(fn, 'name', fn))
        self.last = fn

    def ok(self, site, n=1):
        r = self.rules[self.cur]
        r['obligations'] += n
        r['discharged'] += n
        if len(r['sites']) < 60:
            r['sites'].append(site)

    def bad(self, fn, where, msg, trace=()):
        r = self.rules[self.cur]
        r['obligations'] += 1
        name = getattr(fn, 'name', fn)
        key = '%s/%s' % (self.cur, name)
        v = {'rule': self.cur, 'rule_text': r['text'], 'function': name, 'where': where, 'message': msg,
             'path': list(trace), 'key': key}
        for o in self.viol:
            if o['key'] == key and o['message'] == msg:
                return
        self.viol.append(v)

    def check(self, cond, fn, where, msg, site=None, trace=()):
        if cond:
            self.ok(site or '%s: %s' % (getattr(fn, 'name', fn), where))
        else:
            self.bad(fn, where, msg, trace)
        return bool(cond)

    def floor(self, n, least, what, must=False):
        """the analysis is only meaningful if it found the constructs it is about; what the property promises is missing when there is
        none of them at all (or, with must, fewer than the parts of the program that need one)"""
        if n < least and not self.viol:
            if n and not must:
                raise AnalysisBroken('%s: found %d %s, expected at least %d' % (self.cur, n, what, least))
            fn = getattr(self, 'last', None) or '(program)'
            where = next((i.where() for i in fn.instrs() if i.dbg is not None), '?') if hasattr(fn, 'instrs') else '?'
            self.bad(fn, where, 'what this rule asks for is not done anywhere: %s %s' % (n or 'no', what))


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                rest = ln[len('finding: property=%s ' % pid):]
                key, _, what = rest.partition(' ')
                if key.startswith('key='):
                    out[key[4:]] = what
    return out


def analyse(pid, prog=None):
    prog = prog or Program()
    R = Report(pid, prog)
    mod = importlib.import_module('rules.' + pid.lower())
    broken = None
    for f in mod.RULES:
        try:
            f(R)
        except AnalysisBroken as e:
            broken = broken or e
        except Exception as e:
            traceback.print_exc()
            broken = broken or AnalysisBroken('%s: internal error %r' % (getattr(f, '__name__', '?'), e))
    return R, broken, mod


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    except ValueError:
        seed = 0
    os.makedirs(EVID, exist_ok=True)
    try:
        R, broken, mod = analyse(pid)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    kn = known(pid)
    fresh = [v for v in R.viol if v['key'] not in kn]
    old = [v for v in R.viol if v['key'] in kn]
    for v in old:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, v['key'], v['where'], v['message']))
    rep = os.path.join(EVID, pid + '.report.txt')
    with open(rep, 'w') as f:
        for v in R.viol:
            f.write('property %s  rule %s\n  rule: %s\n  function: %s\n  at: %s\n  %s\n' % (
                pid, v['rule'], v['rule_text'], v['function'], v['where'], v['message']))
            if v['path']:
                f.write('  path:\n' + ''.join('    %s\n' % x for x in v['path']))
            f.write('\n')
    obl = sum(r['obligations'] for r in R.rules.values())
    dis = sum(r['discharged'] for r in R.rules.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static dataflow/typestate/effect rules over the LLVM IR of the current sources of %s '
                           '(clang lowers every library unit, nothing is run). Each obligation is one program '
                           'construct or control-flow path to which a rule applied.' % REPO,
            'functions_analysed': len(R.fns),
            'functions': sorted(R.fns),
            'functions_in_program': len(R.prog.names),
            'obligations': obl,
            'obligations_discharged': dis,
            'rules_applied': len(R.rules),
            'rules': R.rules,
            'known_findings': len(old),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', [
            'the x86-64 Linux configuration the build uses (USE_ASSEMBLY, USE_DEBUG, no TLS)',
            'clang\'s lowering of the sources agrees with gcc\'s on the constructs examined']),
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    if fresh:
        for v in fresh[:20]:
            print('%s: [%s] %s: %s' % (v['where'], v['rule'], v['function'], v['message']))
        if len(fresh) > 20:
            print('... %d more in %s' % (len(fresh) - 20, rep))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    if broken is not None:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, broken))
        return 2
    print('OK property=%s rules=%d obligations=%d functions=%d' % (pid, len(R.rules), obl, len(R.fns)))
    return 0
