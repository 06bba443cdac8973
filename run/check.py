#!/usr/bin/env python3
"""Decides one property for the code that is now in /repo.

usage: check.py PROPERTY            (VERIF_SEED, VERIF_TIER in the environment)
       check.py --replay FILE       runs a recorded input on the real code again

The deciding step: the functions of /repo are extracted with their contracts spliced on, and
Verus has to discharge every obligation. Obligations that fail are replayed on the real code:
the search looks for an input on which the real code departs from the specification.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)
import campaign, cases
from props import PROPS, kind_of, TOTALITY

T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', CARGO_INCREMENTAL='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '') + ':/usr/local/bin:/usr/bin:/bin'
    e.pop('RUSTUP_TOOLCHAIN', None)
    e.pop('CARGO_TARGET_DIR', None)
    return e


def sh(cmd, cwd=None, timeout=600, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, timeout=timeout, **kw)


class Fail(Exception):
    """The check itself cannot run"""


def build_replay(scratch):
    """The real code, with the program that runs cases on it"""
    t = os.path.join(scratch, 'replay')
    p = sh(['cargo', 'build', '--offline', '--locked', '--manifest-path', VERIF + '/replay/Cargo.toml', '--target-dir', t])
    b = t + '/debug/replay'
    if p.returncode != 0 or not os.path.exists(b):
        return None, p.stderr.decode(errors='replace')[-3000:]
    return b, ''


def extractor(scratch):
    b = VERIF + '/build/extract/release/extract'
    src = [VERIF + '/extract/src/main.rs', VERIF + '/extract/src/rewrite.rs']
    if os.path.exists(b) and all(os.path.getmtime(b) >= os.path.getmtime(s) for s in src):
        return b
    t = os.path.join(scratch, 'extract')
    p = sh(['cargo', 'build', '--release', '--offline', '--locked', '--manifest-path', VERIF + '/extract/Cargo.toml', '--target-dir', t])
    if p.returncode != 0:
        raise Fail('the extractor does not build: ' + p.stderr.decode(errors='replace')[-2000:])
    return t + '/release/extract'


def expand(scratch):
    """The source of the crate after macro expansion (tests excluded by cfg)"""
    p = sh(['cargo', '+nightly', 'rustc', '--offline', '--locked', '-p', 'magmaflow', '--lib', '--manifest-path', VERIF + '/replay/Cargo.toml',
            '--target-dir', os.path.join(scratch, 'expand'), '--', '-Zunpretty=expanded'])
    if p.returncode != 0 or not p.stdout:
        raise Fail('the crate does not expand: ' + p.stderr.decode(errors='replace')[-2000:])
    f = os.path.join(scratch, 'expanded.rs')
    open(f, 'wb').write(p.stdout)
    return f


ALL = set(m for p in PROPS.values() for m in p['modules'])


def module_of(k):
    """The module that a function belongs to"""
    return k.split('::<')[0] if '::<' in k else k.split('#')[0].rsplit('::', 1)[0]


# functions that a user calls, or that the specifications of others refer to
ROOTS = re.compile(r' for |::read_module$|parser::validate$|::find_control_flow$|<Tool>|<MemoryBlock>|ExtInstSet::|MemoryBlockRead::|CoreRead::')

MODULE_RE = re.compile(r'/\*@fn (.*?)\*/')


class Proof:
    """Extraction and verification of the modules that a property needs"""

    def __init__(self, scratch, modules, mode='decode'):
        self.scratch, self.modules, self.mode = scratch, modules, mode
        self.external, self.undecided, self.failed = [], {}, []
        self.verified = self.errors = 0
        self.smt_ms = 0
        self.report = {}
        self.output = ''
        self.cmd = ''
        self.note = ''
        self.slow = []

    def run(self):
        try:
            self.go()
        except subprocess.TimeoutExpired:
            self.note = 'the verifier did not finish in time'
        except Fail as e:
            self.note = str(e)
        return self

    def go(self):
        s = self.scratch
        ex = extractor(s)
        src = expand(s)
        con = os.path.join(s, 'contracts.json')
        p = sh([sys.executable, VERIF + '/spec/gen.py', con, self.mode])
        if p.returncode != 0:
            raise Fail('contracts: ' + p.stderr.decode()[-2000:])
        base = json.load(open(con))
        base['binders'] = {k: v['binders'] for k, v in json.load(open(HERE + '/signatures.json')).items()}
        for attempt in range(8):
            base['external'] = self.external
            json.dump(base, open(con, 'w'))
            out, rep = os.path.join(s, 'verified.rs'), os.path.join(s, 'report.json')
            p = sh([ex, src, con, out, rep])
            if p.returncode != 0:
                raise Fail('extraction: ' + p.stderr.decode(errors='replace')[-2000:])
            self.report = json.load(open(rep))
            # copies and comparisons written by hand are part of every proof
            for k in self.report.get('manual', []):
                m = k.split('::<')[0]
                if m not in self.modules:
                    self.modules.append(m)
            bad = sorted(set(k for k, w in self.report['problems'] if k in self.report['functions'] and k not in self.external))
            # what the extractor could not carry over is taken out of the proof
            hard = [k for k in bad if any(a == k and not w.startswith('loop annotations') for a, w in self.report['problems'])]
            for k, w in self.report['problems']:
                self.undecided.setdefault(k, w)
            again = self.verus(out)
            if not again:
                return
            for k, w in again.items():
                self.undecided[k] = w
                self.external.append(k)
        self.note = self.note or 'the verifier rejects the extracted text'

    def verus(self, out):
        """Runs the verifier; returns functions to leave out, if it rejects the text"""
        cmd = ['verus', '--edition=2015', os.path.basename(out), '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '3', '--rlimit', '40']
        for m in self.modules:
            cmd += ['--verify-only-module', m]
        self.cmd = ' '.join(cmd)
        p = subprocess.run(cmd, cwd=self.scratch, env=env(), capture_output=True, timeout=700)
        err = p.stderr.decode(errors='replace')
        lines = open(out).read().split('\n')
        owner, cur = [None] * (len(lines) + 2), None
        for i, l in enumerate(lines, 1):
            m = MODULE_RE.search(l)
            if m:
                cur = m.group(1)
            owner[i] = cur
            if '/*@end*/' in l:
                cur = None
        diags = []
        for l in err.split('\n'):
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get('level') == 'error' and not d['message'].startswith('aborting due to'):
                    diags.append(d)
        res = {}
        try:
            js = json.loads(p.stdout.decode(errors='replace'))
            res = js.get('verification-results', {})
            t = js.get('times-ms', {}).get('smt', {})
            self.smt_ms = t.get('total', 0)
            fs = []
            for m in t.get('smt-run-module-times', []):
                for f in m.get('function-breakdown', []):
                    fs.append([f['time'], f['function']])
            self.slow = sorted(fs, reverse=True)[:5]
        except ValueError:
            pass
        self.output = '\n'.join(d.get('rendered') or d['message'] for d in diags)[:20000]
        ran = res.get('verified', 0) + res.get('errors', 0) > 0
        again, failed = {}, []
        canary = 0
        for d in diags:
            spans = [x for x in d['spans'] if x['file_name'].endswith(os.path.basename(out))]
            if any('CANARY' in lines[x['line_start'] - 1] for x in spans):
                canary += 1
                continue
            fn = None
            for x in sorted(spans, key=lambda x: not x['is_primary']):
                if owner[x['line_start']]:
                    fn = owner[x['line_start']]
                    break
            kind = kind_of(d['message'], [x.get('label') or '' for x in spans])
            text = ' '.join(lines[x['line_start'] - 1].strip()[:200] for x in spans if x['is_primary'])
            if kind is None and (not ran or res.get('encountered-vir-error')):
                if fn is None:
                    # a rejection outside of any function
                    self.note = 'the verifier rejects the extracted text: ' + d['message'][:300]
                else:
                    # one diagnostic may stand for several places
                    for x in spans if 'not supported' in d['message'] else []:
                        if owner[x['line_start']]:
                            again[owner[x['line_start']]] = 'the verifier does not accept it: ' + d['message'][:200]
                    again[fn] = 'the verifier does not accept it: ' + d['message'][:200]
            elif fn is not None or kind:
                failed.append({'function': fn, 'kind': kind or 'other', 'message': d['message'], 'obligation': text,
                               'labels': [x.get('label') for x in spans if x.get('label')], 'rendered': (d.get('rendered') or '')[:1500]})
        if not ran or res.get('encountered-vir-error'):
            if again:
                return again
            self.note = self.note or 'the verifier gave no result: ' + (self.output or err)[-600:]
            return {}
        self.note = ''
        self.verified, self.errors = res['verified'], res['errors'] - (1 if canary else 0)
        if not canary:
            self.note = 'VACUOUS: the assertion that must fail was accepted'
        self.failed = failed
        # a proof that goes through does not need the annotations of loops that are gone
        bad = {f['function'] for f in failed} | set(self.external)
        for k in [k for k, w in self.undecided.items() if w.startswith('loop annotations') and k not in bad]:
            del self.undecided[k]
        return {}


def scan_trusted(path):
    """Every assumption that the verified text makes"""
    t = open(path).read() if os.path.exists(path) else ''
    out = {}
    for pat, what in ((r'assume_specification[^\[]*\[\s*([^\]]+?)\s*\]', 'assumed specification of '), (r'axiom fn (\w+)', 'axiom '),
                      (r'uninterp spec fn (\w+)', 'uninterpreted '), (r'\badmit\(\)', 'admit'), (r'\bassume\(', 'assume')):
        for m in re.finditer(pat, t):
            out[what + (m.group(1) if m.groups() else '')] = 1
    n = 0
    for m in re.finditer(r'#\[verifier::external_body\]\s*(?:pub )?(?:fn|struct) (\w+)', t):
        if m.group(1) in ('clone', 'default', 'fmt'):
            n += 1
            continue
        out['external body ' + m.group(1)] = 1
    res = sorted(out)
    if n:
        res.append('%d external bodies of derived Clone and Default and of Display for primitive types' % n)
    return res


ASSUMPTIONS = [
    'Verus (%s) and the Z3 it drives are sound; rustc compiles the functions as Verus understands them' % 'verus 0.2026.09.13',
    'byteorder 0.5.3 reads 32-bit words in the byte order its name says (assumed contract)',
    'String::from_utf8 accepts exactly UTF-8 and keeps the text; Vec, String, HashMap, Rc, Box, Option and Result behave as vstd specifies (Option::or and u32::{to,from}_{le,be}_bytes, where the code uses them, as std documents)',
    'derived Clone, PartialEq and Default are structural (C17 verifies them, but for the equality of ControlFlowChain); derived Debug is not verified',
    'the macro expansion printed by rustc and its mechanical rewriting (DESIGN.md, "What the extraction changes") keep the meaning',
    'memory allocation does not fail and the machine stack is deep enough for the recursion',
    'instruction sets passed by the user keep the contract of ExtInstSet (deterministic, consume words from the front)',
]


def main():
    prop = sys.argv[1]
    if prop == '--replay':
        return replay(sys.argv[2])
    P = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop, dir='/tmp')
    try:
        return decide(prop, P, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    d = json.load(open(path))
    if 'case' not in d:
        print(d.get('verifier_output', ''))
        return 0
    scratch = tempfile.mkdtemp(prefix='verif_replay_', dir='/tmp')
    try:
        b, err = build_replay(scratch)
        c = (d['case']['sets'], d['case']['insert'], bytes.fromhex(d['case']['module_hex']))
        s, step, how = campaign.one(b, c)
        import oracle
        w = oracle.expect(c)
        for i, n in enumerate(('read', 'text', 'validate', 'control flow', 'tree', 'function')):
            got = s[i] if s else '%s in %s' % (how, step)
            print('%s %s\n  expected %s\n  observed %s' % ('same' if got == w.s[i] else 'DIFF', n, w.s[i], got))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 0


def decide(prop, P, scratch):
    proof = Proof(scratch, P['modules'] + ['vspec', 'canary'] + (['xfmt'] if P.get('mode') == 'text' else []), P.get('mode', 'decode'))
    th = threading.Thread(target=proof.run)
    th.start()
    binary, err = build_replay(scratch)
    camp = None
    found = False
    baseline = json.load(open(HERE + '/baseline.json'))
    if binary:
        camp = campaign.Campaign(binary, prop, cases.mine(REPO + '/src', baseline))
        found = camp.run(SEED, 1.0)
        if not found and TIER == 'thorough':
            for k in range(1, 9):
                found = camp.run(SEED * 1000 + k, 3.0, T0 + 420)
                if found:
                    break
    th.join()
    if proof.note.startswith('VACUOUS'):
        print(proof.note)
        return 2
    mine, other, lost = [], [], []
    core = P['core']
    sigs = json.load(open(HERE + '/signatures.json'))
    manual = proof.report.get('manual', [])
    for f in proof.failed:
        k = f['function']
        if k in manual and not P.get('copies') or k and k not in manual and re.search(r'::<(Clone|PartialEq|Default) for ', k):
            lost.append(f)  # derived ones are structural by construction: a proof that fails is the verifier's limit
        elif k is None or not any(re.search(c, k) for c in core) or (f['kind'] in TOTALITY) != P.get('total', False) and not P.get('both'):
            other.append(f)
        elif k in proof.undecided or f['kind'] in ('rlimit', 'other') or not anchored(k, proof, sigs):
            lost.append(f)
        else:
            mine.append(f)
    for k, w in proof.undecided.items():
        if any(re.search(c, k) for c in core):
            lost.append({'function': k, 'kind': 'undecided', 'message': w})
    # a private function that is gone: those that called it are verified without it
    gone = [k for k in proof.report.get('missing', []) if ROOTS.search(k)] + proof.report.get('missing_impls', [])
    # functions of other modules are the business of other properties, changed or not
    near = [k for k in proof.undecided if module_of(k) in proof.modules or module_of(k) not in ALL]
    clean = not proof.failed and not near and not proof.note and not gone
    # a proof that does not go through: look harder for an input that shows why
    if not clean and not found and camp:
        limit = time.time() + (90 if TIER == 'quick' else 240)
        if mine and prop in campaign.WIDE:
            camp.proj = campaign.WIDE[prop]
        # an own function that may panic: a panic is not the result that the property asks for
        own = [f for f in other if f['function'] and f['kind'] in TOTALITY and any(re.search(c, f['function']) for c in core)]
        campaign.PANICS[0] = bool(own or lost)
        if not mine and not lost and not own:
            limit = time.time() + 20
        k = 0
        while not found and time.time() < limit and k < 40:
            k += 1
            if mine and prop in campaign.WIDE:
                camp.proj = campaign.WIDE[prop] if k % 2 else None
            found = camp.run(SEED * 7919 + k, 2.0, limit)
    rc = 0
    rdir = VERIF + '/evidence/replay'
    rfile = '%s/%s.json' % (rdir, prop)
    if os.path.exists(rfile):
        os.remove(rfile)
    if found or mine:
        os.makedirs(rdir, exist_ok=True)
        failing = mine + [f for f in lost if f['kind'] not in ('undecided', 'rlimit')]
        rec = {'property': prop, 'failed_obligations': failing or other, 'verifier_output': proof.output}
        if found:
            c, d = camp.found
            c, d = campaign.minimise(binary, prop, c, d, camp.proj)
            rec['case'] = {'sets': c[0], 'insert': c[1], 'module_hex': c[2].hex()}
            rec['difference'] = d
            rec['how'] = 'python3 run/check.py --replay %s' % rfile
            print('input (instruction sets %d, insert %d): %s' % (c[0], c[1], c[2].hex()[:400]))
            print('%s\n  expected %s\n  observed %s' % (d['what'], str(d['expected'])[:400], str(d['observed'])[:400]))
        for f in failing[:5]:
            print('failed obligation: %s: %s: %s' % (f['function'], f['message'], f.get('obligation', '')[:200]))
        json.dump(rec, open(rfile, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s%s' % (prop, rfile, '' if found else ' no-failing-input-found'))
        rc = 1
    evidence(prop, P, proof, camp, clean, lost, other, rc, found)
    if rc == 0:
        if clean:
            print('%s: proved (%d obligations discharged in %s), %d inputs replayed' % (prop, proof.verified, ', '.join(P['modules']), camp.n if camp else 0))
        else:
            print('%s: held on everything explored; bounded: %d inputs replayed; %s' % (
                prop, camp.n if camp else 0, proof.note or '; '.join('%s: %s' % (f['function'], f['message'][:100]) for f in (lost + other)[:5]) or ('not found: ' + ', '.join(gone[:5]) if gone else 'undecided: ' + ', '.join(near[:5]))))
            if not camp:
                print('the replay program does not build: ' + err)
                return 2
    return rc


def anchored(k, proof, sigs):
    """The function still has the loops that its annotations were written for"""
    f = proof.report['functions'].get(k)
    s = sigs.get(k)
    if f is None:
        return False
    if s is None:
        return f.get('loops', 0) == 0
    if f.get('loops', 0) != s['loops'] or s['loops'] == 0:
        return f.get('loops', 0) == s['loops']
    # new names may come in between, but no new state for the loops to keep
    left = iter(f.get('binders', []))
    return f.get('muts') == s['muts'] and all(b in left for b in s['binders'])


def evidence(prop, P, proof, camp, clean, lost, other, rc, found):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    fns = proof.report.get('functions', {})
    core = [k for k in sorted(fns) if any(re.search(c, k) for c in P['core'])]
    undec = sorted(set(f['function'] for f in lost if f['function']))
    cov = {
        'obligations': proof.verified + max(proof.errors, len(proof.failed)),
        'discharged': proof.verified,
        'checker_cmd': proof.cmd,
        'trusted_base': scan_trusted(proof.scratch + '/verified.rs'),
        'back_end': 'Verus / Z3',
        'solver_ms': proof.smt_ms,
        'slowest_functions_ms': proof.slow,
        'functions_under_contract': len(fns),
        'functions_of_this_property': core,
        'modules_verified': P['modules'],
        'inlined_helpers': proof.report.get('without_contract', []),
        'contracts_without_code': proof.report.get('missing', []) + proof.report.get('missing_impls', []),
        'extraction_rewrites': proof.report.get('rewrites', {}),
        'undecided_functions': undec,
        'undecided_because': {k: str(w)[:200] for k, w in proof.undecided.items()},
        'failed_obligations': [{k: f[k] for k in ('function', 'kind', 'message')} for f in proof.failed][:20],
        'note': proof.note,
    }
    if camp:
        cov['replayed_inputs'] = {'evaluations': camp.n, 'distinct_nontrivial': len(camp.distinct), 'families': camp.fams,
                                  'rule': 'modules built from the tables and mutated; non-trivial: longer than a header; compared with the oracle computed from the specification tables',
                                  'role': 'cross-check of the trusted base, and the search for a failing input; not part of the proof'}
        cov['samples'] = camp.samples
    level = 'proof'
    if not clean and rc == 0:
        level = 'exploration'
        cov['evaluations'] = camp.n if camp else 0
        cov['distinct_nontrivial'] = len(camp.distinct) if camp else 0
        cov['rule'] = 'bounded stand-in for the functions listed as undecided: ' + (cov.get('replayed_inputs') or {}).get('rule', '')
    json.dump({'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ASSUMPTIONS,
               'wall_s': round(time.time() - T0, 1), 'violations': rc}, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Fail as e:
        print('the check cannot run: %s' % e)
        sys.exit(2)
