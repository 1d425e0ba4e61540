#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property: extracts the functions it depends on from /repo's current source, has Verus discharge
their contracts, and runs the bounded native harness beside it.  See DESIGN.md."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import hrun
REPO = '/repo'
CARGO = dict(os.environ, CARGO_NET_OFFLINE='true')
T0 = time.time()

def log(*a):
    print(f'[{time.time()-T0:6.1f}]', *a, flush=True)

def cargo(d, *args):
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', *args], cwd=os.path.join(HERE, d), env=CARGO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout

# ---------------------------------------------------------------------------------------------- deduction
class Unit:
    """one generated Verus file"""
    def __init__(self, name, prop, tier):
        self.name, self.prop = name, prop
        self.work = os.path.join(HERE, 'build', prop, name)
        os.makedirs(self.work, exist_ok=True)
        self.timeout = 420 if tier == 'thorough' else 300
        self.skip = []
        self.refuted, self.lost, self.lemma_errors, self.unclear = [], [], [], []
        self.fns, self.edits, self.times, self.obl, self.ok = [], [], {}, {}, False
        self.probe_bad = []
        self.probed, self.tier = None, tier

    def extract(self, out, probe='-', skip=None):
        rs, js = os.path.join(self.work, out + '.rs'), os.path.join(self.work, out + '.json')
        subprocess.run([os.path.join(HERE, 'vx/target/release/vx'), os.path.join(HERE, 'units', self.name + '.vrs'),
                        REPO, rs, js, probe, ','.join(self.skip if skip is None else skip)], check=True)
        return rs, json.load(open(js))

    def verus(self, rs, *extra):
        try:
            p = subprocess.run(['verus', rs, '--output-json', '--error-format=json', '--time-expanded', '--num-threads', '4',
                                *(() if '--multiple-errors' in extra else ('--multiple-errors', '5')), *extra],
                               cwd=self.work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=self.timeout, text=True)
        except subprocess.TimeoutExpired:
            return None, [], 'timeout'
        i = p.stdout.find('{')
        try:
            res = json.loads(p.stdout[i:])
        except Exception:
            res = {}
        diags, text = [], []
        for l in p.stderr.splitlines():
            if l.startswith('{'):
                try:
                    d = json.loads(l)
                except Exception:
                    continue
                text.append(d.get('rendered') or d.get('message', ''))
                if d.get('level') == 'error' and not d['message'].startswith('aborting due'):
                    diags.append(d)
            else:
                text.append(l)
        return res, diags, '\n'.join(text)

    def fid(self, f):
        return f['as'] or f['name']

    def owner(self, d, fns, base):
        """the extracted function that a diagnostic belongs to"""
        spans = sorted(d['spans'], key=lambda s: not s['is_primary'])
        for want in (True, False):
            for s in spans:
                if os.path.basename(s['file_name']) != base:
                    continue
                if want and s.get('line_end', 0) - s['line_start'] > 400:
                    continue
                for f in fns:
                    if f['start'] <= s['line_start'] <= f['end']:
                        return f
        return None

    def run(self):
        seen_text = []
        for attempt in range(7):
            rs, js = self.extract('unit')
            self.edits = js.get('edits', [])
            self.lost = js['lost']
            self.fns = js['fns']
            if not self.fns and js['lost']:
                return
            shutil.rmtree(os.path.join(self.work, 'air'), ignore_errors=True)
            res, diags, text = self.verus(rs, '--log', 'air', '--log-dir', 'air')
            self.text = text
            if res is None:
                self.lost.append(f'{self.name}: the verifier did not finish in {self.timeout} s')
                self.ok = False
                self.fns = [dict(f, skipped=True) for f in self.fns]
                return
            r = res.get('verification-results', {})
            hard = [d for d in diags if d.get('code') or r.get('encountered-vir-error') or 'verified' not in r or not is_obligation(d['message'])]
            hard = [d for d in hard if not is_limit(d['message'])]
            limit = [d for d in diags if is_limit(d['message'])]
            if not hard and not limit and not diags and r.get('success'):
                self.ok = True
                self.times = res.get('times-ms', {})
                break
            if hard or (limit and not [d for d in diags if is_obligation(d['message'])]):
                # text that the verifier cannot take in, or too hard for it: set that function aside
                new = []
                for d in hard or limit:
                    f = self.owner(d, self.fns, 'unit.rs')
                    if f and self.fid(f) not in self.skip and not f.get('skipped'):
                        new.append(self.fid(f))
                seen_text.append(text)
                if not new and not hard:
                    self.times = res.get('times-ms', {})
                    self.unclear += [(self.owner(d, self.fns, 'unit.rs'), d) for d in limit]
                    self.ok = True
                    break
                if not new:
                    self.lost.append(f'{self.name}: not accepted by the verifier: ' + (hard or limit or [{'message': text[:300]}])[0]['message'])
                    self.fns = [dict(f, skipped=True) for f in self.fns]
                    return
                self.skip += sorted(set(new))
                continue
            # failed obligations
            self.times = res.get('times-ms', {})
            for d in diags:
                f = self.owner(d, self.fns, 'unit.rs')
                if is_limit(d['message']):
                    self.unclear.append((f, d))
                elif f is None:
                    self.lemma_errors.append(d)
                else:
                    self.refuted.append((f, d))
            self.ok = not self.lemma_errors
            break
        self.count()

    def count(self):
        """obligations per function: the assertions in the verification conditions that Verus logs"""
        ld = os.path.join(self.work, 'air')
        self.obl = {}
        if os.path.isdir(ld):
            for f in os.listdir(ld):
                cur, inq = None, False
                for l in open(os.path.join(ld, f), errors='replace'):
                    if l.startswith(';; Function-'):
                        cur = l.split(' ', 2)[2].strip()
                    if l.startswith('(check-valid'):
                        inq = True
                    elif l.startswith('('):
                        inq = False
                    if inq and re.match(r'\s+\(assert\b', l):
                        self.obl[cur] = self.obl.get(cur, 0) + 1
        shutil.rmtree(ld, ignore_errors=True)

    def probe(self):
        """every function's assumptions must be consistent: an unprovable assertion at its start must fail"""
        skip = sorted(self.skip)
        if skip != self.probed:
            self.probed, self.probe_bad = skip, []
        else:
            return
        rs, js = self.extract('probe', 'probe', skip)
        res, diags, text = self.verus(rs, '--rlimit', '1' if self.tier == 'quick' else '5', '--multiple-errors', '0')
        if res is None or skip != sorted(self.skip):
            return
        hit = set()
        for d in diags:
            f = self.owner(d, js['fns'], 'probe.rs')
            if f:
                hit.add(self.fid(f))
        self.probe_bad = [self.fid(f) for f in js['fns'] if not f['skipped'] and self.fid(f) not in hit]

OBL = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
       'decreases not satisfied', 'possible arithmetic underflow/overflow', 'possible division by zero', 'recommendation not met',
       'could not prove termination', 'unable to prove', 'requires not satisfied', 'loop invariant', 'loop must have',
       'cannot show', 'possible bit', 'assertion requires', 'unwind')
def is_obligation(m):
    return any(o in m for o in OBL) or 'not satisfied' in m or 'failed' in m and 'assert' in m
def is_limit(m):
    return 'rlimit' in m or 'Resource limit' in m

def solver_ms(t):
    return t.get('smt', {}).get('smt-run', 0) if t else 0

# ---------------------------------------------------------------------------------------------- replay files
def write_case(prop, c, n):
    d = os.path.join(HERE, 'replay', prop, str(n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    names = [c['main']] + [f for f in c['files'] if f != c['main']]
    for k in names:
        f = os.path.join(d, k.lstrip('/'))
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, 'w').write(c['files'][k])
    open(os.path.join(d, 'files'), 'w').write('\n'.join(names) + '\n')
    open(os.path.join(d, 'want'), 'w').write(c['want'])
    if c.get('doc') is not None:
        open(os.path.join(d, 'doc'), 'w').write(c['doc'])
    p = os.path.join(d, 'replay.sh')
    open(p, 'w').write(f'#!/bin/sh\n# schema {names[0]} (and the files it includes), document "doc" if there is one\n'
                       f'# expected: {c["want"]}    the code said: {c["got"][:300]!r}\n'
                       'cd "$(dirname "$0")" && exec ' + os.path.join(HERE, 'harness/target/debug/h') + ' replay .\n')
    os.chmod(p, 0o755)
    return os.path.relpath(p, HERE)

def write_obligation(prop, n, unit, f, d):
    dd = os.path.join(HERE, 'replay', prop)
    os.makedirs(dd, exist_ok=True)
    p = os.path.join(dd, f'obligation-{n}.txt')
    open(p, 'w').write(f"failed obligation of {prop}: `{d['message']}` in function {f['name']} (source line {f['line']})\n"
                       f"unit {unit.name}; generated text: {unit.work}/unit.rs; back end: Verus/Z3\n\n{d.get('rendered')}\n")
    return os.path.relpath(p, HERE)

# ---------------------------------------------------------------------------------------------- findings
def known(prop, binary):
    """re-runs the recorded known findings; returns those that still fail"""
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    for l in open(path):
        m = re.match(r'finding: property=(\S+) dir=(\S+) (.*)', l)
        if m and m.group(1) == prop:
            p = subprocess.run([binary, 'replay', os.path.join(HERE, m.group(2))], stdout=subprocess.DEVNULL,
                               stderr=subprocess.DEVNULL, preexec_fn=hrun.limit)
            if p.returncode != 0:
                print(f'KNOWN-FINDING: property={prop} {m.group(3)}', flush=True)
                out.append(m.group(3))
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    claim = json.load(open(os.path.join(HERE, 'tools/claims.json')))[prop]
    evf = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evf), exist_ok=True)
    shutil.rmtree(os.path.join(HERE, 'replay', prop), ignore_errors=True)
    binary = os.path.join(HERE, 'harness/target/debug/h')
    ex = cf.ThreadPoolExecutor(12)
    fh = ex.submit(cargo, 'harness')
    okx, outx = cargo('vx', '--release')
    if not okx:
        print(outx)
        sys.exit(2)
    units = [Unit(u, prop, tier) for u in claim.get('units', [])]
    futs = [ex.submit(u.run) for u in units]
    first = [ex.submit(u.probe) for u in units]     # the vacuity probe runs beside the verification, and again if that set functions aside
    okh, outh = fh.result()
    if not okh:
        # /repo does not compile, or its interface changed
        print(outh[-3000:])
        log('the harness does not build against /repo')
    tot, fails, samples = {}, [], []
    kf = []
    secs = claim.get('secs', 25) if tier == 'quick' else claim.get('thorough_secs', 240)
    if okh:
        kf = known(prop, binary)
        log('bounded harness', secs, 's')
        tot, fails, samples = hrun.run(binary, prop, seed, secs, procs=6 if tier == 'quick' else 7, maxfails=1)
    for f in futs:
        f.result()
    [f.result() for f in first]
    probes = [ex.submit(u.probe) for u in units if u.fns]
    [f.result() for f in probes]

    refuted, lost, proved, under = [], [], [], []
    nobl = ndis = 0
    vac = []
    for u in units:
        lost += u.lost
        for d in u.lemma_errors:
            lost.append(f"{u.name}: lemma: {d['message']} " + ' '.join(f"line {s['line_start']}" for s in d['spans'][:1]))
        bad = {u.fid(f) for f, _ in u.refuted if f} | {u.fid(f) for f, _ in u.unclear if f}
        vac += [f'{u.name}::{n}' for n in u.probe_bad]
        for f, d in u.unclear:
            lost.append(f"{u.name}::{f['name'] if f else '?'}: {d['message']}")
        for f, d in u.refuted:
            if prop in f['props']:
                refuted.append((u, f, d))
        for f in u.fns:
            if prop not in f['props']:
                continue
            under.append(f"{f['name']} ({f['file']}:{f['line']})" + (' [contract assumed on this run]' if f['skipped'] else ''))
            if not f['skipped'] and u.fid(f) not in bad and u.ok and u.fid(f) not in u.probe_bad:
                proved.append(f['name'])
        for k, n in u.obl.items():
            nobl += n
        errs = len({json.dumps([s['line_start'] for s in d['spans']]) for _, d in u.refuted} ) + len(u.lemma_errors) + len(u.unclear)
        ndis += max(0, sum(u.obl.values()) - errs)
    for v in vac:
        lost.append(f'{v}: its assumptions are contradictory (vacuity probe)')
    anchored = sum(len([f for f in u.fns if prop in f['props']]) for u in units)

    if refuted and not fails and okh:
        log('obligation failed; searching for a failing input')
        for k in range(1, 4):
            t2, fails, _ = hrun.run(binary, prop, seed + 1000 * k, 30 if tier == 'quick' else 120, procs=7, maxfails=1)
            for a in t2:
                tot[a] = tot.get(a, 0) + t2[a]
            if fails:
                break

    viol = []
    for i, c in enumerate(fails[:3]):
        viol.append(f'VIOLATION property={prop} replay={write_case(prop, c, i)}')
    if refuted:
        for i, (u, f, d) in enumerate(refuted[:5]):
            p = write_obligation(prop, i, u, f, d)
            log(f"failed obligation: {d['message']} in {f['name']} ({p})")
            if not fails:
                viol.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
                break
    ev = dict(property=prop, tier=tier, seed=seed, level=claim['level'],
              coverage=dict(
                  obligations=nobl, discharged=ndis, checker_cmd=f'python3 check.py {prop} {tier}  (verus build/{prop}/<unit>/unit.rs)',
                  trusted_base=claim.get('trusted', []) + ['Verus 0.2026.09.13 and its vstd specifications of the standard library', 'Z3 (the back end that discharged every obligation)',
                                'rustc', 'vx: the extraction, whose edits are listed under extraction_edits'],
                  functions_under_contract=under, functions_proved=proved, back_end='Verus -> Z3',
                  solver_ms=sum(solver_ms(u.times) for u in units),
                  obligations_by_unit={u.name: sum(u.obl.values()) for u in units},
                  failed_obligations=[f"{f['name']}: {d['message']}" for _, f, d in refuted],
                  not_proved_on_this_run=lost, vacuity_probe='every function under contract fails an added `assert(false)`-like probe' if not vac else vac,
                  extraction_edits=sorted({e for u in units for e in u.edits}),
                  bounded=dict(what='native comparison of the real crates with an independent oracle on generated schemas and documents; bounded, not counted as proved',
                               seed=seed, **tot, rule=claim.get('rule', 'each case is a generated schema, with a document or without; valid and invalid documents and rejected schemas are all counted'), samples=samples[:3]),
                  evaluations=tot.get('cases', 0), distinct_nontrivial=tot.get('valid', 0) + tot.get('invalid', 0) + tot.get('schema_verdicts', 0),
                  rule=claim.get('rule', 'bounded part: cases whose expected verdict the oracle decided (valid, invalid, schema accepted, schema rejected); each has its own generated schema or document'),
                  samples=samples[:2] or ['(bounded harness did not run)']),
              assumptions=claim.get('assumptions', []) + (['functions set aside on this run, decided by the bounded harness only: ' + '; '.join(lost)] if lost else []),
              wall_s=round(time.time() - T0, 1), violations=len(viol), known_findings=kf)
    json.dump(ev, open(evf, 'w'), indent=1)
    for l in lost:
        log('not proved on this run (bounded check decides):', l)
    log(f'{len(proved)}/{anchored} functions proved, {ndis}/{nobl} obligations discharged; bounded: {tot}')
    for v in viol:
        print(v, flush=True)
    ex.shutdown(wait=False)
    sys.exit(1 if viol else 0)

main()
