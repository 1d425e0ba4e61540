"""Runs the bounded native harness on several cores and merges what it says."""
import json, os, subprocess, sys, tempfile, threading, time, resource

def limit():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))

def run(binary, prop, seed, secs, procs=6, maxfails=1, trace_dir=None):
    end = time.time() + secs
    tot = dict(schemas=0, cases=0, valid=0, invalid=0, schema_verdicts=0, gave_up=0, slow=0, crashes=0)
    fails, samples, lock = [], [], threading.Lock()
    tmp = tempfile.mkdtemp(prefix='hrun')
    def worker(k):
        i = k
        prog = os.path.join(tmp, f'p{k}')
        while True:
            left = end - time.time()
            if left < 0.3 or len(fails) >= maxfails:
                return
            p = subprocess.run([binary, prop, str(seed), f'{left:.2f}', str(i), str(procs), prog, str(maxfails)],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limit)
            try:
                # the code under test writes to standard output too
                d = json.loads(p.stdout.decode('utf8', 'replace').rstrip('\n').split('\n')[-1])
            except Exception:
                # died: stack overflow, out of memory
                try:
                    i = int(open(prog).read())
                except Exception:
                    i += procs
                    continue
                c = crash(binary, prop, seed, i)
                with lock:
                    tot['crashes'] += 1
                    if c:
                        fails.append(c)
                i += procs
                continue
            with lock:
                for k2 in tot:
                    tot[k2] += d.get(k2, 0)
                fails.extend(d['fails'])
                samples.extend(d['samples'])
            i = d['next']
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(procs)]
    [t.start() for t in ts]; [t.join() for t in ts]
    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)
    fails.sort(key=lambda c: len(json.dumps(c)))
    return tot, fails, samples

def crash(binary, prop, seed, i):
    """the case that process was at when it died; only a stack overflow counts (memory is limited)"""
    env = dict(os.environ, H_TRACE='3')
    p = subprocess.run([binary, prop, str(seed), '2', str(i), '1000000', '/dev/null', '1'], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=limit)
    err = p.stderr.decode('utf8', 'replace')
    if 'overflowed its stack' not in err:
        return None
    last = None
    for l in err.split('\n'):
        if l.startswith('{"files"'):
            last = json.loads(l)
    if last:
        last['got'] = 'stack overflow'
    return last

if __name__ == '__main__':
    prop, seed, secs, mf = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    here = os.path.dirname(os.path.abspath(__file__))
    tot, fails, _ = run(os.path.join(here, '../harness/target/debug/h'), prop, seed, secs, maxfails=mf)
    print(prop, tot, 'fails', len(fails))
    for f in fails[:int(sys.argv[5]) if len(sys.argv) > 5 else 2]:
        for k, v in f['files'].items():
            print('---', k); print(v)
        print('DOC', f['doc']); print('want', f['want'], 'got', f['got'][:500])
