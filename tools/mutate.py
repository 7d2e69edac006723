#!/usr/bin/env python3
"""Mutation sweep: random small edits of /repo/src in scratch copies, judged by the quick checks.
usage: mutate.py SEED COUNT WORKERS [file-prefix...]   (results: /tmp/mut/log.jsonl)
Survivors are read by hand: equivalent, outside every property, or a gap to close."""
import sys, os, re, random, subprocess, json, shutil, threading, queue, time
MAP = [
 ('src/ubigint/arith/div', ['C02']), ('src/ubigint/arith/rem', ['C02']), ('src/ubigint/arith', ['C01']),
 ('src/ubigint/comp', ['C05']), ('src/ubigint/convert/', ['C07', 'C19']), ('src/ubigint/convert.rs', ['C06', 'C07']),
 ('src/ubigint/funcs/shift', ['C12']), ('src/ubigint/funcs/', ['C11']), ('src/ubigint/funcs.rs', ['C08', 'C10', 'C35', 'C09']),
 ('src/ubigint.rs', ['C12', 'C05', 'C01']),
 ('src/bigint/arith', ['C03']), ('src/bigint/comp', ['C05']), ('src/bigint/convert/', ['C07', 'C19']), ('src/bigint/convert.rs', ['C06', 'C07']),
 ('src/bigint/funcs', ['C12', 'C08', 'C11', 'C03', 'C35']), ('src/bigint.rs', ['C03', 'C12', 'C05']),
 ('src/ratio/arith', ['C13']), ('src/ratio/comp', ['C15']), ('src/ratio/convert/ieee754', ['C19']),
 ('src/ratio/convert/', ['C13', 'C16', 'C17', 'C19', 'C07']), ('src/ratio/convert.rs', ['C17', 'C18', 'C13']),
 ('src/ratio/funcs.rs', ['C16', 'C13', 'C35']), ('src/ratio/funcs/trigo', ['C23']), ('src/ratio/funcs/atrigo', ['C23']),
 ('src/ratio/funcs/', ['C22']), ('src/ratio/', ['C21']), ('src/ratio.rs', ['C13', 'C20', 'C15', 'C16']),
 ('src/matrix/det', ['C25']), ('src/matrix/inv', ['C25']), ('src/matrix/utils', ['C25']), ('src/matrix', ['C24', 'C25', 'C35']),
 ('src/poly/from', ['C27']), ('src/poly', ['C26']), ('src/complex', ['C28']),
 ('src/fp192/arith/pow', ['C33']), ('src/fp192/arith', ['C30']), ('src/fp192/comp', ['C31']), ('src/fp192/consts', ['C31']),
 ('src/fp192/convert/', ['C32']), ('src/fp192/convert.rs', ['C29']), ('src/fp192/funcs.rs', ['C31']),
 ('src/fp192/funcs/trigo', ['C34']), ('src/fp192/funcs/atrigo', ['C34']), ('src/fp192/funcs/', ['C33']), ('src/fp192.rs', ['C31', 'C30']),
 ('src/consts', ['C21', 'C22', 'C23']), ('src/utils', ['C01', 'C08']), ('src/impl_macros', ['C07', 'C16']), ('src/err', ['C07', 'C24']),
]
SUBS = [
 (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r' % ', ' / '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
 (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' >> ', ' << '), (r' << ', ' >> '), (r' \| ', ' & '), (r' & ', ' | '),
 (r' \+= ', ' -= '), (r' -= ', ' += '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'(?<![\w.])!(?=[\w(])', ''),
 (r'\.add\(', '.sub('), (r'\.sub\(', '.add('), (r'\.add_mut\(', '.sub_mut('), (r'\.sub_mut\(', '.add_mut('), (r'\.mul\(', '.add('), (r'\.lt\(', '.leq('), (r'\.gt\(', '.geq('),
 (r'\.leq\(', '.lt('), (r'\.geq\(', '.gt('), (r'\.is_neg\(\)', '.is_zero()'), (r'\.is_zero\(\)', '.is_one()'), (r'\bnumer\b', 'denom'), (r'\bdenom\b', 'numer'),
 (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'Ordering::Less\b', 'Ordering::Equal'), (r'Ordering::Greater\b', 'Ordering::Less'),
 (r'\.rows\b', '.cols'), (r'\.cols\b', '.rows'), (r'\.unsigned_abs\(\)', '.abs() as _'), (r'\.0\[0\]', '.0[1]'), (r'_mut\(', '('),
]
def sites():
    out = []
    for root, _, fs in os.walk('/repo/src'):
        for f in fs:
            p = os.path.join(root, f); rel = p[len('/repo/'):]
            if 'testbench' in rel or rel.endswith('lib.rs'): continue
            depth_skip = 0
            lines = open(p).read().split('\n')
            i = 0; skip_until = None
            while i < len(lines):
                l = lines[i]
                if '#[cfg(test)]' in l:
                    # skip the item: same line, or the block that follows
                    j = i; txt = l[l.index('#[cfg(test)]') + 12:]
                    if not txt.strip():
                        j += 1
                        while lines[j].strip().startswith('#['): j += 1
                        txt = lines[j]
                    if '{' in txt:
                        bal = txt.count('{') - txt.count('}')
                        while bal > 0: j += 1; bal += lines[j].count('{') - lines[j].count('}')
                    i = j + 1; continue
                if l.strip().startswith('//') or l.strip().startswith('#') or not l.strip() or l.strip().startswith('use ') or 'panic!' in l: i += 1; continue
                code = l.split('//')[0]
                for a, b in SUBS:
                    for m in re.finditer(a, code): out.append((rel, i, m.start(), m.end(), b))
                for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(u64|u128|u32|i64|i128)?\b(?!\w)', code):
                    n = m.group(1).replace('_', '')
                    if n.isdigit(): out.append((rel, i, m.start(), m.end(), str(int(n) + random.choice([1, 1, -1])) + (m.group(2) or '')))
                if re.match(r'^\s+[\w.]+.*;\s*$', code) and not re.match(r'^\s+(let|return|use|mod|pub|type|const|break|continue)\b', code): out.append((rel, i, 0, len(l), ''))
                if re.match(r'^\s+(break|continue|return);\s*$', code): out.append((rel, i, 0, len(l), ''))
                i += 1
    return out
def props(rel):
    for a, b in MAP:
        if rel.startswith(a): return b
    return ['C01']
LOG = '/tmp/mut/log.jsonl'; lock = threading.Lock()
def work(k, q):
    w = f'/tmp/mut/w{k}'
    os.makedirs(w, exist_ok=True)
    subprocess.run(f'rm -rf {w}/repo {w}/verif/harness && mkdir -p {w}/repo {w}/verif && cp -r /repo/src /repo/Cargo.toml /repo/Cargo.lock {w}/repo/ && cp -r /verif/harness {w}/verif/ && sed "s#/repo#{w}/repo#g" /verif/run.sh > {w}/verif/run.sh && sed -i "s#/repo#{w}/repo#" {w}/verif/harness/Cargo.toml && sed -i "s#/repo#{w}/repo#" {w}/verif/harness/Cargo.lock', shell=True, check=True)
    cp = '/verif/known_findings.txt'
    if os.path.exists(cp): shutil.copy(cp, w + '/verif/')
    while True:
        try: rel, i, a, b, new = q.get_nowait()
        except queue.Empty: return
        p = f'{w}/repo/{rel}'; orig = open(p).read(); lines = orig.split('\n')
        old = lines[i]; lines[i] = old[:a] + new + old[b:]
        open(p, 'w').write('\n'.join(lines))
        res = dict(file=rel, line=i + 1, old=old.strip(), new=lines[i].strip(), t=0)
        t0 = time.time()
        try:
            for pr in props(rel):
                r = subprocess.run(['bash', 'run.sh', pr], cwd=w + '/verif', capture_output=True, text=True, timeout=900, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                if r.returncode == 1 and 'VIOLATION' in r.stdout: res['res'] = 'killed ' + pr; break
                if 'did not build' in r.stdout: res['res'] = 'nobuild'; break
                if r.returncode not in (0,): res['res'] = f'rc{r.returncode} {pr} {r.stdout[-300:]}'; break
            else: res['res'] = 'SURVIVED ' + ','.join(props(rel))
        except subprocess.TimeoutExpired: res['res'] = 'timeout'
        res['t'] = round(time.time() - t0)
        open(p, 'w').write(orig)
        with lock:
            open(LOG, 'a').write(json.dumps(res) + '\n')
if __name__ == '__main__':
    seed, count, workers = map(int, sys.argv[1:4]); pre = sys.argv[4:]
    random.seed(seed)
    s = [x for x in sites() if not pre or any(x[0].startswith(y) for y in pre)]
    done = set()
    if os.path.exists(LOG): done = {(d['file'], d['line'], d['new']) for d in map(json.loads, open(LOG))}
    # spread over files: choose a file weighted by sqrt of its sites
    byf = {}
    for x in s: byf.setdefault(x[0], []).append(x)
    for v in byf.values(): random.shuffle(v)
    q = queue.Queue(); n = 0; fs = sorted(byf)
    while n < count and any(byf.values()):
        f = random.choices(fs, [len(byf[f]) ** .5 if byf[f] else 0 for f in fs])[0]
        q.put(byf[f].pop()); n += 1
    print(len(s), 'sites', n, 'chosen', flush=True)
    ts = [threading.Thread(target=work, args=(k, q)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
