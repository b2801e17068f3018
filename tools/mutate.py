#!/usr/bin/env python3
"""Mutation testing of the checks (never touches /repo or /verif).

usage: mutate.py DIR SEED COUNT [FILE-REGEX]
Makes DIR/repo and DIR/verif, then COUNT times: changes one place of the library,
runs the main configuration of the existing tests, and on the mutants these let through
runs the quick checks. DIR/log.jsonl gets one line per mutant: state is one of
nobuild, tests, caught (with the property), MISSED."""
import json, os, random, re, subprocess, sys, time
D, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
pat = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
repo, verif = f'{D}/repo', f'{D}/verif'
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, t, cwd=None, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(c, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -f '{D}/'", shell=True)
        return 124, 'timeout'
os.makedirs(D, exist_ok=True)
if not os.path.isdir(repo):
    sh(f'git clone -q /repo {repo}', 600)
    sh(f'cp /repo/Cargo.lock {repo}/ 2>/dev/null', 60)
    sh(f"mkdir -p {verif} && cd {here} && cp -a kit checks known_findings.txt {verif}/ 2>/dev/null; rm -rf {verif}/checks/target; sed -i 's|\"/repo\"|\"{repo}\"|' {verif}/checks/Cargo.toml", 600)
FEAT = 'chrono serde rust_decimal polars'
TENV = {'CARGO_PROFILE_TEST_DEBUG': '0', 'CARGO_PROFILE_DEV_DEBUG': '0', 'CARGO_NET_OFFLINE': 'true'}
skip = re.compile(r'(cookbook|tutorial|changelog|performance|test_functions|error|lib)\.rs$')
sites = []
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\bif !', 'if '), (r'\bis_some\(\)', 'is_none()'), (r'\b(\d+)\b', 'NUM'), (r' \+ ', ' - '), (r' \* ', ' / '),
       (r'\.max\(', '.min('), (r'\.min\(', '.max('), (r'first_', 'last_'), (r'row\b', 'col'),
       (r'\bwidth\b', 'height'), (r'\.chars\(\)\.count\(\)', '.len()'), (r'\.to_lowercase\(\)', '.to_string()'), (r'\.\.=', '..'), (r'\bround\(\)', 'trunc()'),
       (r'\bSome\((\w+)\) =>', r'Some(_) =>'), (r'\.rev\(\)', ''), (r'x_', 'y_'), (r'minor', 'major'), (r'header', 'footer'), (r'\.insert\(', '.remove(&'), (r'continue;', '{}'), (r'return;', ''), (r'break;', '{}'), (r'last_row', 'first_row'), (r'last_col', 'first_col')]
for f in sorted(os.listdir(f'{repo}/src')):
    if not f.endswith('.rs') or skip.search(f) or not pat.search(f): continue
    L = open(f'{repo}/src/{f}').read().split('\n')
    for i, l in enumerate(L):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): break
        if s.startswith('//') or s.startswith('#') or not s or s.startswith('use ') or 'fn ' in s or s.startswith('static') : continue
        if '.hash(' in s or re.match(r'\w+: [\w.:()]+,$', s): continue
        code = l.split(' // ')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if code[:m.start()].count('"') % 2: continue
                r = str(int(m.group(1)) + 1) if b == 'NUM' else b
                sites.append((f, i, code[:m.start()] + r + code[m.end():] + l[len(code):], a))
        if re.match(r'^\s+(self\.|attributes\.|xml_|writer\.|[a-z_.]+ (\+|-)?= ).*;$', l):
            sites.append((f, i, re.match(r'^\s*', l).group() + '();', 'delete'))
        m = re.match(r'^(\s+(?:\} else )?if )(?!let )(.*) \{$', l)
        if m:
            sites.append((f, i, f'{m.group(1)}false && ({m.group(2)}) {{', 'never'))
            sites.append((f, i, f'{m.group(1)}true || ({m.group(2)}) {{', 'always'))
random.seed(seed)
by = {}
for s in sites: by.setdefault((s[0], s[3]), []).append(s)
print(len(sites), 'sites')
keys = list(by)
w = [len(by[k]) ** 0.6 for k in keys]
done = set()
log = open(f'{D}/log.jsonl', 'a')
props = sorted(f[:-3].upper() for f in os.listdir(f'{verif}/checks/src') if re.match(r'c\d\d\.rs$', f))
prefer = {'table.rs': ['C11'], 'conditional_format.rs': ['C12'], 'data_validation.rs': ['C13'], 'chart.rs': ['C27', 'C26'], 'drawing.rs': ['C33', 'C09'],
  'shape.rs': ['C33'], 'button.rs': ['C33', 'C25'], 'format.rs': ['C04'], 'styles.rs': ['C04'], 'datetime.rs': ['C08'], 'formula.rs': ['C23'], 'image.rs': ['C22'],
  'filter.rs': ['C17'], 'note.rs': ['C25'], 'vml.rs': ['C25', 'C22'], 'comment.rs': ['C25'], 'properties.rs': ['C29'], 'core.rs': ['C29'], 'app.rs': ['C29'], 'custom.rs': ['C29'],
  'protection.rs': ['C32'], 'url.rs': ['C14'], 'sparkline.rs': ['C28'], 'utility.rs': ['C10', 'C19'], 'serializer.rs': ['C15'], 'packager.rs': ['C01', 'C30'], 'workbook.rs': ['C31', 'C21'],
  'worksheet.rs': ['C20', 'C18', 'C02', 'C06', 'C19', 'C17', 'C24', 'C14']}
n = 0
while n < count:
    k = random.choices(keys, w)[0]
    s = random.choice(by[k])
    f, i, new, kind = s
    if (f, i, new) in done: continue
    done.add((f, i, new))
    path = f'{repo}/src/{f}'
    src = open(path).read()
    L = src.split('\n')
    old = L[i]
    if old == new: continue
    n += 1
    t0 = time.time()
    L[i] = new
    open(path, 'w').write('\n'.join(L))
    rec = dict(file=f, line=i + 1, kind=kind, old=old.strip(), new=new.strip())
    try:
        rc, out = sh(f'cargo check --offline --features "{FEAT}"', 300, repo, TENV)
        if rc: rec['state'] = 'nobuild'; continue
        rc, out = sh(f'cargo test --offline --lib --test integration --features "{FEAT}" -- --test-threads 8', 400, repo, TENV)
        if rc: rec['state'] = 'tests'; rec['n'] = out.count('... FAILED'); continue
        rc, out = sh('cargo build --offline --quiet', 600, f'{verif}/checks')
        if rc: rec['state'] = 'nochecks'; rec['out'] = out[-400:]; continue
        order = prefer.get(f, []); order = order + [p for p in props if p not in order]
        rec['state'] = 'MISSED'
        for p in order:
            rc, out = sh(f'./target/debug/checks {p}', 300, f'{verif}/checks', {'VERIF_TIER': 'quick', 'VERIF_SEED': '1', 'VERIF_DIR': verif})
            if rc:
                rec['state'] = 'caught'; rec['by'] = p
                v = [l for l in out.split('\n') if 'VIOLATION' in l]
                rec['out'] = v[0][:200] if v else out[-300:]
                break
    finally:
        open(path, 'w').write(src)
        if rec.get('state') != 'nobuild':
            rec['t'] = int(time.time() - t0)
            log.write(json.dumps(rec) + '\n'); log.flush()
        else: n -= 1
