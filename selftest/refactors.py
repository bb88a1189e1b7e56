#!/opt/veriftools/pyvenv/bin/python3
"""Edits of a scratch copy of /repo that keep its behaviour; every check has to stay quiet. Never touches /repo.
usage: refactors.py [name...]   (NATIVE=1: with the native replays)"""
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CS, IO, CH, RW = 'src/content_stream.cpp', 'src/io.cpp', 'src/chan.h', 'src/rwmutex.h'
L = []


def R(name, props, file, *subs):
    L.append((name, props.split(), [(file, subs)]))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'refactors_list.py')).read())


def main():
    tree = tempfile.mkdtemp(prefix='irvref.')
    r = tree + '/r'
    subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
    for d in ('third_party/json', 'third_party/googletest'):
        if os.path.exists('/repo/' + d):
            shutil.rmtree(r + '/' + d, ignore_errors=True); os.makedirs(r + '/third_party', exist_ok=True)
            os.symlink('/repo/' + d, r + '/' + d)
    bad = 0
    for name, props, edits in L:
        if sys.argv[1:] and name not in sys.argv[1:]:
            continue
        ok = True
        for f, subs in edits:
            s = open(r + '/' + f).read()
            for a, b in subs:
                if a not in s:
                    print('%-28s STALE: %r not in %s' % (name, a[:50], f)); ok = False
                s = s.replace(a, b, 1)
            open(r + '/' + f, 'w').write(s)
        for p in props if ok else ():
            t = time.time()
            env = dict(os.environ, IRV_REPO=r, IRV_EVIDENCE=tree + '/e')
            if not os.environ.get('NATIVE'):
                env['IRV_NONATIVE'] = '1'
            x = subprocess.run([sys.executable, ROOT + '/bin/check', p], env=env, capture_output=True, text=True)
            d = json.load(open(tree + '/e/' + p + '.json'))['coverage']['deductive_result'] if x.returncode == 0 else 'ALARM'
            bad += x.returncode != 0
            print('%-28s %s %s %ds %s' % (name, p, d[:90], time.time() - t, ' '.join(re.findall(r'failed obligation (\S+)', x.stdout)[:3])), flush=True)
            if d not in ('all obligations discharged', 'ALARM') or os.environ.get('V'):
                print('    ' + '\n    '.join(l[:200] for l in (x.stdout + x.stderr).split('\n') if re.search('undecided|unsupported|not compile|error', l))[:1200])
        subprocess.run(['git', '-C', r, 'checkout', '-q', '--', '.'], check=True)
    shutil.rmtree(tree)
    sys.exit(bad > 0)


main()
