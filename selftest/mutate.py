#!/opt/veriftools/pyvenv/bin/python3
"""Mutation test of the contracts: simple source mutants of a scratch copy of /repo, each verified by the units of its file
(and, with NATIVE=1, checked natively when the proof does not object). Never touches /repo.
usage: mutate.py OUT.jsonl per_file seed [file...]"""
import json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/engine'); sys.path.insert(0, ROOT)
os.chdir(ROOT)
out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
tree = tempfile.mkdtemp(prefix='irvmut.')
subprocess.run(['git', 'clone', '-q', '/repo', tree + '/r'], check=True)
R = tree + '/r'
if not os.path.exists(R + '/third_party/json/include'):
    shutil.rmtree(R + '/third_party/json', ignore_errors=True)
    os.makedirs(R + '/third_party', exist_ok=True)
    if os.path.exists('/repo/third_party/json'):
        os.symlink('/repo/third_party/json', R + '/third_party/json')
os.environ['IRV_REPO'] = R
import run as irv, props
FILES = {'src/content_stream.cpp': ['C01', 'C02', 'C03', 'C04'], 'src/io.cpp': ['C05', 'C21'], 'src/chan.h': ['C06'], 'include/dap/future.h': ['C16'],
         'src/rwmutex.h': ['C17'], 'include/dap/any.h': ['C07'], 'include/dap/variant.h': ['C07'], 'include/dap/optional.h': ['C08'],
         'src/session.cpp': ['C09', 'C10', 'C11', 'C12', 'C22'], 'include/dap/session.h': ['C09', 'C10', 'C11', 'C12', 'C22'],
         'src/nlohmann_json_serializer.cpp': ['C13', 'C14'], 'src/rapid_json_serializer.cpp': ['C13', 'C14'], 'src/jsoncpp_json_serializer.cpp': ['C13', 'C14'],
         'src/null_json_serializer.cpp': ['C13'], 'src/null_json_serializer.h': ['C13'], 'include/dap/serialization.h': ['C13', 'C14'], 'src/socket.cpp': ['C18'], 'src/network.cpp': ['C19'],
         'src/typeof.cpp': ['C20'], 'include/dap/typeof.h': ['C15', 'C20'], 'include/dap/typeinfo.h': ['C20', 'C13', 'C07']}
OPS = [(r'==', '!='), (r'!=', '=='), (r'(?<![<-])<(?![<=a-z:])', '<='), (r'<=', '<'), (r'(?<![->])>(?![>=:,(]|$)', '>='), (r'>=', '>'), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+\+', '--'), (r'--', '++'), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'if \(!', 'if ('), (r'if \((?!!)', 'if (!'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'notify_all', 'notify_one'), (r'return ([^;]+);', 'return !(\\1);'),
       (r'^(\s*)[^;{}()]*\bcontinue;', '\\1break;'), (r'\bbreak;', 'continue;'), (r'WLock', 'RLock'), (r'std::move\(([^()]*)\)', '\\1'), (r'\bint64_t\b', 'int32_t'), (r'\bsize_t\b', 'uint32_t'), (r'\buint64_t\b', 'uint32_t')]


def mutants(f):
    src = open(R + '/' + f).read().split('\n')
    res = []
    for i, l in enumerate(src):
        t = l.strip()
        if not t or t.startswith(('//', '#', 'namespace', 'template', 'class', 'struct', 'using', 'typedef', '*', 'friend')):
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    res.append((i, n))
        if re.match(r'^\s+[\w:>*.\[\]()-]+.*;\s*$', code) and not re.match(r'^\s*(return|break|continue|case|const |auto |virtual|inline|explicit|std::\w+[<\w> ]* \w+;|[\w:<>]+ \w+;|\w+\(.*\) = )', t):
            res.append((i, re.match(r'^\s*', code).group(0) + ';'))
    return src, res


def judge(f):
    ps = FILES[f]
    tmp = tempfile.mkdtemp(dir=tree)
    st = 'proved'
    for env in [dict(IRV_NONATIVE='1')] + ([{}] if os.environ.get('NATIVE') else []):
        for p in ps:
            r = subprocess.run([sys.executable, ROOT + '/bin/check', p], env=dict(os.environ, IRV_EVIDENCE=tmp, **env), capture_output=True, text=True)
            if r.returncode == 1:
                why = re.findall(r'failed obligation (\S+)', r.stdout)[:2]
                shutil.rmtree(tmp, ignore_errors=True)
                return ('killed' if env else 'native (%s)' % st), ' '.join(why)
            if env and json.load(open(tmp + '/' + p + '.json'))['coverage']['deductive_result'] != 'all obligations discharged':
                st = 'undecided'
    shutil.rmtree(tmp, ignore_errors=True)
    return st, ''


def compiles(f):
    src = f if f.endswith('.cpp') else {'src/chan.h': 'src/chan_test.cpp', 'src/rwmutex.h': 'src/rwmutex_test.cpp', 'include/dap/future.h': 'src/session.cpp', 'include/dap/any.h': 'src/any_test.cpp', 'include/dap/variant.h': 'src/variant_test.cpp',
        'include/dap/optional.h': 'src/optional_test.cpp', 'include/dap/session.h': 'src/session_test.cpp', 'src/null_json_serializer.h': 'src/null_json_serializer.cpp'}.get(f, 'src/protocol_types.cpp')
    return subprocess.run(['g++', '-std=c++14', '-w', '-fsyntax-only', '-DCPPDAP_JSON_NLOHMANN=1', '-I' + R + '/include', '-I' + R + '/src', '-I' + R + '/third_party/json/include', '-I/usr/include/jsoncpp', R + '/' + src], capture_output=True).returncode == 0


def main():
    o = open(out, 'a')
    for f in (sys.argv[4:] or FILES):
        src, ms = mutants(f)
        random.Random(seed).shuffle(ms)
        done = 0
        for i, n in ms:
            if done >= per:
                break
            new = list(src); new[i] = n
            open(R + '/' + f, 'w').write('\n'.join(new))
            t = time.time()
            if compiles(f):
                st, why = judge(f)
                done += 1
                o.write(json.dumps(dict(file=f, line=i + 1, old=src[i].strip(), new=n.strip(), status=st, why=why, t=round(time.time() - t, 1))) + '\n'); o.flush()
        open(R + '/' + f, 'w').write('\n'.join(src))
    shutil.rmtree(tree)


main()
