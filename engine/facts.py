"""Front-end driver: builds hycu-front if needed, derives the real compile commands of /repo with
cmake, parses every translation unit with them and merges the resolved syntax trees."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HYCU_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LLVM = '/usr/lib/llvm-18'
FORCED = ['string', 'flint/ulong_extras.h', 'flint/fmpz.h', 'flint/nmod_poly.h', 'flint/nmod_poly_factor.h',
          'flint/fq_nmod_poly.h', 'flint/fq_nmod_poly_factor.h', 'boost/serialization/vector.hpp']
TARGET_TUS = None


class Broken(Exception):
    """The analysis itself cannot answer (exit 2), as opposed to a violation."""


def front_binary():
    src = os.path.join(VERIF, 'front', 'front.cc')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build')
    out = os.path.join(d, 'hycu-front-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    tmp = out + '.tmp%d' % os.getpid()
    cmd = ['g++', '-std=c++17', '-O1', '-fno-rtti', '-w', '-I' + LLVM + '/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.1', '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken('cannot build hycu-front:\n' + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def compile_commands():
    """One command per (source file, program) of the real build, configured in a scratch directory."""
    d = tempfile.mkdtemp(prefix='hycu-cdb-')
    try:
        inc = ' '.join('-include ' + h for h in FORCED)
        cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
               '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_BUILD_TYPE=None',
               '-DCMAKE_CXX_FLAGS=-O2 -g ' + inc, '-DCMAKE_POLICY_VERSION_MINIMUM=3.5', '-DBUILD_SINGLE=ON',
               '-DBUILD_THREADED=ON', '-DBUILD_MERGER=ON', '-DBUILD_MPI=ON', '-DBUILD_TEST=ON', '-DWITH_OPENCL=OFF',
               '-DFETCHCONTENT_FULLY_DISCONNECTED=ON']
        env = dict(os.environ, CCACHE_DISABLE='1', LC_ALL='C.UTF-8',
                   PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        p = os.path.join(d, 'compile_commands.json')
        if r.returncode != 0 or not os.path.exists(p):
            raise Broken('cmake configure failed:\n' + r.stdout[-3000:])
        best = {}
        programs = {}
        for e in json.load(open(p)):
            f = os.path.realpath(os.path.join(e['directory'], e['file']))
            if not f.startswith(SRC + os.sep) or not f.endswith(('.cc', '.cpp', '.cxx')):
                continue
            out = e.get('output') or ''
            prog = out.split('/CMakeFiles/')[-1].split('.dir/')[0] if '.dir/' in out else ''
            programs.setdefault(f, set()).add(prog)
            # prefer the command with the most include paths (the MPI program's)
            c = e['command']
            if f not in best or c.count('-isystem') > best[f].count('-isystem'):
                best[f] = c
        return best, {f: sorted(p) for f, p in programs.items()}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _flags(cmd):
    import shlex
    a = shlex.split(cmd)
    out, i = ['-std=gnu++17'], 1
    while i < len(a):
        x = a[i]
        if x in ('-I', '-isystem', '-include', '-D', '-U', '-iquote'):
            out += [x, a[i + 1]]
            i += 2
            continue
        if x.startswith(('-I', '-D', '-U', '-isystem', '-iquote')):
            out.append(x)
        elif x.startswith('-std='):
            out[0] = x
        i += 1
    return out


def _parse(args):
    binary, f, flags, define = args
    fl = flags + ['-w'] + (['-D' + define] if define else [])
    r = subprocess.run([binary, '--root=' + SRC, f, '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    return f, r.returncode, r.stdout, r.stderr.decode(errors='replace')


class Program:
    """Everything parsed: functions by unique id, records, enums, globals, class hierarchy."""

    def __init__(self):
        self.functions = {}   # fn -> node
        self.records = {}     # record name -> node
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.programs = {}
        self.byq = {}         # qualified name -> [fn]
        self.overriders = {}  # fn of base method -> [fn of overrider]

    def finish(self):
        for fn, f in self.functions.items():
            self.byq.setdefault(f['q'], []).append(fn)
            for b in f.get('overrides', []):
                self.overriders.setdefault(b, []).append(fn)
        for r in self.records.values():
            for m in r['methods']:
                for b in m['overrides']:
                    l = self.overriders.setdefault(b, [])
                    if m['fn'] not in l:
                        l.append(m['fn'])

    def find(self, q, pred=None):
        return [self.functions[f] for f in self.byq.get(q, []) if pred is None or pred(self.functions[f])]

    def all_overriders(self, fn):
        out, todo = [], [fn]
        while todo:
            for o in self.overriders.get(todo.pop(), []):
                if o not in out:
                    out.append(o)
                    todo.append(o)
        return out


def norm(s):
    return s.replace('std::__cxx11::', 'std::').replace('std::_V2::', 'std::').replace('std::__1::', 'std::')


def _link(node, types, tu):
    """Replaces type indices by type dicts, normalises names, records the translation unit."""
    if isinstance(node, list):
        for x in node:
            _link(x, types, tu)
        return
    if not isinstance(node, dict):
        return
    for k in ('t', 'rt', 'nt', 'objt', 'ct', 'base'):
        v = node.get(k)
        if isinstance(v, int) and not isinstance(v, bool):
            node[k] = types[v] if v >= 0 else None
    if 'i' in node and isinstance(node['i'], int):
        node['u'] = tu * 10000000 + node['i']
    if 'pt' in node:
        node['pt'] = [types[v] for v in node['pt']]
    for k in ('q', 'rec', 'recq'):
        if isinstance(node.get(k), str):
            node[k] = norm(node[k])
    for v in list(node.values()):
        if isinstance(v, (dict, list)) and not (isinstance(v, dict) and v.get('_type')):
            _link(v, types, tu)


def _rename(node, m):
    if isinstance(node, list):
        for x in node:
            _rename(x, m)
    elif isinstance(node, dict) and not node.get('_type'):
        for k, v in node.items():
            if isinstance(v, (dict, list)):
                _rename(v, m)
            elif k == 'fn' and v in m:
                node[k] = m[v]


def load(define=None):
    binary = front_binary()
    cmds, programs = compile_commands()
    if not cmds:
        raise Broken('no translation units found under ' + SRC)
    jobs = [(binary, f, _flags(c), define) for f, c in sorted(cmds.items())]
    prog = Program()
    prog.programs = programs
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        results = list(ex.map(_parse, jobs))
    for tu, (f, rc, out, err) in enumerate(results):
        if rc != 0:
            raise Broken('cannot parse %s:\n%s' % (f, err[-3000:]))
        d = json.loads(out)
        if d['errors']:
            raise Broken('errors parsing %s:\n%s' % (f, err[-3000:]))
        types = d['types']
        for t in types:
            t['_type'] = True
            t['s'] = norm(t['s'])
            for k in ('q', 'rec'):
                if k in t:
                    t[k] = norm(t[k])
            if isinstance(t.get('to'), int):
                t['to'] = types[t['to']]
            if isinstance(t.get('args'), list):
                t['args'] = [types[a['t']] if 't' in a else a['v'] for a in t['args']]
        for k in ('functions', 'records', 'enums', 'globals'):
            _link(d[k], types, tu)
        prog.tus.append(f)
        clash = {x['fn']: '%s@%d' % (x['fn'], tu) for x in d['functions']
                 if x['fn'] in prog.functions and prog.functions[x['fn']]['file'] != x['file']}
        if clash:
            # main, and what has internal linkage: the same name stands for another function in each file
            _rename(d['functions'], clash)
        for fn in d['functions']:
            fn['tu'] = f
            if fn['fn'] not in prog.functions:
                prog.functions[fn['fn']] = fn
            else:
                prog.functions[fn['fn']].setdefault('also', []).append(f)
        for r in d['records']:
            prog.records.setdefault(r['rec'], r)
            # "used" is per translation unit
            o = prog.records[r['rec']]
            if o is not r:
                for a, b in zip(o['methods'], r['methods']):
                    a['used'] = a['used'] or b['used']
        for e in d['enums']:
            prog.enums.setdefault(e['q'], e)
        for g in d['globals']:
            if g['q'] not in prog.globals or ('init' in g and 'init' not in prog.globals[g['q']]):
                prog.globals[g['q']] = g
    prog.finish()
    return prog


def walk(node):
    """All AST dict nodes below (and including) node; does not enter types."""
    st = [node]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n.get('_type'):
                continue
            if 'k' in n or 'i' in n:
                yield n
            st.extend(v for v in n.values() if isinstance(v, (dict, list)))
        elif isinstance(n, list):
            st.extend(n)


def rel(path):
    return os.path.relpath(path, REPO) if path and path.startswith(REPO) else path
