"""Front end of the analyses: builds the AST extractor when needed, runs it on the translation units of /repo's current
working tree (results are cached by the content of everything the translation unit includes from the repository), and
loads the resolved program."""
import hashlib
import json
import os
import pickle
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'
BUILD = os.path.join(VERIF, '.build')
CACHE = os.path.join(VERIF, '.build', 'cache')
EXTRACT_SRC = os.path.join(VERIF, 'extract', 'extract.cpp')
EXTRACT_BIN = os.path.join(BUILD, 'extract')


class AnalysisBroken(Exception):
    """The check cannot give a verdict (vanished anchor, parse error, instance count below the confirmed floor)."""


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def build_extractor():
    os.makedirs(CACHE, exist_ok=True)
    stamp = EXTRACT_BIN + '.sha'
    want = _sha(_read(EXTRACT_SRC))
    if os.path.exists(EXTRACT_BIN) and os.path.exists(stamp) and _read(stamp).decode() == want:
        return
    tmp = EXTRACT_BIN + '.tmp%d' % os.getpid()
    cmd = ['/usr/bin/clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I%s/include' % LLVM, EXTRACT_SRC, '-o', tmp,
           '%s/lib/libclang-cpp.so.18.1' % LLVM, '%s/lib/libLLVM-18.so' % LLVM, '-Wl,-rpath,%s/lib' % LLVM]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot build the AST extractor: ' + r.stderr[-2000:])
    os.replace(tmp, EXTRACT_BIN)
    with open(stamp, 'w') as f:
        f.write(want)


def flags():
    return ['-std=gnu++20', '-I%s/include' % REPO, '-I%s/src' % REPO, '-isystem', '/opt/vp/include',
            '-isystem', '/usr/include/eigen3', '-idirafter', os.path.join(VERIF, 'extract', 'fallback'),
            '-DM_ENABLE_SANITY_FIELDS', '-mavx2', '-mbmi2', '-mavx', '-msse4.2', '-mbmi', '-w', '-fsyntax-only',
            '-resource-dir', LLVM + '/lib/clang/18']


def _extract_one(tu):
    """tu: path relative to the repository, or absolute (driver files of /verif)."""
    src = tu if os.path.isabs(tu) else os.path.join(REPO, tu)
    if not os.path.exists(src):
        raise AnalysisBroken('translation unit vanished: ' + tu)
    base = _sha(_read(EXTRACT_SRC), ' '.join(flags()), REPO, src)[:24]
    idx = os.path.join(CACHE, base + '.deps')
    if os.path.exists(idx):
        try:
            for line in open(idx):
                deps, digest = json.loads(line)
                h = hashlib.sha256()
                ok = True
                for d in deps:
                    p = os.path.join(REPO, d)
                    if not os.path.exists(p):
                        ok = False
                        break
                    h.update(_read(p))
                    h.update(b'\0')
                h.update(_read(src))
                if ok and h.hexdigest() == digest:
                    f = os.path.join(CACHE, base + '.' + digest[:24] + '.json')
                    if os.path.exists(f):
                        return f
        except (ValueError, OSError):
            pass
    out = os.path.join(CACHE, base + '.tmp%d.json' % os.getpid())
    r = subprocess.run([EXTRACT_BIN, REPO, out, src, '--'] + flags(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisBroken('cannot parse %s: %s' % (tu, r.stderr[-1500:]))
    with open(out) as f:
        root = json.load(f)
    if root.get('errors'):
        raise AnalysisBroken('compile errors in %s: %s' % (tu, r.stderr[-1500:]))
    h = hashlib.sha256()
    for d in root['deps']:
        h.update(_read(os.path.join(REPO, d)))
        h.update(b'\0')
    h.update(_read(src))
    digest = h.hexdigest()
    f = os.path.join(CACHE, base + '.' + digest[:24] + '.json')
    os.replace(out, f)
    with open(idx, 'a') as fh:
        fh.write(json.dumps([root['deps'], digest]) + '\n')
    return f


class Func:
    __slots__ = ('key', 'q', 'name', 'file', 'line', 'end', 'params', 'body', 'cls', 'clst', 'types', 'files', 'raw', 'tu',
                 'inits', 'kind', 'static', 'virt', 'over', 'lam', 'isconst', 'ret', 'ta')

    def __init__(self, raw, types, files, tu):
        self.raw = raw
        self.key = raw['key']
        self.q = raw['q']
        self.name = raw['n']
        self.files = files
        self.file = files[raw['f']]
        self.line = raw['ln']
        self.end = raw['le']
        self.params = raw['params']
        self.body = raw['body']
        self.cls = raw.get('cls')
        self.clst = raw.get('clst')
        self.types = types
        self.tu = tu
        self.inits = raw.get('inits')
        self.kind = raw.get('kind')
        self.static = raw.get('static', False)
        self.virt = raw.get('virt', False)
        self.over = raw.get('over', [])
        self.lam = raw.get('lam', False)
        self.isconst = raw.get('const', False)
        self.ret = raw['ret']
        self.ta = raw.get('ta')

    def loc(self, node=None):
        if node is None:
            return '%s:%d' % (self.file, self.line)
        f = self.files[node['f']] if 'f' in node else self.file
        return '%s:%d' % (f, node.get('l', self.line))

    def ty(self, node):
        t = node.get('t', -1)
        return self.types[t] if t is not None and t >= 0 else None

    def __repr__(self):
        return '<%s %s:%d>' % (self.q, self.file, self.line)


class Program:
    def __init__(self, tus):
        build_extractor()
        self.tus = list(tus)
        with ThreadPoolExecutor(8) as ex:
            files = list(ex.map(_extract_one, self.tus))
        self.funcs = {}
        self.by_q = {}
        self.recs = {}
        self.recs_by_s = {}
        self.enums = {}
        self.vars = {}
        self.overriders = {}
        self.nfuncs = 0
        for tu, f in zip(self.tus, files):
            self._load(tu, f)
        for fn in self.funcs.values():
            self.by_q.setdefault(fn.q, []).append(fn)
            for o in fn.over:
                self.overriders.setdefault(o, []).append(fn)

    def _load(self, tu, f):
        pk = f[:-5] + '.pickle'
        root = None
        if os.path.exists(pk):
            try:
                with open(pk, 'rb') as fh:
                    root = pickle.load(fh)
            except Exception:
                root = None
        if root is None:
            with open(f) as fh:
                root = json.load(fh)
            tmp = pk + '.tmp%d' % os.getpid()
            with open(tmp, 'wb') as fh:
                pickle.dump(root, fh, protocol=4)
            os.replace(tmp, pk)
        types, fls = root['types'], root['files']
        for raw in root['funcs']:
            if raw['key'] in self.funcs:
                continue
            self.funcs[raw['key']] = Func(raw, types, fls, tu)
        for r in root['recs']:
            r['types'] = types
            r['file'] = fls[r['f']]
            self.recs_by_s.setdefault(r['s'], r)
            self.recs.setdefault(r['q'], r)
        for e in root['enums']:
            self.enums.setdefault(e['q'], {c['n']: c['v'] for c in e['e']})
        for v in root['vars']:
            v['types'] = types
            v['file'] = fls[v['f']]
            if v['q'] not in self.vars or ('init' in v['v'] and 'init' not in self.vars[v['q']]['v']):
                self.vars[v['q']] = v

    def find(self, q, nparams=None, pred=None, required=True):
        """All functions with the given qualified name (template arguments ignored)."""
        fs = [f for f in self.by_q.get(q, []) if (nparams is None or len(f.params) == nparams) and (pred is None or pred(f))]
        if required and not fs:
            raise AnalysisBroken('anchor vanished: function %s' % q)
        return fs

    def one(self, q, nparams=None, pred=None):
        fs = self.find(q, nparams, pred)
        return fs[0]


def walk(node):
    """Yields all nodes below (and including) node."""
    st = [node]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if 'k' in n:
                yield n
            for v in n.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(n, list):
            st.extend(n)


def calls(fn):
    src = [fn.body]
    if fn.inits:
        src.append(fn.inits)
    for n in walk(src):
        if n['k'] in ('call', 'ctor'):
            yield n


def setup():
    build_extractor()
