"""Builds the fact base: parses every source file of /repo/qcoro plus the instantiation harness with the
libTooling extractor and links the result. Everything is derived from the current working tree of the repository."""
import os, sys, re, json, hashlib, subprocess, fcntl, time, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('QCORO_REPO', '/repo')
ROOT = os.path.join(REPO, 'qcoro')
BUILD = os.environ.get('QCORO_VERIF_BUILD', os.path.join(VERIF, '_build'))
CLANG = '/usr/lib/llvm-18'
QTINC = '/usr/include/x86_64-linux-gnu/qt6'


class ToolError(Exception):
    """The analysis could not be carried out (neither a pass nor a violation)."""


class NoSuchUse(ToolError):
    """A use of the library written down in the harness is rejected by the compiler on the current tree."""

    def __init__(self, name, msg, internal):
        super().__init__('%s does not compile: %s' % (name, msg))
        self.name, self.msg, self.internal = name, msg, internal


def failing_uses(text, lines):
    """Which one-line functions of the harness do the compiler's errors belong to? {line index: message}"""
    out = {}
    blocks, cur = [], None
    for l in text.splitlines():
        if re.search(r': (fatal )?error: ', l):
            cur = [l]
            blocks.append(cur)
        elif cur is not None:
            cur.append(l)
    for b in blocks:
        msg = re.sub(r'^.*?error: ', '', b[0])
        at = [int(x) - 1 for l in b for x in re.findall(r'harness\.cpp:(\d+):\d+: (?:error|note)', l)]
        at = [i for i in at if 0 <= i < len(lines) and re.search(r'[\w#]+\(.*\)\s*(const )?\{.*\}\s*\\?$', lines[i]) and not lines[i].startswith('template')]
        defs = [i for i in at if '##' in lines[i]]
        at = defs or at
        if not at:
            return None
        if at[-1] not in out:
            out[at[-1]] = msg
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, 'extract.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, 'extract.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = sh(['llvm-config-18', '--cxxflags']).stdout.split()
        tmp = exe + '.tmp%d' % os.getpid()
        r = sh([CLANG + '/bin/clang++', '-O1', *flags, '-std=c++17', '-fno-rtti', '-w', src, '-o', tmp,
                '-L' + CLANG + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18'])
        if r.returncode:
            raise ToolError('cannot build extractor:\n' + r.stdout[-4000:])
        os.rename(tmp, exe)
        return exe


def repo_files():
    out = []
    for d, dn, fs in os.walk(ROOT):
        dn.sort()
        for f in sorted(fs):
            if f.endswith(('.h', '.cpp', '.hpp', '.cc')):
                out.append(os.path.join(d, f))
    return out


def stub_dir(files):
    """Generated headers (export macros, moc output) are replaced by stubs so that nothing depends on a build tree."""
    d = os.path.join(BUILD, 'stubs')
    os.makedirs(d, exist_ok=True)
    names = set()
    byname = {os.path.basename(f): f for f in files if f.endswith('.h')}

    def put(p, txt):
        if not os.path.exists(p) or open(p).read() != txt:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            t = p + '.%d' % os.getpid()
            open(t, 'w').write(txt)
            os.rename(t, p)
    for f in files:
        for m in re.finditer(r'#\s*include\s+["<]([^">]+)[">]', open(f, errors='replace').read()):
            b = os.path.basename(m.group(1))
            if re.match(r'^(QCoro/)?QCoro[A-Za-z]*$', m.group(1)) and b.lower() + '.h' in byname:
                for n in (m.group(1), 'QCoro/' + b):
                    put(os.path.join(d, n), '#include "%s"\n' % byname[b.lower() + '.h'])
            if b.endswith('_export.h') or b.endswith('.moc') or b.startswith('moc_'):
                names.add(b)
    for n in sorted(names):
        p = os.path.join(d, n)
        if n.endswith('_export.h'):
            N = n[:-len('_export.h')].upper()
            txt = '#pragma once\n#define %s_EXPORT\n#define %s_NO_EXPORT\n#define %s_DEPRECATED\n#define %s_DEPRECATED_EXPORT\n' % (N, N, N, N)
        else:
            txt = '\n'
        put(p, txt)
    return d


QTMODS = ['QtCore', 'QtNetwork', 'QtDBus', 'QtWebSockets', 'QtQml', 'QtQuick', 'QtGui', 'QtTest', 'QtQmlIntegration']


def flags(stub):
    fl = ['-std=gnu++20', '-fPIC', '-w', '-DQT_NO_DEBUG', '-resource-dir', CLANG + '/lib/clang/18']
    for d in ['', 'core', 'network', 'dbus', 'websockets', 'qml', 'quick', 'test']:
        fl.append('-I' + os.path.join(ROOT, d))
    fl.append('-I' + stub)
    fl.append('-I' + REPO)
    fl += ['-isystem', QTINC]
    for m in QTMODS:
        fl += ['-isystem', QTINC + '/' + m]
    for m in ['QtQml', 'QtCore', 'QtGui', 'QtQuick']:
        base = QTINC + '/' + m
        if os.path.isdir(base):
            for v in sorted(os.listdir(base)):
                if re.match(r'^\d+\.\d+', v):
                    fl += ['-isystem', base + '/' + v, '-isystem', base + '/' + v + '/' + m]
    return fl


def tree_hash(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    for f in extra:
        h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def extract_all():
    exe = build_extractor()
    files = repo_files()
    harness = os.path.join(HERE, 'harness.cpp')
    stub = stub_dir(files)
    key = tree_hash(files, [harness, os.path.join(HERE, 'extract.cpp'), __file__])
    out = os.path.join(BUILD, 'facts-' + key)
    tus = [f for f in files if f.endswith(('.cpp', '.cc'))] + [harness]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'facts.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            # keep the cache small: one fact base at a time per key, remove stale ones
            for n in os.listdir(BUILD):
                if n.startswith('facts-') and os.path.isdir(os.path.join(BUILD, n)):
                    shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
            os.makedirs(out)
            fl = flags(stub)

            def one(i_src):
                i, src = i_src
                o = os.path.join(out, '%02d.json' % i)
                r = sh([exe, o, ROOT + '/,' + harness, src, '--', *fl])
                return (src, r.returncode, r.stdout, os.path.exists(o))
            order = sorted(enumerate(tus), key=lambda x: -('harness' in x[1]) * 10 ** 9 - os.path.getsize(x[1]))
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, order))
            bad = [r for r in res if r[1] or not r[3]]
            broken = {}
            hi = len(tus) - 1
            for attempt in range(4):
                if len(bad) != 1 or bad[0][0] != harness and not bad[0][0].endswith('/harness.cpp'):
                    break
                lines = open(bad[0][0]).read().split('\n')
                uses = failing_uses(bad[0][2], lines)
                if not uses:
                    break
                for i, msg in uses.items():
                    for x in re.finditer(r'([\w#]+)\(', lines[i]):
                        m = re.match(r'.*?\b([\w#]+)\(', re.sub(r'^\s*template<.*?>', '', lines[i]))
                        n = m.group(1).lstrip('#')
                        n = re.sub(r'^\w*##|##\w*##', r'\\w+', n) if '##' in n else n
                        broken['^' + n + '$'] = [msg, 'detail::' in lines[i]]
                        break
                    lines[i] = '\\' if lines[i].endswith('\\') else ''
                hcopy = os.path.join(out, 'harness.cpp')
                open(hcopy, 'w').write('\n'.join(lines))
                o = os.path.join(out, '%02d.json' % hi)
                if os.path.exists(o):
                    os.remove(o)
                r = sh([exe, o, ROOT + '/,' + hcopy, hcopy, '--', *fl])
                bad = [(hcopy, r.returncode, r.stdout, os.path.exists(o))] if r.returncode or not os.path.exists(o) else []
                if not bad:
                    break
            json.dump(broken, open(os.path.join(out, 'broken.json'), 'w'))
            if bad:
                msg = '\n'.join('%s:\n%s' % (r[0], '\n'.join([l for l in r[2].splitlines() if 'error' in l][:10]) or r[2][-1500:]) for r in bad)
                raise ToolError('cannot parse the current tree:\n' + msg)
            open(os.path.join(out, 'ok'), 'w').write('ok')
    return out, tus, json.load(open(os.path.join(out, 'broken.json')))


class Fn:
    __slots__ = ('d', 'tu', 'qn', 'n', 'id', 'usr')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.qn = d['qn']
        self.n = d['n']
        self.id = d['id']
        self.usr = d['usr']

    @property
    def loc(self):
        return '%s:%d' % (os.path.relpath(self.d['file'], REPO), self.d['line'])

    @property
    def body(self):
        return self.d.get('body')

    @property
    def params(self):
        return self.d['params']

    def __repr__(self):
        return '<Fn %s %s>' % (self.qn, self.loc)


class TU:
    def __init__(self, data, src, prog):
        self.src = src
        self.prog = prog
        self.types = data['types']
        self.fns = {}
        for f in data['functions']:
            self.fns[f['id']] = Fn(f, self)
        self.recs = {r['id']: r for r in data['records']}
        for r in self.recs.values():
            r['tu'] = self

    def t(self, i):
        return self.types[i] if i is not None and i >= 0 else {'s': '?', 'k': '?'}

    def ts(self, i):
        return self.t(i)['s']


class Program:
    def __init__(self):
        d, tus, self.broken = extract_all()
        self.tus = []
        self.by_usr = {}
        self.by_qn = {}
        self.rec_by_type = {}
        for i, src in enumerate(tus):
            tu = TU(json.load(open(os.path.join(d, '%02d.json' % i))), src, self)
            self.tus.append(tu)
            for f in tu.fns.values():
                if f.body is not None or 'inits' in f.d or f.d.get('defaulted'):
                    o = self.by_usr.get(f.usr)
                    if o is None or (o.body is None and f.body is not None):
                        self.by_usr[f.usr] = f
                self.by_qn.setdefault(f.qn, []).append(f)
            for r in tu.recs.values():
                s = tu.ts(r['t'])
                o = self.rec_by_type.get(s)
                if o is None or ('fields' in r and 'fields' not in o):
                    self.rec_by_type[s] = r
        self.harness = [t for t in self.tus if t.src.endswith('harness.cpp')][0]

    def fn(self, ref, tu):
        """Definition for a function reference made in tu (or None)."""
        f = tu.fns.get(ref['id'])
        if f is not None and f.body is not None:
            return f
        u = ref.get('usr')
        if u and u in self.by_usr:
            g = self.by_usr[u]
            if g.body is not None or f is None:
                return g
        return f

    def defs(self, qn, coro=None):
        """All distinct definitions with the given qualified name."""
        seen = {}
        for f in self.by_qn.get(qn, []):
            if f.body is None:
                continue
            seen.setdefault(f.usr, f)
        return list(seen.values())


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog


if __name__ == '__main__':
    t = time.time()
    p = program()
    print(len(p.tus), 'TUs', sum(len(t.fns) for t in p.tus), 'functions', '%.1fs' % (time.time() - t))
