"""Builds the engine, the code under test (instrumented or plain) and the harnesses. Everything is keyed by content."""
import hashlib, os, subprocess, sys, glob, json, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, 'engine')
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.environ.get('SX_BUILD', os.path.join(VERIF, '.build'))
Z3 = '/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
JOBS = os.cpu_count() or 4

def sh(cmd, **kw):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (cmd[:300], r.stdout[-4000:]))
    return r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

XML_C = sh('pkg-config --cflags libxml-2.0').strip()
XML_L = sh('pkg-config --libs libxml-2.0').strip()

APPS = {
    'comms': 'commsdsl2comms', 'c': 'commsdsl2c', 'emscripten': 'commsdsl2emscripten', 'latex': 'commsdsl2latex',
    'swig': 'commsdsl2swig', 'test': 'commsdsl2test', 'tools_qt': 'commsdsl2tools_qt',
}

def sources(lib):
    """source files of one component of the tree under test"""
    if lib == 'parse':
        return sorted(glob.glob(REPO + '/lib/src/parse/*.cpp'))
    if lib == 'gen':
        return sorted(glob.glob(REPO + '/lib/src/gen/*.cpp'))
    if lib.startswith('app:'):
        d = REPO + '/app/' + APPS[lib[4:]] + '/src'
        return sorted(f for f in glob.glob(d + '/*.cpp') if os.path.basename(f) != 'main.cpp')
    raise KeyError(lib)

def scope(src, libs):
    """the libraries whose headers a source file may see: the project's own files see those of their component only"""
    if src.startswith(REPO + '/lib/src/parse/'):
        return ['parse']
    if src.startswith(REPO + '/lib/'):
        return ['parse', 'gen']
    if src.startswith(REPO + '/app/'):
        d = src[len(REPO) + 5:].split('/')[0]
        return ['parse', 'gen'] + ['app:' + a for a, n in APPS.items() if n == d]
    return list(libs)

def includes(libs):
    inc = [REPO + '/lib/include', REPO + '/lib/src', REPO + '/lib/src/parse', REPO + '/lib/src/gen', ENG, VERIF + '/harness']
    for l in libs:
        if l.startswith('app:'):
            inc += [REPO + '/app/' + APPS[l[4:]] + '/src']
    return inc

_hdr = {}
def header_digest(libs):
    key = tuple(sorted(libs))
    if key not in _hdr:
        fs = glob.glob(REPO + '/lib/**/*.h', recursive=True)
        for l in libs:
            if l.startswith('app:'):
                fs += glob.glob(REPO + '/app/' + APPS[l[4:]] + '/src/**/*.h', recursive=True)
        _hdr[key] = digest(*[x for f in sorted(fs) for x in (f, rd(f))])
    return _hdr[key]

def engine():
    os.makedirs(BUILD, exist_ok=True)
    pas = '%s/symx-%s.so' % (BUILD, digest(rd(ENG + '/SymxPass.cpp')))
    rt = '%s/libsxrt-%s.so' % (BUILD, digest(*[rd(ENG + '/' + f) for f in ('rt.cpp', 'glue_plain.cpp', 'z3dl.h', 'rt.map', 'pre.h')]))
    jobs = []
    if not os.path.exists(pas):
        jobs.append('clang++-18 -std=c++17 -O1 -fPIC -shared -fno-rtti $(llvm-config-18 --cppflags) %s/SymxPass.cpp -o %s.tmp && mv %s.tmp %s' % (ENG, pas, pas, pas))
    if not os.path.exists(rt):
        jobs.append('g++ -std=c++17 -O2 -g1 -include %s/pre.h -fPIC -shared -fvisibility=hidden -I%s/include -I%s %s %s/rt.cpp %s/glue_plain.cpp -o %s.tmp '
                    '-Wl,--version-script=%s/rt.map -Wl,-Bsymbolic-functions %s -ldl && mv %s.tmp %s' % (ENG, Z3, ENG, XML_C, ENG, ENG, rt, ENG, XML_L, rt, rt))
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(sh, jobs))
    return pas, rt

UBSAN = ' -fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,bool,enum,unreachable,return,null,vla-bound -fsanitize-trap=all'

def flags(kind, pas):
    base = 'clang++-18 -std=c++17 -O1 -fno-pie -D_GLIBCXX_ASSERTIONS -w %s' % XML_C
    if kind.endswith('ub'):
        base += UBSAN
    if kind.startswith('sym'):
        return base + ' -include %s/pre.h -fno-vectorize -fno-slp-vectorize -fpass-plugin=%s' % (ENG, pas)
    return base

def compile_all(items, kind, libs, pas, extra=''):
    """items: source paths -> list of object paths"""
    eh = digest(rd(ENG + '/sx.h'), *[rd(f) for f in sorted(glob.glob(VERIF + '/harness/*.h'))])
    out, jobs = [], []
    for s in items:
        own = not s.startswith(VERIF)
        sc = scope(s, libs)
        hd = header_digest(sc)
        inc = ' '.join('-I' + i for i in includes(sc))
        k = digest(s, rd(s), flags(kind, pas), '' if own else extra, hd, '' if own else eh, inc)
        o = '%s/o/%s-%s.o' % (BUILD, os.path.basename(s)[:-4], k)
        out.append(o)
        if not os.path.exists(o):
            jobs.append('%s %s %s -c %s -o %s.tmp && mv %s.tmp %s' % (flags(kind, pas), extra if not own else '', inc, s, o, o, o))
    os.makedirs(BUILD + '/o', exist_ok=True)
    jobs.sort(key=lambda c: -len(c))
    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(sh, jobs))
    return out

def build(harness, libs, kind='sym', extra=''):
    """returns the executable of one harness source"""
    pas, rt = engine()
    src = [VERIF + '/harness/' + harness] + [s for l in libs for s in sources(l)]
    if kind.startswith('sym'):
        src.append(ENG + '/glue.cpp')
    objs = compile_all(src, kind, libs, pas, extra)
    rest = compile_all([ENG + ('/main.cpp' if kind.startswith('sym') else '/replay.cpp')], 'plain', libs, pas)
    k = digest(*(objs + rest + [rt, kind]))
    exe = '%s/%s-%s-%s' % (BUILD, harness.replace('.cpp', ''), kind, k)
    if not os.path.exists(exe):
        link = rt + ' -Wl,-rpath,' + os.path.dirname(rt) if kind.startswith('sym') else ''
        sh('clang++-18 -no-pie -rdynamic %s %s %s %s -ldl -lpthread -o %s.tmp && mv %s.tmp %s' % (' '.join(rest), ' '.join(objs), link, XML_L, exe, exe, exe))
    return exe

if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2].split(','), sys.argv[3] if len(sys.argv) > 3 else 'sym'))
