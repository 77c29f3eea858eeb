"""Builds the engine, the bitcode of /repo's current sources and the native replay programs.
Results are cached under /verif/build by the hash of everything that goes in."""
import concurrent.futures as cf
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build')
LLVM_INC = '/usr/lib/llvm-18/include'
LLVM_LIB = '/usr/lib/llvm-18/lib'
CLANG = '/usr/bin/clang++-18'
LINK = '/usr/bin/llvm-link-18'
GXX = '/usr/bin/g++'
BCF = ('-std=c++20 -O1 -g0 -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize -fno-slp-vectorize -fno-jump-tables '
       '-fno-unroll-loops -D__NO_INLINE__').split()
# undefined behaviour becomes a trap the engine reports
UBF = ('-fsanitize=signed-integer-overflow,shift,bounds,integer-divide-by-zero,unreachable,return,null,bool,enum,'
       'float-cast-overflow -fsanitize-trap=undefined').split()


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-4000:]))
    return r.stdout


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def cached(kind, key, make):
    """path of the cached file; make(dir) builds it and returns its name"""
    d = os.path.join(CACHE, '%s-%s' % (kind, key))
    done = os.path.join(d, 'done')
    if os.path.exists(done):
        return os.path.join(d, open(done).read())
    os.makedirs(CACHE, exist_ok=True)
    for old in glob.glob(os.path.join(CACHE, kind + '-*')):  # keep few
        olds = sorted(glob.glob(os.path.join(CACHE, kind + '-*')), key=os.path.getmtime)
        for o in olds[:-6]:
            shutil.rmtree(o, ignore_errors=True)
        break
    tmp = tempfile.mkdtemp(dir=CACHE)
    try:
        name = make(tmp)
        with open(os.path.join(tmp, 'done'), 'w') as f:
            f.write(name)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return os.path.join(d, name)


def engine():
    src = [os.path.join(VERIF, 'engine', f) for f in ('symex.cpp', 'expr.h')]

    def make(d):
        sh([GXX, '-O2', '-g1', '-std=c++20', '-fno-rtti', '-I' + LLVM_INC, '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
            '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src[0], '-o', os.path.join(d, 'symex'), '-L' + LLVM_LIB, '-lLLVM-18', '-lz3'])
        return 'symex'
    return cached('engine', digest(src), make)


def repo_files():
    r = []
    for top in ('src', 'include'):
        for dp, _, fs in os.walk(os.path.join(REPO, top)):
            r += [os.path.join(dp, f) for f in fs if re.search(r'\.(cpp|cc|cxx|c|h|hpp|inl|inc|def)$', f)]
    return sorted(r)


def sources():
    """(library sources, command line source)"""
    cpp = [f for f in repo_files() if re.search(r'\.(cpp|cc|cxx)$', f) and f.startswith(os.path.join(REPO, 'src') + '/')]
    main = [f for f in cpp if re.search(r'^\s*(?:extern\s+"C"\s+)?(?:int|auto)\s+main\s*\(', open(f, errors='replace').read(), re.M)]
    return [f for f in cpp if f not in main], main


def incs():
    return ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src')]


def tree_key():
    h = hashlib.sha256()
    for f in repo_files():
        h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def bitcode(ub=False, cli=False):
    rt = glob.glob(os.path.join(VERIF, 'engine', '*.cpp')) + glob.glob(os.path.join(VERIF, 'engine', 'shim', '*'))
    rt = [f for f in rt if not f.endswith('symex.cpp')]

    def make(d):
        lib, main = sources()
        jobs = []
        out = []

        def comp(cmd):
            try:
                sh(cmd)
            except Exception:
                if cli or shim[1] not in cmd:
                    raise
                sh([c for c in cmd if c not in shim])  # uses more of the stream classes than there are stand-ins for
        shim = ['-include', os.path.join(VERIF, 'engine', 'shim', 'vp_streams.h')]
        for i, f in enumerate(lib + (main if cli else [])):
            o = os.path.join(d, '%d.bc' % i)
            out.append(o)
            jobs.append([CLANG] + BCF + (UBF if ub else []) + shim + incs() + ['-w', '-emit-llvm', '-c', f, '-o', o])
        for f in ['runtime.cpp'] + (['cli.cpp'] if cli else []):
            o = os.path.join(d, f + '.bc')
            out.append(o)
            jobs.append([CLANG] + BCF + ['-fno-builtin', '-w'] + incs() + ['-emit-llvm', '-c', os.path.join(VERIF, 'engine', f), '-o', o])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        sh([LINK] + out + ['-o', os.path.join(d, 'all.bc')])
        for o in out:
            os.unlink(o)
        return 'all.bc'
    return cached('bc%s%s' % ('-ub' if ub else '', '-cli' if cli else ''), digest(rt, tree_key() + ' '.join(BCF + UBF)), make)


def native(kind='replay', san=False):
    """replay program (library) or the command line tool, built like the real thing; san: with sanitizers"""
    src = [os.path.join(VERIF, 'native', 'replay.cpp')]
    flags = ['-std=c++20', '-O1', '-g'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all'] if san else [])

    def make(d):
        lib, main = sources()
        objs, jobs = [], []
        for i, f in enumerate(lib + (src if kind == 'replay' else main)):
            o = os.path.join(d, '%d.o' % i)
            objs.append(o)
            jobs.append([GXX] + flags + ['-w'] + incs() + ['-c', f, '-o', o])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(sh, jobs))
        sh([GXX] + flags + objs + ['-o', os.path.join(d, kind)])
        for o in objs:
            os.unlink(o)
        return kind
    return cached('native-%s%s' % (kind, '-san' if san else ''), digest(src, tree_key()), make)


if __name__ == '__main__':
    engine()
    bitcode()
    native()
    print('built')
