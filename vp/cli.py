"""Runs the real command line tool on a model of a CLI job: the same files, arguments and fault, in a scratch directory."""
import os, shutil, subprocess, tempfile
import build


def preload():
    src = os.path.join(build.VERIF, 'native', 'fault.c')

    def make(d):
        build.sh(['/usr/bin/gcc', '-O1', '-w', '-U_FORTIFY_SOURCE', '-shared', '-fPIC', src, '-o', os.path.join(d, 'fault.so'), '-ldl'])
        return 'fault.so'
    return build.cached('native-fault', build.digest([src]), make)


def native_run(job, model, texts):
    """texts[0]: fault selector and contents of the input file; texts[1]: argv[0]; the rest: the arguments"""
    exe = build.native('cli')
    d = tempfile.mkdtemp(prefix='vpcli')
    try:
        put = lambda n, b: open(os.path.join(d, n), 'wb').write(b)
        put('ii', texts[0][1:])
        put('oo', b'OLD')
        env = dict(os.environ, LC_ALL='C')
        f = texts[0][:1]
        if f != b'0':
            env.update(LD_PRELOAD=preload(), VP_FAULT=f.decode())
        try:
            p = subprocess.run([exe.encode()] + texts[2:], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=20)
            code, err = p.returncode, p.stderr
        except subprocess.TimeoutExpired:
            code, err = None, b''
        get = lambda n: open(os.path.join(d, n), 'rb').read() if os.path.isfile(os.path.join(d, n)) else None
        oo = get('oo')
        if get('ii') != texts[0][1:] or set(os.listdir(d)) - {'ii', 'oo'}:
            st = 2
        else:
            st = 3 if oo is None else 0 if oo == b'OLD' else 1
        kind = 'hang' if code is None else 'signal' if code < 0 else 'exit'
        return [{'kind': kind, 'code': 0 if code is None else code & 0xff if code >= 0 else -code, 'words': [], 'stderr': err.hex(), 'out': (oo or b'').hex(), 'outstate': st}]
    finally:
        shutil.rmtree(d)
