"""Extract the type-checked program of /repo's current working tree (cached by content hash)."""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
NIGHTLY = 'nightly-x86_64-unknown-linux-gnu'
CONFIGS = {
    'default': [],
    'all': ['--all-features'],
}


class FactsError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO', 'RUST', 'MIRFACTS')) or k in ('LD_LIBRARY_PATH',):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME'):
                e.pop(k)
    e.setdefault('HOME', '/root')
    e['PATH'] = e.get('PATH', '') + ':/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin'
    e['RUSTUP_TOOLCHAIN'] = NIGHTLY
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def toolchain():
    global NIGHTLY
    r = run(['rustc', '--version'], env=env())
    if r.returncode != 0:
        NIGHTLY = 'nightly'
        r = run(['rustc', '--version'], env=env())
        if r.returncode != 0:
            raise FactsError('no nightly toolchain: ' + r.stdout)
    return r.stdout.strip()


def sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()


def source_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'src')):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    for f in ('Cargo.toml', 'README.md'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    # resources are embedded with include_bytes!
    for root, dirs, files in os.walk(os.path.join(REPO, 'resources')):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(root, f))
    return out


def sysroot():
    r = run(['rustc', '--print', 'sysroot'], env=env())
    return r.stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    ver = toolchain()
    key = hashlib.sha256((open(src).read() + ver).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, 'bin', 'mirfacts-' + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.tmp%d' % os.getpid()
        r = run(['rustc', '-O', '--edition', '2021', src, '-o', tmp], env=env(), cwd=os.path.dirname(out))
        if r.returncode != 0:
            raise FactsError('driver does not build:\n' + r.stdout[-4000:])
        os.rename(tmp, out)
    return out, key


def workspace():
    ws = os.path.join(BUILD, 'ws')
    os.makedirs(ws, exist_ok=True)
    for e in os.listdir(ws):
        p = os.path.join(ws, e)
        if os.path.islink(p):
            os.unlink(p)
    for e in os.listdir(REPO):
        if e in ('.git', 'target', 'Cargo.toml', 'Cargo.lock'):
            continue
        os.symlink(os.path.join(REPO, e), os.path.join(ws, e))
    txt = open(os.path.join(REPO, 'Cargo.toml')).read()
    txt = re.sub(r'(?m)^iai *= *(\{ *git *=.*\}|\[ *\]) *$\n?', '', txt)
    tp = os.path.join(ws, 'Cargo.toml')
    if not os.path.exists(tp) or open(tp).read() != txt:
        with open(tp, 'w') as f:
            f.write(txt)
    shutil.copyfile(os.path.join(VERIF, 'driver', 'Cargo.lock.repo'), os.path.join(ws, 'Cargo.lock'))
    return ws


def extract(config):
    """returns (path of the facts file, cached?)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv, dkey = driver()
        key = hashlib.sha256((sha(source_files()) + dkey + config).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, 'facts', f'{config}-{key}.json')
        if os.path.exists(out):
            return out, True
        os.makedirs(os.path.dirname(out), exist_ok=True)
        # keep the cache small
        old = sorted((os.path.join(BUILD, 'facts', f) for f in os.listdir(os.path.join(BUILD, 'facts'))),
                     key=os.path.getmtime)
        for f in old[:-8]:
            os.unlink(f)
        ws = workspace()
        target = os.path.join(BUILD, 'target-' + config)
        # force cargo to run the wrapper on the crate even if it believes it to be fresh
        for fp in (os.path.join(target, 'debug', '.fingerprint'), os.path.join(target, 'debug', 'build')):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x == 'web-audio-api' or x.startswith('web-audio-api-'):
                        shutil.rmtree(os.path.join(fp, x))
        e = env()
        e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
        e['RUSTC_WORKSPACE_WRAPPER'] = drv
        e['MIRFACTS_CRATE'] = 'web_audio_api'
        e['MIRFACTS_OUT'] = out
        cmd = ['cargo', 'check', '--offline', '--lib', '--target-dir', target] + CONFIGS[config]
        r = run(cmd, env=e, cwd=ws)
        if r.returncode == 0 and not os.path.exists(out):
            # the layout of the target directory is not the expected one
            shutil.rmtree(target)
            r = run(cmd, env=e, cwd=ws)
        if r.returncode != 0 or not os.path.exists(out):
            if os.path.exists(out):
                os.unlink(out)
            raise FactsError('the crate does not compile or the extractor failed (%s):\n%s' % (config, '\n'.join(l[:300] for l in r.stdout.splitlines())[-6000:]))
        return out, False


if __name__ == '__main__':
    for c in CONFIGS:
        print(c, *extract(c))
