"""Builds the MIR dump of /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NRBF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
DRIVER = os.path.join(BUILD, 'driver/debug/nrbf-mir-dump')
DESCEND = ('core::option,core::result,core::ops,core::iter,core::convert,core::cmp,core::bool,core::clone,'
           'core::default,core::borrow,core::num,core::array,core::char,core::mem,core::any')


class BuildError(Exception):
    pass


def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s failed in %s:\n%s' % (' '.join(cmd), cwd, r.stdout[-4000:]))
    return r.stdout


def base_env():
    e = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN',
              'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'CARGO_PROFILE_DEV_DEBUG'):
        e.pop(k, None)
    e.setdefault('HOME', '/root')
    if '/root/.cargo/bin' not in e.get('PATH', ''):
        e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    return e


class lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    e = base_env()
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(VERIF, 'driver'), e)
    if not os.path.exists(DRIVER):
        raise BuildError('no driver')


def dump(features, out=None):
    """Path of the dump for a feature set ('' or 'serde')."""
    with lock():
        driver()
        e = base_env()
        root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE, text=True,
                              check=True).stdout.strip()
        if out is None:
            of = '' if REPO == '/repo' else '-' + hashlib.sha1(REPO.encode()).hexdigest()[:8]
            out = os.path.join(BUILD, 'dump-%s%s.json' % (features or 'none', of))
        tgt = os.path.join(BUILD, 'target')
        if os.path.exists(out):
            os.unlink(out)
        # cargo's freshness cache would skip the wrapper
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith('nrbf-'):
                    shutil.rmtree(os.path.join(fp, n))
        shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'nrbf'), ignore_errors=True)
        e.update({'LD_LIBRARY_PATH': root + '/lib', 'CARGO_TARGET_DIR': tgt,
                  'RUSTFLAGS': '-Zalways-encode-mir -Zmir-opt-level=0', 'RUSTC_WORKSPACE_WRAPPER': DRIVER,
                  'NRBF_DUMP': out, 'NRBF_DESCEND': DESCEND})
        cmd = ['cargo', '+nightly', 'check', '--lib', '--offline']
        if features:
            cmd += ['--features', features]
        txt = sh(cmd, REPO, e)
        if not os.path.exists(out):
            raise BuildError('the driver wrote no dump:\n' + txt[-3000:])
        return out
