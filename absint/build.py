"""Builds the MIR dumper and dumps crates of /repo's current working tree. The build output lives in /verif/target (ignored
by git); only the dependencies are reused between runs, the repository's own crates are always compiled again."""
import fcntl, glob, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TARGET = os.environ.get('VERIF_TARGET', os.path.join(HERE, 'target'))
STOP = 'syn\nproc_macro2\n'


class BuildError(Exception): pass


def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET'): e.pop(k, None)
    e.update(kw)
    return e


_sysroot = []


def sysroot():
    if not _sysroot: _sysroot.append(subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip())
    return _sysroot[0]


def dumper():
    t = os.path.join(TARGET, 'mirdump')
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked', '-q'], cwd=os.path.join(HERE, 'tools', 'mirdump'), env=env(CARGO_TARGET_DIR=t),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('mirdump: ' + r.stdout[-3000:])
    return os.path.join(t, 'debug', 'mirdump')


def dump(package, features=(), crate=None, stop=STOP, default=True):
    """-> path of the dump of one crate under one feature set"""
    crate = crate or package.replace('-', '_')
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = dumper()
        t = os.path.join(TARGET, 'repo')
        for p in glob.glob(os.path.join(t, 'debug', '.fingerprint', 'derive_builder*')) + glob.glob(os.path.join(t, 'debug', 'build', 'derive_builder*')): shutil.rmtree(p)
        out = tempfile.mkdtemp(prefix='mir.', dir=TARGET)
        cmd = ['cargo', '+nightly', 'check', '--offline', '-q', '-p', package, '--lib']
        if not default: cmd.append('--no-default-features')
        if features: cmd += ['--features', ','.join(features)]
        r = subprocess.run(cmd, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           env=env(CARGO_TARGET_DIR=t, MIRDUMP_OUT=out, MIRDUMP_CRATES=crate, MIRDUMP_STOP=stop, RUSTC_WORKSPACE_WRAPPER=exe,
                                   LD_LIBRARY_PATH=sysroot() + '/lib', RUSTFLAGS='--cap-lints allow -Zalways-encode-mir'))
        p = os.path.join(out, crate + '.json')
        if r.returncode or not os.path.exists(p):
            shutil.rmtree(out)
            raise BuildError('%s %s: %s' % (package, features, r.stdout[-3000:]))
        return p


def witness(src, feats):
    """type-checks a crate that uses derive_builder -> ([(line, message, code)] of errors in it, text of other errors, whether it compiles)"""
    os.makedirs(TARGET, exist_ok=True)
    w = tempfile.mkdtemp(prefix='wit.', dir=TARGET)
    try:
        os.mkdir(os.path.join(w, 'src'))
        with open(os.path.join(w, 'src', 'lib.rs'), 'w') as f: f.write(src)
        with open(os.path.join(w, 'Cargo.toml'), 'w') as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nderive_builder = { path = %s, default-features = false, features = [%s] }\n'
                    % (json.dumps(os.path.join(REPO, 'derive_builder')), ', '.join('"%s"' % x for x in feats)))
        if os.path.exists(os.path.join(REPO, 'Cargo.lock')): shutil.copy(os.path.join(REPO, 'Cargo.lock'), w)
        with open(os.path.join(TARGET, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            t = os.path.join(TARGET, 'witness')
            for p in glob.glob(os.path.join(t, 'debug', '.fingerprint', 'derive_builder*')) + glob.glob(os.path.join(t, 'debug', '.fingerprint', 'witness*')): shutil.rmtree(p)
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--message-format=json'], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               env=env(CARGO_TARGET_DIR=t, RUSTFLAGS='--cap-lints allow'))
        errs, other = [], ''
        for l in r.stdout.splitlines():
            try: m = json.loads(l)
            except ValueError: continue
            if m.get('reason') != 'compiler-message' or m['message'].get('level') != 'error': continue
            sp = [x for x in m['message']['spans'] if x['is_primary'] and os.path.join(w, 'src') in os.path.abspath(os.path.join(w, x['file_name']))]
            code = (m['message'].get('code') or {}).get('code')
            if m['target']['name'] == 'witness':
                for x in sp: errs.append((x['line_start'], m['message']['message'][:200], code))
            else: other += m['message']['rendered'][:600]
        if r.returncode and not errs and not other: other = r.stderr[-1500:]
        return errs, other, r.returncode == 0
    finally: shutil.rmtree(w)


if __name__ == '__main__':
    for pkg, fs, dflt in (('derive_builder_macro', ('lib_has_std',), True), ('derive_builder', (), True)):
        p = dump(pkg, fs, default=dflt)
        shutil.rmtree(os.path.dirname(p))
    witness('#![no_std]\n', ('std',))
    print('setup done')
