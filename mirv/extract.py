"""Extraction: /repo's current source -> MIR (JSON), through rustc's own front end."""
import os, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
STOP = ['core::panicking', 'core::fmt', 'alloc::fmt', 'std::fmt']


def cargo_env():
    e = dict(os.environ)
    for k in list(e):
        if (k.startswith('CARGO_') or k.startswith('RUST')) and k not in ('CARGO_HOME', 'RUSTUP_HOME'):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    return e


def driver(log=lambda s: None):
    """build the extractor if it is missing or older than its source"""
    d = os.path.join(ROOT, 'mirdump')
    b = os.path.join(d, 'target', 'debug', 'mirdump')
    src = max(os.path.getmtime(os.path.join(d, x)) for x in ('src/main.rs', 'Cargo.toml'))
    if os.path.exists(b) and os.path.getmtime(b) > src:
        return b
    e = cargo_env()
    e['CARGO_TARGET_DIR'] = os.path.join(d, 'target')
    r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    if r.returncode:
        raise RuntimeError('the MIR extractor does not build:\n' + r.stdout[-3000:])
    return b


def extract(repo, work, da='off'):
    b = driver()
    e = cargo_env()
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
    os.makedirs(work, exist_ok=True)
    stop = os.path.join(work, 'stop')
    open(stop, 'w').write('\n'.join(STOP) + '\n')
    out = os.path.join(work, 'mir-%s.json' % da)
    tgt = os.path.join(work, 'mirtarget-' + da)
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=b, MIRDUMP_CRATE='lyra2', MIRDUMP_OUT=out, MIRDUMP_STOP=stop, MIRDUMP_DA=da)
    r = subprocess.run(['cargo', 'check', '--lib', '--offline'], cwd=repo, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    shutil.rmtree(tgt, ignore_errors=True)
    if r.returncode or not os.path.exists(out):
        raise RuntimeError('extraction failed:\n' + r.stdout[-3000:])
    return out
