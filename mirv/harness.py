"""Builds the replay / differential harness: a binary crate made of /repo's current
sources (copied verbatim; one-line accessors to private functions are appended, `mod`
becomes `pub mod` in the crate root), an independent oracle and the search driver."""
import os, re, shutil, subprocess, json
import contracts

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def conv(ty, e):
    if ty.startswith('&mut'):
        return None
    if 'Vec<u8' in ty:
        return ('&' if ty.startswith('&') else '') + e + '.to_vec()'
    if ty == '&[u8]':
        return e
    return None


def retconv(ty, e):
    return e if 'Vec<u8' in ty and not ty.startswith('&') else e + '.to_vec()' if ty.startswith('[u8;') else None


def find(p, name, ok):
    """the function `name`, or the only function of that module whose signature is ok"""
    mod = name.rsplit('::', 1)[0]
    l = [f for f in p.bydef.get(name, []) if f.body is not None]
    if l and ok(contracts.sig(p, l[0])):
        return l[0]
    l = [f for f in p.fns.values() if f.local and f.body is not None and f.dname.startswith(mod + '::') and not f.args and ok(contracts.sig(p, f))]
    return l[0] if len(l) == 1 else None


def accessors(p, repo):
    """{key: (file, module path, text to append)}"""
    out = {}

    def put(key, f, params, args, ret):
        if f is None or None in args or ret is None:
            return
        file = f.span[0] if f.span else None
        if not file:
            return
        file = os.path.join(repo, file) if not os.path.isabs(file) else file
        parts = f.dname.split('::')
        # free function directly in a module
        call = '%s(%s)' % (parts[-1], ', '.join(args))
        out[key] = (os.path.relpath(file, os.path.join(repo, 'src')), '::'.join(parts[1:-1]),
                    '\n#[allow(dead_code)]\npub fn vp_%s(%s) -> Vec<u8> { %s }\n' % (key, params, ret.replace('@', call)))
    issum = lambda s: len(s) == 2 and contracts.bytesty(s[0]) and (contracts.bytesty(s[1]) or s[1].startswith('[u8;'))
    for key, name in (('bmw', 'lyra2::bmw::sum'), ('cube', 'lyra2::cubehash::sum')):
        f = find(p, name, issum)
        if f is not None:
            s = contracts.sig(p, f)
            put(key, f, 'x: &[u8]', [conv(s[0], 'x')], retconv(s[1], '@'))
    f = find(p, 'lyra2::lyra2mod::lyra2mod', contracts.kdf_sig)
    if f is not None:
        s = contracts.sig(p, f)
        put('kdfmod', f, 'k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64',
            ['k as _', conv(s[1], 'pwd'), conv(s[2], 'salt'), 't as _', 'r as _', 'c as _'], retconv(s[6], '@'))
    for i, m in enumerate(('lyra2', 'lyra2mod')):
        f = p.bydef.get('lyra2::%s::squeeze' % m)
        if f and f[0].body is not None:
            s = contracts.sig(p, f[0])
            if len(s) == 3 and s[0] in ('[u64;16]', '&[u64;16]') and s[1] == 'u64':
                put('squeeze%d' % i, f[0], 's: [u64; 16], k: u64', ['&s' if s[0][0] == '&' else 's', 'k as _'], retconv(s[2], '@'))
    return out


def glue(acc):
    b = lambda k: 'true' if k in acc else 'false'
    path = lambda k: 'crate::%s::vp_%s' % (acc[k][1], k)
    t = ['pub const HAVE_MOD: bool = %s;' % b('kdfmod'), 'pub const HAVE_BMW: bool = %s;' % b('bmw'), 'pub const HAVE_CUBE: bool = %s;' % b('cube'),
         'pub const HAVE_SQUEEZE: [bool; 2] = [%s, %s];' % (b('squeeze0'), b('squeeze1'))]
    t.append('pub fn kdf(md: bool, k: u64, pwd: &[u8], salt: &[u8], t: u64, r: u64, c: u64) -> Vec<u8> {')
    t.append('    if md { %s } else { crate::lyra2::lyra2(k, pwd.to_vec(), salt.to_vec(), t, r, c) }' % ((path('kdfmod') + '(k, pwd, salt, t, r, c)') if 'kdfmod' in acc else 'unreachable!()'))
    t.append('}')
    t.append('pub fn chain(w: &str, x: &[u8]) -> Vec<u8> { let x = x.to_vec(); match w { "sum" => crate::lyra2::sum(x), "z" => crate::lyra2z::sum(x), "re" => crate::lyra2re::sum(x), "rev2" => crate::lyra2rev2::sum(x), "rev3" => crate::lyra2rev3::sum(x), _ => unreachable!() } }')
    st = lambda k: (path(k) + '(x)') if k in acc else 'unreachable!()'
    t.append('pub fn stage(w: &str, x: &[u8]) -> Vec<u8> { let _ = x; if w == "bmw" { %s } else { %s } }' % (st('bmw'), st('cube')))
    sq = lambda k: (path(k) + '(s, k)') if k in acc else '{ let _ = (s, k); unreachable!() }'
    t.append('pub fn squeeze(md: bool, s: [u64; 16], k: u64) -> Vec<u8> { if md { %s } else { %s } }' % (sq('squeeze1'), sq('squeeze0')))
    return '\n'.join(t) + '\n'


def env(target):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') or k.startswith('RUST'):
            if k not in ('CARGO_HOME', 'RUSTUP_HOME'):
                del e[k]
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_TARGET_DIR=target, RUSTFLAGS='--cap-lints allow', RUSTC_WRAPPER='')
    return e


def section(toml, name):
    """text of [name] and [name.x] sections"""
    out, on = [], False
    for l in toml.splitlines():
        m = re.match(r'\s*\[([^\]]+)\]', l)
        if m:
            on = m.group(1).strip() == name or m.group(1).strip().startswith(name + '.')
        if on:
            out.append(l)
    return '\n'.join(out) + '\n'


def build(p, repo, work, log=lambda s: None):
    """returns the path of the harness binary, or raises RuntimeError"""
    d = os.path.join(work, 'harness')
    toml = open(os.path.join(repo, 'Cargo.toml')).read()
    ed = re.search(r'^edition\s*=\s*"(\d+)"', toml, re.M)
    acc = accessors(p, repo) if p is not None else {}
    target = os.path.join(work, 'htarget')
    last = ''
    for attempt in (acc, {}):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(repo, 'src'), os.path.join(d, 'src'))
        lib = os.path.join(d, 'src', 'lib.rs')
        t = open(lib).read()
        os.remove(lib)
        t = re.sub(r'^(\s*)(pub(\([^)]*\))?\s+)?mod\s+(\w+)\s*;', r'\1pub mod \4;', t, flags=re.M)
        t += '\npub mod vp_oracle;\npub mod vp_glue;\npub mod vp_driver;\nfn main() { vp_driver::main() }\n'
        open(os.path.join(d, 'src', 'main.rs'), 'w').write(t)
        for key, (file, mod, text) in attempt.items():
            fp = os.path.join(d, 'src', 'main.rs' if file == 'lib.rs' else file)
            open(fp, 'a').write(text)
        shutil.copy(os.path.join(ROOT, 'harness', 'oracle.rs'), os.path.join(d, 'src', 'vp_oracle.rs'))
        shutil.copy(os.path.join(ROOT, 'harness', 'driver.rs'), os.path.join(d, 'src', 'vp_driver.rs'))
        open(os.path.join(d, 'src', 'vp_glue.rs'), 'w').write(glue(attempt))
        open(os.path.join(d, 'Cargo.toml'), 'w').write(
            '[package]\nname = "lyra2"\nversion = "0.2.8"\nedition = "%s"\nautobins = false\n\n[workspace]\n\n[[bin]]\nname = "vpharness"\npath = "src/main.rs"\n\n' % (ed.group(1) if ed else '2021')
            + section(toml, 'dependencies') + section(toml, 'features')
            + '\n[profile.release]\nopt-level = 2\noverflow-checks = true\ndebug-assertions = true\npanic = "unwind"\ncodegen-units = 8\n'
            + '\n[profile.release.package."*"]\noverflow-checks = false\ndebug-assertions = false\n')
        if os.path.exists(os.path.join(repo, 'Cargo.lock')):
            shutil.copy(os.path.join(repo, 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--bin', 'vpharness'], cwd=d, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0:
            b = os.path.join(target, 'release', 'vpharness')
            return b, sorted(attempt)
        last = r.stdout
        log('harness build failed with %d accessors' % len(attempt))
    raise RuntimeError('harness does not build:\n' + last[-3000:])
