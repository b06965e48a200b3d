"""Frame contract of every reachable function (property C14): a function assigns and
reads only its own frame, its arguments and what it allocated.  One obligation per
function and clause, discharged over the MIR of the function; what a function calls is
covered by the callee's own obligations, leaves by the tables below."""
from engine import Ob
import contracts

# functions without MIR that only allocate, free, or panic
LEAF_OK = ('alloc::alloc::__rust_', 'alloc::raw_vec::', 'core::panicking', 'std::rt::panic', 'core::slice::index::', 'core::slice::copy_from_slice_impl', 'alloc::alloc::handle_alloc_error', 'std::alloc::handle_alloc_error')
# crates whose functions are assumed to be pure functions of their arguments
PURE_CRATES = ('core', 'alloc', 'digest', 'generic_array', 'blake_hash', 'sha3', 'keccak', 'groestl', 'groestl_aesni', 'skein_hash', 'typenum', 'block_buffer', 'crypto_common', 'block_padding', 'threefish_cipher', 'ppv_lite86')
PANIC = ('std::panicking', 'std::rt::begin_panic', 'std::sys::backtrace::__rust_end_short_backtrace', 'std::rt::panic')
DENY = ('std::time', 'std::env', 'std::fs', 'std::net', 'std::process', 'std::thread', 'std::io', 'std::sys', 'std::os', 'std::random', 'std::hash::random', 'std::collections::hash_map::RandomState', 'std::hash::RandomState',
        'std::backtrace', 'std::panic::Location', 'core::panic::location')
# address- or garbage-revealing functions when called from the crate itself
ADDR = ('addr', 'expose_provenance', 'expose_addr', 'align_offset', 'align_to', 'align_to_mut', 'is_aligned', 'guaranteed_eq', 'offset_from', 'assume_init', 'set_len', 'uninit', 'uninit_array', 'read_volatile', 'write_volatile', 'alloc', 'realloc', 'transmute_copy', 'zeroed')


def walk(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def cells(p, ty, seen=None):
    """does the type contain an UnsafeCell?"""
    seen = seen if seen is not None else set()
    if ty in seen or ty not in p.types:
        return False
    seen.add(ty)
    t = p.types[ty]
    if t['k'] == 'adt' and 'UnsafeCell' in t['name']:
        return True
    if t['k'] == 'adt' and ('sync::' in t['name'] or 'cell::' in t['name'] or 'Atomic' in t['name']):
        return True
    for y in walk(t):
        for k in ('ty', 'elem', 'to'):
            if isinstance(y.get(k), int) and cells(p, y[k], seen):
                return True
        for k in ('tys',):
            for z in y.get(k) or []:
                if isinstance(z, int) and cells(p, z, seen):
                    return True
    return False


def statics(p, body):
    """(alloc id, type of the constant) of every static the body names"""
    for c in walk(body):
        if 'kind' in c and 'ty' in c and isinstance(c.get('kind'), dict) and 'Allocated' in c['kind']:
            a = c['kind']['Allocated']
            for y in walk(a):
                pv = y.get('provenance')
                if isinstance(pv, dict):
                    for _, al in pv.get('ptrs', []):
                        yield from reach_static(p, al if isinstance(al, int) else al.get('alloc', -1) if isinstance(al, dict) else al, c['ty'], set())


def reach_static(p, al, ty, seen):
    if al in seen:
        return
    seen.add(al)
    a = p.allocs.get(al)
    if a is None:
        return
    if a.get('k') == 'static':
        yield al, ty
    for y in walk(a):
        pv = y.get('provenance')
        if isinstance(pv, dict):
            for _, b in pv.get('ptrs', []):
                if isinstance(b, int):
                    yield from reach_static(p, b, None, seen)


def isptr(p, ty):
    t = p.types.get(ty)
    return t is not None and (t['k'] in ('ref', 'ptr', 'fnptr'))


def holdsint(p, ty):
    t = p.types.get(ty)
    return t is not None and t['k'] in ('int', 'uint', 'array')


def analyse(p):
    obs = []

    def ob(f, what, bad, how='MIR'):
        if bad:
            obs.append(Ob('frame', f.dname, what, False, '', bad))
        else:
            obs.append(Ob('frame', f.dname, what, True, how))
    assumed = set()
    if p.truncated:
        obs.append(Ob('frame', 'crate', 'the whole call graph was extracted', False, '', 'more than the limit of functions is reachable'))
    for f in p.fns.values():
        nm = f.name
        if any(f.dname.startswith(x) for x in PANIC):
            ob(f, 'panic machinery', None)
            continue
        bad = next((d for d in DENY if f.dname.startswith(d) or ('<' + d) in nm.split(' as ')[0] and f.krate not in ('core', 'alloc', 'lyra2')), None)
        ob(f, 'no environment, clock, I/O, thread or random source', bad and 'reaches %s' % nm[:200])
        if f.body is None:
            if f.intrinsic:
                bad = 'intrinsic %s' % f.dname if 'volatile' in f.dname else None
                ob(f, 'intrinsic without outside effects', bad)
            elif f.krate in PURE_CRATES or any(f.dname.startswith(x) for x in LEAF_OK):
                if f.krate not in ('core', 'alloc'):
                    assumed.add('frame of %s (dependency, no MIR)' % nm[:120])
                ob(f, 'leaf only allocates, frees, panics or is an assumed-pure dependency', None)
            else:
                ob(f, 'leaf only allocates, frees, panics or is an assumed-pure dependency', 'no body and no contract for %s of crate %s' % (nm[:200], f.krate))
            continue
        tl = [y for y in walk(f.body) if 'ThreadLocalRef' in y or 'InlineAsm' in y]
        ob(f, 'no thread-local storage, no inline assembly', 'uses thread-local storage or assembly' if tl else None)
        bad = None
        for al, ty in statics(p, f.body):
            a = p.allocs[al]
            t = p.types.get(ty) if ty is not None else None
            if t is not None and t['k'] == 'ptr' and t.get('mut'):
                bad = 'mutable static %s' % a.get('name')
            elif cells(p, a['ty']):
                bad = 'static %s with interior mutability' % a.get('name')
        ob(f, 'no mutable static is named', bad)
        if not f.local:
            continue
        p.prep(f)
        bad = None
        for y in walk(f.body):
            if 'Cast' in y and isinstance(y['Cast'], list):
                ck, op, ty = y['Cast'][0], y['Cast'][1], y['Cast'][2]
                if 'Expose' in str(ck):
                    bad = 'pointer cast to an integer'
                if str(ck) == 'Transmute' and holdsint(p, ty):
                    src = optype(p, f, op)
                    if src is not None and isptr(p, src):
                        bad = 'pointer transmuted to an integer'
            if 'BinaryOp' in y and isinstance(y['BinaryOp'], list):
                src = optype(p, f, y['BinaryOp'][1])
                if src is not None and isptr(p, src):
                    bad = 'comparison of addresses'
        for b, cal in f.calls.items():
            g = p.fns.get(cal.get('fn')) if isinstance(cal, dict) else None
            if g is None:
                continue
            last = g.dname.split('::')[-1]
            if not g.local and last in ADDR and ('ptr' in g.dname or 'mem' in g.dname or 'alloc' in g.dname or 'slice' in g.dname or 'Vec' in g.dname or 'vec' in g.dname):
                bad = 'calls %s' % g.name[:120]
            if 'fmt::Pointer' in g.name:
                bad = 'formats an address'
        ob(f, 'the result does not depend on addresses or uninitialised memory', bad)
        bad = None
        for i, b in enumerate(f.body['blocks']):
            t = b['terminator']['kind']
            if isinstance(t, dict) and 'Call' in t and not isinstance((f.calls.get(i) or {}).get('fn'), int):
                # through a function pointer: whatever is turned into a pointer anywhere in the reachable code is
                # part of the program analysed here, and no pointer comes from a constant or a static
                ty = optype(p, f, t['Call']['func'])
                if ty is not None and p.types.get(ty, {}).get('k') == 'fnptr' and not any(a.get('k') == 'fn' for a in p.allocs.values()):
                    continue
                bad = 'block %d calls a function that was not resolved' % i
        ob(f, 'every callee is known', bad)
    return obs, assumed


def optype(p, f, op):
    try:
        (k, v), = op.items()
        if k in ('Copy', 'Move'):
            ty = f.localty[v['local']]
            for pr in v['projection']:
                if pr == 'Deref':
                    ty = p.types[ty].get('to')
                else:
                    return None
            return ty
        if k == 'Constant':
            return v['const_']['ty']
    except Exception:
        return None
    return None
