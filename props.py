"""The properties: which contract drivers decide them."""
import re, os
V = os.path.dirname(os.path.abspath(__file__))

W = ['u8_f', 'u8_r', 'u16_f', 'u16_r', 'u32_f', 'u32_kr', 'u32_r', 'u32_n', 'u64_f', 'u64_r']
FB = ['write_u8', 'write_u32', 'writenull_u8', 'erase_u8', 'erase_u32', 'eraseempty_u8', 'copy_u8', 'copy_u32', 'copynull_u8', 'ctor_u8', 'ctor_u32']

MODULES = {
    'cts': dict(passes='function(sroa,simplifycfg)'),
    'framer': dict(passes='function(sroa,simplifycfg)', native_flags=['/repo/src/common/src/common.cpp', '/repo/src/decoders/common/src/common.cpp', '-lfmt', '-lspdlog']),
    'rcmp': dict(passes='function(sroa,simplifycfg)', native_flags=['-no-pie', V + '/native/rcmp_undef.cpp', '-Wl,-z,lazy', '-lfmt', '-lspdlog', '-Wl,--unresolved-symbols=ignore-all']),
}

TRUSTED = ['clang 18 front end (C++ to LLVM IR) and LLVM sroa', '/verif/tools/ir2json.cpp', '/verif/vcg/engine.py: semantics of LLVM IR, VC generation',
           'z3 4.8.12', 'cvc5 1.1.2', '/verif/vcg/lia.py (bit-vector to integer translation)', '/verif/vcg/contracts_libc.py (contracts of libc, intrinsics)']


def U(module, drivers, contracts=(), **kw):
    return dict(module=module, drivers=list(drivers), contracts=list(contracts), **kw)


SCFG = 'LLVM simplifycfg (applied to the IR of this unit)'
FRC = ['crcfn', 'log', 'search', 'fromchars']
RC = ['maps', 'log', 'bits', 'extract']
BITS = ['b1', 'u8_3', 'u8_4', 'i8_5', 'u16_16', 'u64_16', 'u64_64', 'i64_37', 'i64_20', 'i32_23', 'i32_26', 'i32_28', 'i32_14', 'i32_19', 'i32_16', 'i32_18', 'f_11', 'u64_61']

PROPS = {
    'C01': dict(units=[U('crc', ['drv_block_' + w for w in W])], trusted=['/verif/vcg/gf2.py (GF(2) elimination)', '/verif/vcg/crcspec.py (bit-serial reference)']),
    'C02': dict(units=[U('crc', ['drv_oem_block', 'drv_oem_block0', 'drv_compat_block', 'drv_compat_block0'], ['crc32']), U('crc', ['drv_block_u32_r'])],
                trusted=['/verif/vcg/gf2.py (GF(2) elimination)', '/verif/vcg/crcspec.py (bit-serial reference)']),
    'C03': dict(units=[U('crc', ['drv_char_' + w for w in W] + ['drv_view_' + w for w in W] +
                         ['drv_oem_char', 'drv_oem_view', 'drv_compat_char', 'drv_compat_view', 'drv_compat_char_n', 'drv_compat_view_n', 'drv_compat_block_n', 'drv_compat_char_kr',
                          'drv_compat_view_kr', 'drv_compat_block_kr'])],
                trusted=['/verif/vcg/gf2.py (GF(2) elimination)', '/verif/vcg/crcspec.py (bit-serial reference)']),
    'F01': dict(units=[U('fixedbuf', ['drv_' + x for x in FB])]),
    'F02': dict(units=[U('fixedbuf', ['drv_index_u8', 'drv_index_u32', 'drv_read_u16', 'drv_read_u32', 'drv_read_u64'])]),
    'F03': dict(units=[U('fixedbuf', ['drv_search_%d' % k for k in (1, 2, 3, 4)])]),
    'T01': dict(units=[U('tracker', ['drv_tracker_%s_%s' % (t, k) for t in ('inc', 'twice', 'reset', 'fresh', 'hist') for k in ('id', 'u64', 'tuple')], ['maps'])]),
    'K01': dict(units=[U('common', ['drv_isequal', 'drv_isequal_default', 'drv_todigit'])]),
    'M01': dict(units=[U('msgid', ['drv_msgid_layout', 'drv_msgid_roundtrip', 'drv_msgid_unpack', 'drv_msgtype', 'drv_counts_hash'])]),
    'K02': dict(units=[U('msgid', ['drv_align', 'drv_abbrev_prefix'])]),
    'R01': dict(units=[U('bits', ['drv_bits_' + x for x in BITS] + ['drv_bits_dyn_u16', 'drv_bits_dyn_u64', 'drv_bits_dyn_toowide'] +
                         ['drv_%s_%s' % (a, b) for a in ('lsb', 'pop') for b in ('u16', 'u32', 'u64')])]),
    'R02': dict(units=[U('cts', ['drv_cts_roundtrip', 'drv_cts_system', 'drv_cts_prn', 'drv_cts_key', 'drv_cts_from2', 'drv_cts_from4', 'drv_cts_from5', 'drv_cts_wavelength',
                                 'drv_ref_key'], ['bits']), U('bits', ['drv_pop_u32', 'drv_lsb_u32'])], trusted=[SCFG]),
    'R03': dict(units=[U('rcmp', ['drv_block4_primary', 'drv_block4_secondary', 'drv_diff4_primary', 'drv_diff4_secondary', 'drv_block5_primary', 'drv_block5_secondary'], RC),
                       U('bits', ['drv_bits_' + x for x in BITS])], trusted=[SCFG]),
    'R04': dict(units=[U('rcmp', ['drv_lock2', 'drv_lock4'], RC)], trusted=[SCFG]),
    'R05': dict(units=[U('rcmp', ['drv_populate4', 'drv_populate5', 'drv_rangecmp_first', 'drv_rangecmp_second', 'drv_rangecmp_toomany'], RC + ['wavelength']),
                       U('cts', ['drv_cts_wavelength'], ['bits'])], trusted=[SCFG]),
    'N01': dict(units=[U('framer', ['drv_binary', 'drv_binary_short'], FRC), U('fixedbuf', ['drv_search_3'])], trusted=[SCFG]),
    'N02': dict(units=[U('framer', ['drv_ascii', 'drv_ascii_message', 'drv_ascii_short', 'drv_ascii_short_message'], FRC), U('framer', ['drv_fromchars']),
                       U('fixedbuf', ['drv_search_1'])], trusted=[SCFG]),
    'N03': dict(units=[U('framer', ['drv_abb', 'drv_abb_message', 'drv_abb_r', 'drv_abb_response'], FRC), U('fixedbuf', ['drv_search_1', 'drv_search_2'])], trusted=[SCFG], limit=680),
    'N04': dict(units=[U('framer', ['drv_manager_0', 'drv_manager_1', 'drv_manager_2', 'drv_manager_3'], ['log'])], trusted=[SCFG], limit=500),
}

WEIGHT = {'drv_abb': 300, 'drv_abb_message': 300, 'drv_abb_r': 200, 'drv_abb_response': 200, 'drv_manager_3': 160, 'drv_ascii_message': 100, 'drv_ascii_short_message': 100, 'drv_ascii': 100, 'drv_ascii_short': 100, 'drv_fromchars': 60, 'drv_binary': 50, 'drv_binary_short': 40, 'drv_diff4_secondary': 60, 'drv_block5_secondary': 50, 'drv_cts_wavelength': 46, 'drv_populate4': 24, 'drv_populate5': 24, 'drv_cts_from4': 23, 'drv_cts_from5': 23, 'drv_cts_from2': 20, 'drv_block4_primary': 20, 'drv_align': 16, 'drv_oem_block0': 45, 'drv_oem_block': 20, 'drv_search_4': 41, 'drv_search_3': 40, 'drv_search_2': 30, 'drv_write_u32': 12, 'drv_write_u8': 9}


def covers(module, driver, irjson):
    """cover labels the driver must reach: those its IR mentions (through the calls it makes, by the driver's own template functions)"""
    import json
    m = _load(irjson)
    fns = {f['name']: f for f in m['functions']}
    strs = {}
    for g in m['globals']:
        strs[g['name']] = g
    out, seen, work = [], set(), [driver]
    while work:
        n = work.pop()
        if n in seen or n not in fns:
            continue
        seen.add(n)
        for b in fns[n].get('blocks') or []:
            for i in b:
                if i['op'] in ('call', 'invoke') and i['callee'][0] == 'g':
                    c = i['callee'][1]
                    if c == '__vc_cover':
                        out.append(_cstr(strs, i['args'][0]))
                    elif '/drivers/' in _file(fns.get(c)):
                        work.append(c)
    return sorted(set(x for x in out if x))


_cache = {}


def _load(p):
    import json
    if p not in _cache:
        _cache.clear()
        _cache[p] = json.load(open(p))
    return _cache[p]


def _file(f):
    if not f:
        return '?'
    for b in f.get('blocks') or []:
        for i in b:
            if i.get('loc'):
                return i['loc'].split(':')[0]
    return ''


def _cstr(strs, a):
    g = strs.get(a[1])
    if not g or 'init' not in g:
        return None
    b = bytes.fromhex(g['init'])
    return b.split(b'\0')[0].decode('latin1')


def known(pid):
    """lines of known_findings.txt that are open findings of this property"""
    p = V + '/known_findings.txt'
    if not os.path.exists(p):
        return []
    out = []
    for l in open(p):
        m = re.match(r'finding: property=(\S+) (.*)', l.strip())
        if m and m.group(1) == pid:
            out.append(m.group(2))
    return out
