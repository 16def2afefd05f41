"""server_config.c and sdr/iio_lib.c: the configuration is exactly what the file says, or the documented default.

libconfig is described by functions of the loaded file: setting(name) is the setting with that name (NULL when absent), c_int, c_real
and c_str its value (c_str NULL when it is no text).  same(s, "literal") is the answer of strcmp.  slen is the length of a string.
lived: 0 nothing, 1 the configuration is loaded, 2 it was released.
"""
from vc.sym import *
from vc.eng import uf, fval, fconst
from vc.spec import *
from vc.cast import Unsupported

GH = dict(lived=I, loaded=B, oom=B, handles=I)
setting = uf('setting', I, I)
c_int = uf('c_int', I, I)
c_real = uf('c_real', I, F)
c_str = uf('c_str', I, I)
slen = uf('slen', I, I)
textid = uf('text', I, I)
symbol = uf('symbol', I, I, I)
ENV = z3.Const('env_TMPDIR', I)


def same(s, l):
    return textid(s) == l


def lit(c, text):
    return c.eng.strs.get('"%s"' % text, iv(-777777))


def is_lit(e, o):
    return isnum(o) and num(o) <= -200000


def text_of(e, o):
    for k, v in e.strs.items():
        if isnum(o) and num(v) == num(o):
            return k[1:-1]
    return None


def string(e, st, p):
    """facts about a readable string that starts at the beginning of its object"""
    if not (isnum(p.off) and num(p.off) == 0) and not e.entailed(st, p.off == 0):
        raise Unsupported('string inside an object')
    t = text_of(e, p.obj)
    if t is not None:
        st.assume(slen(p.obj) == len(t))
        return
    e.oblige(st, p.obj != 0, 'no text is read from NULL', 'mem')
    e.oblige(st, sel(st.alive, p.obj), 'a live text is read', 'mem')
    for k, v in e.strs.items():
        st.assume(imp(p.obj == v, slen(p.obj) == len(k) - 2))
    st.assume(band(slen(p.obj) >= 0, slen(p.obj) < (1 << 40), slen(p.obj) < sel(st.size, p.obj)))


def m_strlen(e, st, a, at, rt):
    string(e, st, a[0])
    return slen(a[0].obj)


def fill(e, st, d, src, n, upto):
    """n bytes at d: the text of src up to its length, zeros behind"""
    for k in e.kinds:
        lo_p, hi_p, lo_f, hi_f = e.brange(k, d.off, n)
        old = e.mapget(st, k, d.obj)
        row = e.fresh('cp_' + k, z3.ArraySort(I, SORT[k]))
        j = z3.Const('j', I)
        st.assume(fa([j], imp(bnot(band(lo_p <= j, j < hi_p)), z3.Select(row, j) == z3.Select(old, j)), patterns=[z3.Select(row, j)]))
        if k == 'i8':
            sr = e.mapget(st, k, src.obj)
            st.assume(fa([j], imp(band(lo_p <= j, j < hi_p), z3.Select(row, j) == ite(j - lo_p < upto, z3.Select(sr, src.off + (j - lo_p)), iv(0))), patterns=[z3.Select(row, j)]))
        st.mem[k] = sto(st.mem[k], d.obj, row)
        e.log('mem', k, d.obj, None)


def m_strncpy(e, st, a, at, rt):
    d, s, n = a
    string(e, st, s)
    e.oblige(st, bor(n == 0, e.valid_goal(st, d, n)), 'strncpy stays inside the destination', 'mem')
    fill(e, st, d, s, n, slen(s.obj))
    return d


def m_strcpy(e, st, a, at, rt):
    d, s = a
    string(e, st, s)
    e.oblige(st, e.valid_goal(st, d, slen(s.obj) + 1), 'strcpy stays inside the destination', 'mem')
    fill(e, st, d, s, slen(s.obj) + 1, slen(s.obj))
    return d


def m_malloc(e, st, a, at, rt):
    p, ok = e.malloc(st, a[0])
    st.ghost['oom'] = bor(st.ghost['oom'], bnot(ok))
    return p


def m_calloc(e, st, a, at, rt):
    p = e.lib_calloc(st, a, at, rt)
    st.ghost['oom'] = bor(st.ghost['oom'], e.isnull(p))
    return p


def m_strdup(e, st, a, at, rt):
    string(e, st, a[0])
    p, ok = e.malloc(st, slen(a[0].obj) + 1)
    st.ghost['oom'] = bor(st.ghost['oom'], bnot(ok))
    q = P(st.brk - 1, iv(0))
    fill(e, st, q, a[0], slen(a[0].obj) + 1, slen(a[0].obj))
    return p


def m_strcmp(e, st, a, at, rt):
    x, y = a
    if text_of(e, x.obj) is not None:
        x, y = y, x
    if text_of(e, y.obj) is None:
        raise Unsupported('comparison of two unknown texts')
    string(e, st, x)
    r = e.arb(st, rt, 'cmp')
    st.assume((r == 0) == same(x.obj, y.obj))
    return r


def live(e, st, what):
    e.oblige(st, st.ghost['lived'] == 1, 'the loaded file is used: ' + what, 'order')


def m_init(e, st, a, at, rt):
    e.oblige(st, st.ghost['lived'] == 0, 'the configuration is initialized once', 'order')
    st.ghost['lived'] = iv(1)
    return None


def m_opt(e, st, a, at, rt):
    live(e, st, 'options')
    e.oblige(st, bnot(st.ghost['loaded']), 'options are set before the file is read', 'order')
    return None


def m_read(e, st, a, at, rt):
    live(e, st, 'read')
    c = Ctx(e, st, e.top_args, e.top_tu, pre=e.top_pre)
    e.oblige(st, band(a[1].obj == c.path.o, a[1].off == c.path.f), 'the requested file is read', 'order')
    ok = e.fresh('readable', B)
    st.ghost['loaded'] = ok
    return ite(ok, iv(1), iv(0))


def m_destroy(e, st, a, at, rt):
    live(e, st, 'release')
    st.ghost['lived'] = iv(2)
    return None


def okstr(st, s):
    st.assume(band(s >= 0, s < z3.Const('brk!0', I), imp(s != 0, band(sel(st.alive, s), sel(st.size, s) > slen(s), slen(s) >= 0))))


def m_lookup(e, st, a, at, rt):
    live(e, st, 'lookup')
    e.oblige(st, st.ghost['loaded'], 'settings are looked up in a file that was read', 'order')
    if text_of(e, a[1].obj) is None:
        raise Unsupported('computed setting')
    s = setting(a[1].obj)
    st.assume(band(s >= 0, s < z3.Const('brk!0', I), imp(s != 0, band(sel(st.alive, s), sel(st.size, s) >= 256))))
    okstr(st, c_str(s))
    return P(s, iv(0))


def need(e, st, p, what):
    live(e, st, what)
    e.oblige(st, bnot(e.isnull(p)), 'a setting that is absent is not read (%s)' % what, 'mem')


def m_int(e, st, a, at, rt):
    need(e, st, a[0], 'number')
    r = c_int(a[0].obj)
    st.assume(band(r >= -(1 << 31), r < (1 << 31)))
    return r


def m_float(e, st, a, at, rt):
    need(e, st, a[0], 'real')
    return c_real(a[0].obj)


def m_string(e, st, a, at, rt):
    need(e, st, a[0], 'text')
    s = c_str(a[0].obj)
    okstr(st, s)
    return P(s, iv(0))


def m_name(e, st, a, at, rt):
    return P(e.fresh('name'), iv(0))


def m_getenv(e, st, a, at, rt):
    if text_of(e, a[0].obj) != 'TMPDIR':
        raise Unsupported('environment')
    okstr(st, ENV)
    return P(ENV, iv(0))


def m_dlopen(e, st, a, at, rt):
    h = e.fresh('handle')
    st.assume(h >= 0)
    st.ghost['handles'] = st.ghost['handles'] + ite(h == 0, iv(0), iv(1))
    return P(h, iv(0))


def m_dlclose(e, st, a, at, rt):
    e.oblige(st, bnot(e.isnull(a[0])), 'a library is closed', 'mem')
    st.ghost['handles'] = st.ghost['handles'] - 1
    return e.arb(st, rt, 'dlclose')


def m_dlsym(e, st, a, at, rt):
    e.oblige(st, bnot(e.isnull(a[0])), 'functions are looked up in a loaded library', 'mem')
    s = symbol(a[0].obj, a[1].obj)
    st.assume(s >= 0)
    return P(s, iv(0))


# ---------------------------------------------------------------- contracts
def copied(c, dst, src, n=None):
    """dst is a text of its own with the content of the text that starts object src"""
    n = slen(src)
    row = c.eng.mapget(c.st, 'i8', dst.o)
    sr = c.eng.mapget(c.pre.st, 'i8', src)
    return band(dst.f == 0, sel(c.st.size, dst.o) >= n + 1, z3.Select(row, n) == 0, c.forall(lambda j: imp(band(j >= 0, j < n), z3.Select(row, j) == z3.Select(sr, j)), pat=lambda j: z3.Select(row, j)))


def literals(c):
    for k, v in c.eng.strs.items():
        c.st.assume(band(slen(v) == len(k) - 2))
    return TRUE


def value_of(c):
    return ite(c.setting.null, c.default_value.o, c_str(c.setting.o))


read_str = Contract(
    'read_and_copy_str', ['setting', 'default_value'], file='server_config.c',
    requires=[('the file is loaded', lambda c: c.g('lived') == 1),
              ('a default', lambda c: band(literals(c), c.default_value.alive, c.default_value.o != 0, c.default_value.f == 0, slen(c.default_value.o) >= 0, slen(c.default_value.o) < c.default_value.size, imp(c.setting.nn, band(c.setting.f == 0, c.setting.alive, c.setting.size >= 256))))],
    ensures=[('a copy of the text of the setting, of the default when it is absent', lambda c: imp(c.ret.nn, band(c.fresh_obj(c.ret.o), value_of(c) != 0, copied(c, c.ret, value_of(c))))),
             ('a setting that is no text is refused', lambda c: imp(band(c.setting.nn, c_str(c.setting.o) == 0), c.ret.null)),
             ('a text is copied unless memory is out', lambda c: imp(c.ret.null, bor(c.g('oom'), band(c.setting.nn, c_str(c.setting.o) == 0)))),
             ('out of memory is remembered', lambda c: imp(c.pre.g('oom'), c.g('oom')))],
    modifies=lambda c: [('ghost', 'oom')], allocs=True, leak=lambda c: [c.ret])

STR = ('bind_address', 'base_path', 'rx_sdr_server_address', 'rx_file_base_path', 'tx_file_base_path')


def own(c, k):
    """k is a complete configuration"""
    parts = [getattr(k, s) for s in STR] + [k.iio]
    ds = []
    for i, x in enumerate(parts):
        ds.append(imp(x.nn, band(x.alive, x.f == 0, x.o > 0, x.o != k.o)))
        for y in parts[:i]:
            ds.append(bor(x.null, x.o != y.o))
    return band(k.whole(1), k.o > 0, *ds, imp(k.iio.nn, k.iio.whole(1)))


def iiopart(c, k):
    return k.iio.handle.nn


destroy = Contract(
    'server_config_destroy', ['config'], file='server_config.c',
    requires=[('the configuration', lambda c: imp(c.config.nn, own(c, c.config)))],
    ensures=[('everything is released', lambda c: imp(c.config.nn, band(bnot(sel(c.st.alive, c.config.o)), *[imp(getattr(c.pre.config, s).nn, bnot(sel(c.st.alive, getattr(c.pre.config, s).o))) for s in STR + ('iio',)]))),
             ('a loaded library is closed', lambda c: c.g('handles') == c.pre.g('handles') - ite(band(c.config.nn, c.pre.config.iio.nn, c.pre.config.iio.handle.nn), iv(1), iv(0)))],
    frees=lambda c: [c.config] + [getattr(c.config, s) for s in STR + ('iio',)], modifies=lambda c: [('ghost', 'handles')])

iio_destroy = Contract(
    'iio_lib_destroy', ['lib'], file='sdr/iio_lib.c',
    requires=[('the library', lambda c: imp(c.lib.nn, band(c.lib.whole(1), c.lib.o > 0)))],
    ensures=[('the memory is released', lambda c: imp(c.lib.nn, bnot(sel(c.st.alive, c.lib.o)))),
             ('a loaded library is closed', lambda c: c.g('handles') == c.pre.g('handles') - ite(band(c.lib.nn, c.pre.lib.handle.nn), iv(1), iv(0)))],
    frees=lambda c: [c.lib], modifies=lambda c: [('ghost', 'handles')])

dlsym = Contract(
    'iio_lib_dlsym', ['handle', 'symbol'], file='sdr/iio_lib.c',
    requires=[('a loaded library', lambda c: c.handle.nn)],
    ensures=[('the function with the name', lambda c: band(c.ret.o == symbol(c.handle.o, c.symbol.o), c.ret.f == 0, c.ret.o >= 0))])

FUNCS = ('iio_buffer_first iio_buffer_end iio_buffer_push_partial iio_buffer_refill iio_context_find_device iio_device_find_channel iio_strerror iio_channel_attr_write '
         'iio_channel_attr_write_longlong iio_device_attr_write_bool iio_channel_attr_write_bool iio_channel_attr_write_double iio_device_attr_write_raw iio_create_scan_context '
         'iio_scan_context_get_info_list iio_scan_context_destroy iio_context_info_get_uri iio_create_context_from_uri iio_context_info_list_free iio_context_set_timeout '
         'iio_channel_enable iio_device_create_buffer iio_buffer_destroy iio_channel_disable iio_context_destroy').split()


def complete_table(c):
    l = c.lib[0]
    return imp(c.ret == 0, band(*[band(getattr(l, f).o == symbol(l.handle.o, lit(c, f)), getattr(l, f).nn) for f in FUNCS]))


iio_create = Contract(
    'iio_lib_create', ['lib'], file='sdr/iio_lib.c',
    requires=[('the result is writable', lambda c: c.lib.valid(1))],
    ensures=[('success gives a loaded library', lambda c: imp(c.ret == 0, band(c.fresh_obj(c.lib[0].o), c.lib[0].whole(1), c.lib[0].handle.nn, c.g('handles') == c.pre.g('handles') + 1))),
             ('a failure leaves nothing', lambda c: imp(c.ret != 0, band(c.g('handles') == c.pre.g('handles'), c.lib[0].eq(c.pre.lib[0])))),
             ('out of memory is remembered', lambda c: imp(c.pre.g('oom'), c.g('oom'))),
             ('every function is the one of its name', complete_table)],
    modifies=lambda c: [('cell', c.lib), ('ghost', 'handles'), ('ghost', 'oom')], allocs=True, leak=lambda c: [('set', lambda o: band(c.ret == 0, o == c.lib[0].o))])


def st_(c, n):
    return setting(lit(c, n))


def intset(n, default, conv=lambda x: x):
    return lambda c: ite(st_(c, n) == 0, iv(default), conv(c_int(st_(c, n))))


def cfg(c):
    return c.config[0]


def strset(field, default):
    def f(c):
        s = st_(c, field)
        d = ite(ENV == 0, lit(c, '/tmp'), ENV) if default is None else lit(c, default)
        return imp(c.ret == 0, band(copied(c, getattr(cfg(c), field), ite(s == 0, d, c_str(s))), c.fresh_obj(getattr(cfg(c), field).o)))
    return f


def typed(field, table, default):
    def f(c):
        s = c_str(st_(c, field))
        v = getattr(cfg(c), field)
        known = bor(*[same(s, lit(c, t)) for t in table])
        return band(imp(band(c.ret == 0, st_(c, field) == 0), v == default),
                    *[imp(band(c.ret == 0, st_(c, field) != 0, same(s, lit(c, t))), v == n) for t, n in table.items()],
                    imp(band(c.pre.g('lived') == 0, c.g('loaded'), st_(c, field) != 0, bor(s == 0, bnot(known))), c.ret != 0))
    return f


def realset(field):
    def f(c):
        s = st_(c, field)
        return imp(c.ret == 0, getattr(cfg(c), field) == ite(s == 0, fconst(0.0, 8), c_real(s)))
    return f


def refused(c):
    """the reasons for which a configuration is refused"""
    typed_ = []
    for f, t in (('rx_sdr_type', RXT), ('tx_sdr_type', TXT)):
        s = c_str(st_(c, f))
        typed_.append(band(st_(c, f) != 0, bor(s == 0, bnot(bor(*[same(s, lit(c, x)) for x in t])))))
    texts = [band(st_(c, f) != 0, c_str(st_(c, f)) == 0) for f in STR]
    to = st_(c, 'read_timeout_seconds')
    return bor(bnot(c.g('loaded')), c.g('oom'), band(to != 0, c_int(to) <= 0), *typed_, *texts)


RXT = {'sdr-server': 0, 'plutosdr': 1, 'file': 2}
TXT = {'none': 0, 'plutosdr': 1, 'file': 2}


def needs_iio(c):
    a, b = st_(c, 'rx_sdr_type'), st_(c, 'tx_sdr_type')
    return bor(band(a != 0, same(c_str(a), lit(c, 'plutosdr'))), band(b != 0, same(c_str(b), lit(c, 'plutosdr'))))


def eqset(field, f):
    return ('%s is what the file says, or the default' % field, lambda c: imp(c.ret == 0, getattr(cfg(c), field) == f(c)))


u32 = lambda x: ite(x < 0, x + (1 << 32), x)
u16 = lambda x: x % 65536
create = Contract(
    'server_config_create', ['config', 'path'], file='server_config.c', opts={},
    requires=[('the result is writable', lambda c: c.config.valid(1)), ('nothing loaded', lambda c: band(c.g('lived') == 0, bnot(c.g('loaded')), bnot(c.g('oom')), c.g('handles') == 0))],
    ensures=[('success gives a configuration', lambda c: imp(c.ret == 0, band(c.fresh_obj(cfg(c).o), cfg(c).f == 0, c.g('loaded')))),
             eqset('buffer_size', intset('buffer_size', 262144, u32)), eqset('port', intset('port', 8091, u16)), eqset('read_timeout_seconds', intset('read_timeout_seconds', 5)),
             eqset('queue_size', intset('queue_size', 64, u16)), eqset('tx_plutosdr_timeout_millis', intset('tx_plutosdr_timeout_millis', 10000, u32)),
             ('the read timeout is positive', lambda c: imp(c.ret == 0, cfg(c).read_timeout_seconds > 0)),
             ('bind_address is what the file says, or the default', strset('bind_address', '127.0.0.1')),
             ('base_path is what the file says, or the folder for temporary files', strset('base_path', None)),
             ('rx_file_base_path is what the file says, or the folder for temporary files', strset('rx_file_base_path', None)),
             ('tx_file_base_path is what the file says, or the folder for temporary files', strset('tx_file_base_path', None)),
             ('the type of the receiver', typed('rx_sdr_type', RXT, 0)), ('the type of the transmitter', typed('tx_sdr_type', TXT, 0)),
             ('rx_sdr_server_address is what the file says, or the default', lambda c: imp(cfg(c).rx_sdr_type == 0, strset('rx_sdr_server_address', '127.0.0.1')(c))),
             ('rx_sdr_server_port is what the file says, or the default', lambda c: imp(band(c.ret == 0, cfg(c).rx_sdr_type == 0), cfg(c).rx_sdr_server_port == intset('rx_sdr_server_port', 8090)(c))),
             ('tx_plutosdr_gain is what the file says, or 0', realset('tx_plutosdr_gain')), ('rx_plutosdr_gain is what the file says, or 0', realset('rx_plutosdr_gain')),
             ('a plutosdr has its library, nobody else', lambda c: imp(c.ret == 0, band(cfg(c).iio.nn == needs_iio(c), c.g('handles') == ite(needs_iio(c), iv(1), iv(0))))),
             ('the library of the parser is released once', lambda c: bor(c.g('lived') == 2, band(c.g('lived') == 0, c.ret != 0, c.g('oom')))),
             ('a failure closes the library', lambda c: imp(c.ret != 0, band(c.g('handles') == 0, cfg(c).eq(c.pre.config[0])))),
             ('a file is refused only for a reason', lambda c: imp(c.ret != 0, bor(refused(c), needs_iio(c))))],
    modifies=lambda c: [('cell', c.config)] + [('ghost', g) for g in GH], allocs=True,
    leak=lambda c: [('set', lambda o: band(c.ret == 0, bor(o == cfg(c).o, *[o == getattr(cfg(c), s).o for s in STR + ('iio',)])))])


def env():
    e = Env()
    e.ghosts = dict(GH)
    e.kinds = ['po', 'pf', 'i8', 'u8', 'u16', 'i32', 'u32', 'u64', 'f64']
    e.models.update(strlen=m_strlen, strncpy=m_strncpy, strcpy=m_strcpy, strdup=m_strdup, strcmp=m_strcmp, malloc=m_malloc, calloc=m_calloc, config_init=m_init, config_set_options=m_opt, config_set_option=m_opt, config_set_auto_convert=m_opt,
                    config_read_file=m_read, config_destroy=m_destroy, config_lookup=m_lookup, config_setting_get_int=m_int, config_setting_get_float=m_float,
                    config_setting_get_string=m_string, config_setting_name=m_name, getenv=m_getenv, dlopen=m_dlopen, dlclose=m_dlclose, dlsym=m_dlsym, dlerror=m_name)
    for c in (read_str, destroy, create, iio_destroy, dlsym, iio_create):
        e.contracts[c.name] = c
    return e
