"""Writes the witness translation units: small programs that instantiate every
log macro and argument shape a user can write.  They are compiled and analysed,
never run."""
import sys

HEAD = r'''
#include <xtr/logger.hpp>
#include <xtr/formatters.hpp>
#include <memory>
#include <string>
#include <string_view>
#include <cstdint>
extern "C" int w_arg(int) noexcept;
extern "C" int* w_dup(int*);
namespace w {
struct pod24 { std::uint64_t a, b, c; };
struct odd13 { char c[13]; };
struct alignas(32) al32 { std::uint64_t a; };
struct alignas(64) al64 { std::uint64_t a; };
struct thr { thr(const thr& o) : p(w_dup(o.p)) {} thr(thr&& o) : p(w_dup(o.p)) {} ~thr(); int* p; };
struct mov { explicit mov(int*); mov(mov&& o) noexcept : p(o.p) { o.p = nullptr; } mov(const mov&) = delete; ~mov(); int* p; };
}
#define WFMT(T) template<> struct fmt::formatter<T> { \
  template<typename P> constexpr auto parse(P& c) { return c.begin(); } \
  template<typename F> auto format(const T&, F& c) const { return c.out(); } };
WFMT(w::pod24) WFMT(w::odd13) WFMT(w::al32) WFMT(w::al64) WFMT(w::thr) WFMT(w::mov)
'''

# name, parameter list, format, arguments, kind of each argument:
#  v = plain value, s = copied string, n = nocopy string, m = moved std::string
SHAPES = [
    ('none', '', '', '', ''),
    ('int', 'int a', '{}', 'a', 'v'),
    ('char', 'char a', '{}', 'a', 'v'),
    ('int8', 'int a, char b, double c, long d, int e, short f, void* g, bool h', '{}{}{}{}{}{}{}{}', 'a, b, c, d, e, f, g, h', 'vvvvvvvv'),
    ('pod', 'const w::pod24& a', '{}', 'a', 'v'),
    ('odd', 'const w::odd13& a', '{}', 'a', 'v'),
    ('al32', 'const w::al32& a', '{}', 'a', 'v'),
    ('al64', 'int a, const w::al64& b', '{}{}', 'a, b', 'vv'),
    ('thr', 'const w::thr& a', '{}', 'a', 'v'),
    ('mov', 'w::mov&& a', '{}', 'std::move(a)', 'v'),
    ('cstr', 'const char* a', '{}', 'a', 's'),
    ('mcstr', 'char* a', '{}', 'a', 's'),
    ('arr', 'const char (&a)[6]', '{}', 'a', 's'),
    ('marr', 'char (&a)[6]', '{}', 'a', 's'),
    ('sv', 'std::string_view a', '{}', 'a', 's'),
    ('svr', 'std::string_view a', '{}', 'std::move(a)', 's'),
    ('svc', 'const std::string_view& a', '{}', 'a', 's'),
    ('str', 'std::string& a', '{}', 'a', 's'),
    ('strc', 'const std::string& a', '{}', 'a', 's'),
    ('strm', 'std::string& a', '{}', 'std::move(a)', 'm'),
    ('strm_cstr', 'std::string& a, const char* b', '{}{}', 'std::move(a), b', 'ms'),
    ('cstr_int', 'const char* a, int b', '{}{}', 'a, b', 'sv'),
    ('int_sv_pod', 'int a, std::string_view b, const w::pod24& c', '{}{}{}', 'a, b, c', 'vsv'),
    ('sv_al32', 'std::string_view a, const w::al32& b', '{}{}', 'a, b', 'sv'),
    ('thr_sv', 'const w::thr& a, std::string_view b', '{}{}', 'a, b', 'vs'),
    ('cstr_mov', 'const char* a, w::mov&& b', '{}{}', 'a, std::move(b)', 'sv'),
    ('cstr_sv', 'const char* a, std::string_view b', '{}{}', 'a, b', 'ss'),
    ('sv_str_cstr', 'std::string_view a, const std::string& b, const char* c', '{}{}{}', 'a, b, c', 'sss'),
    ('nc_cstr', 'const char* a', '{}', 'nocopy(a)', 'n'),
    ('nc_sv', 'std::string_view a', '{}', 'nocopy(a)', 'n'),
    ('nc_str', 'const std::string& a', '{}', 'nocopy(a)', 'n'),
    ('nc_sv_int', 'std::string_view a, int b', '{}{}', 'nocopy(a), b', 'nv'),
]
TS = {'': None, '_TS': 'ts', '_RTC': 'rtc', '_TSC': 'tsc'}


def shapes_tu(variants):
    out = [HEAD]
    for n, params, fmt, args, kinds in SHAPES:
        for macro in variants:
            p = 'xtr::sink& s' + (', ' + params if params else '')
            a = ', ' + args if args else ''
            ts = ''
            if macro.endswith('_TS'):
                p += ', std::int64_t w_ts'
                ts = 'w_ts, '
            out.append('extern "C" void w_shape__%s__%s(%s) { XTR_%s(s, %s"%s"%s); }' % (macro, n, p, macro, ts, fmt, a))
    return '\n'.join(out) + '\n'


LEVELS = ['fatal', 'error', 'warning', 'info', 'debug']


def levels_tu(prefix='w_lvl'):
    out = [HEAD]
    for t in ('', '_TS', '_RTC', '_TSC'):
        for tr in ('', 'TRY_'):
            m = tr + 'LOGL' + t
            ts = 'std::int64_t(7), ' if t == '_TS' else ''
            for l in LEVELS:
                out.append('extern "C" void %s__%s__%s(xtr::sink& s) { XTR_%s(%s, s, %s"{}", w_arg(1)); }' % (prefix, m, l, m, l, ts))
            m = tr + 'LOG' + t
            out.append('extern "C" void %s__%s__(xtr::sink& s) { XTR_%s(s, %s"{}", w_arg(1)); }' % (prefix, m, m, ts))
    return '\n'.join(out) + '\n'


MISC = HEAD + r'''
extern "C" void w_logger_path(const char* p) { xtr::logger l(p); }
extern "C" void w_logger_file(FILE* f) { xtr::logger l(f); }
extern "C" void w_logger_reopen(std::string p, FILE* f) { xtr::logger l(std::move(p), f); }
extern "C" void w_logger_storage(xtr::storage_interface_ptr* p) { xtr::logger l(std::move(*p)); }
extern "C" void w_logger_dtor(xtr::logger* l) { l->~logger(); }
namespace w { struct fineclock {
  using rep = std::int64_t; using period = std::nano; using duration = std::chrono::duration<rep, period>;
  using time_point = std::chrono::time_point<fineclock>; time_point now() const; }; }
extern "C" void w_logger_clock(xtr::storage_interface_ptr* p, w::fineclock* c) { xtr::logger l(std::move(*p), *c); }
'''

if __name__ == '__main__':
    import os
    d = sys.argv[1]
    open(os.path.join(d, 'w_shapes.cpp'), 'w').write(shapes_tu(['LOG', 'TRY_LOG', 'LOG_TS', 'TRY_LOG_TS']))
    open(os.path.join(d, 'w_levels.cpp'), 'w').write(levels_tu())
    open(os.path.join(d, 'w_misc.cpp'), 'w').write(MISC)
