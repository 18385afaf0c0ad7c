"""Assumed contracts of the C++ runtime, ICU and the Balau exception machinery."""
import z3, re
from .core import *
from .logic import *
from . import ir, strs
from .strs import StrV, getstr, setstr, new_str, ARR

MODELS = []
def model(rx):
    def d(fn):
        MODELS.append((re.compile(rx), fn)); return fn
    return d

@model(r'^__cxa_allocate_exception$')
def m_exalloc(E, st, a, ins, d):
    o = E.new_obj(st, 'exception', None, 'heap'); return Ptr(o.id)
@model(r'^__cxa_free_exception$')
def m_exfree(E, st, a, ins, d): return None
@model(r'^__cxa_throw$')
def m_throw(E, st, a, ins, d):
    ti = ins.ops[1].v if ins.ops[1].k == 'g' else '?'
    return Raise(Exc(ti, a[0]))
@model(r'^__cxa_begin_catch$')
def m_bc(E, st, a, ins, d):
    e = a[0]
    if isinstance(e, Exc):
        st.caught.append(e)
        if e.obj is None:
            o = E.new_obj(st, 'exception', None, 'heap'); return Ptr(o.id)
        return e.obj
    return e
@model(r'^__cxa_end_catch$')
def m_ec(E, st, a, ins, d):
    if st.caught: st.caught.pop()
    return None
@model(r'^__cxa_rethrow$')
def m_rt(E, st, a, ins, d): return Raise(st.caught[-1])
@model(r'^(__clang_call_terminate|std::terminate\(\))$')
def m_term(E, st, a, ins, d):
    E.oblige(st, 'terminate', 'std::terminate reached', z3.BoolVal(False)); return Outs([])
@model(r'^__cxa_guard_acquire$')
def m_ga(E, st, a, ins, d): return bv(1, 32)
@model(r'^__cxa_guard_(release|abort)$')
def m_gr(E, st, a, ins, d): return None
@model(r'^__cxa_atexit$')
def m_ae(E, st, a, ins, d): return bv(0, 32)
@model(r'^(operator new\(unsigned long\)|operator new\[\]\(unsigned long\)|malloc)$')
def m_new(E, st, a, ins, d):
    n = a[0]
    o = E.new_obj(st, 'new', n.as_long() if z3.is_bv_value(n) else None, 'heap')
    o.meta = {'heap': True, 'bytes_n': n}
    return Ptr(o.id)
@model(r'^(operator delete\(void\*.*\)|operator delete\[\]\(void\*.*\)|free)$')
def m_del(E, st, a, ins, d):
    if isinstance(a[0], Ptr) and a[0].obj > 0 and a[0].obj in st.mem:
        o = E.wobj(st, a[0].obj)
        if o.freed: E.oblige(st, 'double-free', 'double delete', z3.BoolVal(False))
        o.freed = True
        E.log(('cell', o.id, -1))
    return None

# Balau exceptions: constructors carry no semantics beyond their type
@model(r'^Balau::Exception::\w+(?:<.*>)?::~?\w+\(')
def m_balex(E, st, a, ins, d): return None
@model(r'^void Balau::Exception::throwBalauException<|^Balau::Exception::.*[tT]hrow')
def m_throwbal(E, st, a, ins, d): return NotImplemented
@model(r'^boost::stacktrace::|^boost::core::demangle|^boost::typeindex')
def m_bst(E, st, a, ins, d):
    raise Unsupported(d)

# --- <new>/tuple noise
@model(r'^std::ios_base::Init::')
def m_ios(E, st, a, ins, d): return None

# --- ICU character classification: uninterpreted predicates of the code point
ICU = {}
def icu_fn(name, w=8):
    f = ICU.get((name, w))
    if f is None:
        f = ICU[(name, w)] = z3.Function('icu_' + name, z3.BitVecSort(32), z3.BitVecSort(w))
    return f
@model(r'^u_(islower|isupper|isdigit|isxdigit|isalpha|isalnum|iscntrl|isJavaSpaceChar|isWhitespace|isblank|isprint|ispunct|isIDStart|isIDPart|isspace|isgraph|isUWhiteSpace|isbase|isdefined|istitle)(_\d+)?$')
def m_icu(E, st, a, ins, d):
    n = re.match(r'^u_(\w+?)(_\d+)?$', d).group(1)
    return icu_fn(n)(a[0])
@model(r'^u_(toupper|tolower|totitle|foldCase)(_\d+)?$')
def m_icu2(E, st, a, ins, d):
    n = re.match(r'^u_(\w+?)(_\d+)?$', d).group(1)
    return icu_fn(n, 32)(a[0])
