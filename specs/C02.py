"""C02: the classification predicates of Type/Character.hpp"""
from irv.lib import *
import unicodedata
# general categories in ICU's numbering (UCharCategory)
CATS = ['Cn', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Mn', 'Me', 'Mc', 'Nd', 'Nl', 'No', 'Zs', 'Zl', 'Zp', 'Cc', 'Cf', 'Co', 'Cs', 'Pd', 'Ps', 'Pe', 'Pc', 'Po', 'Sm', 'Sc', 'Sk', 'So', 'Pi', 'Pf']
cat = z3.Function('general_category', z3.BitVecSort(32), z3.BitVecSort(8))
B32 = z3.BitVecSort(32)
idstart, idpart = z3.Function('ID_Start', B32, z3.BoolSort()), z3.Function('ID_Continue', B32, z3.BoolSort())
upper, lower = z3.Function('simple_uppercase', B32, B32), z3.Function('simple_lowercase', B32, B32)
def isin(c, *names):
    return z3.Or(*[cat(c) == CATS.index(n) for k in names for n in CATS if n == k or (len(k) == 1 and n[0] == k)])
def rng(c, a, b): return z3.And(z3.UGE(c, a), z3.ULE(c, b))
def ws(c): return z3.Or(z3.And(isin(c, 'Z'), c != 0xA0, c != 0x2007, c != 0x202F), rng(c, 9, 13), rng(c, 0x1C, 0x1F))
# the documented contracts of ICU (unicode/uchar.h)
ICU = dict(
    islower=lambda c: isin(c, 'Ll'), isupper=lambda c: isin(c, 'Lu'), istitle=lambda c: isin(c, 'Lt'), isdigit=lambda c: isin(c, 'Nd'), isalpha=lambda c: isin(c, 'L'), isalnum=lambda c: isin(c, 'L', 'Nd'),
    isxdigit=lambda c: z3.Or(isin(c, 'Nd'), rng(c, 0x41, 0x46), rng(c, 0x61, 0x66), rng(c, 0xFF21, 0xFF26), rng(c, 0xFF41, 0xFF46)),
    iscntrl=lambda c: z3.Or(isin(c, 'Cc', 'Cf', 'Zl', 'Zp'), rng(c, 0, 0x1F), rng(c, 0x7F, 0x9F)),
    isISOControl=lambda c: z3.Or(rng(c, 0, 0x1F), rng(c, 0x7F, 0x9F)),
    isJavaSpaceChar=lambda c: isin(c, 'Z'), isWhitespace=ws, isblank=lambda c: z3.Or(c == 9, isin(c, 'Zs')),
    isspace=lambda c: z3.Or(isin(c, 'Z'), rng(c, 9, 13), c == 0x85), isprint=lambda c: z3.Not(isin(c, 'C')), isgraph=lambda c: z3.Not(isin(c, 'Cc', 'Cf', 'Cs', 'Cn', 'Z')), isdefined=lambda c: z3.Not(isin(c, 'Cn')),
    ispunct=lambda c: isin(c, 'P'), isIDStart=lambda c: idstart(c), isIDPart=lambda c: idpart(c))
MODELS = []
def _m(n, f): MODELS.append((re.compile(rf'^u_{n}(_\d+)?$'), f))
for n, p in ICU.items(): _m(n, lambda E, st, a, ins, d, p=p: z3.If(p(a[0]), bv(1, 8), bv(0, 8)))
_m('charType', lambda E, st, a, ins, d: cat(a[0]))
_m('toupper', lambda E, st, a, ins, d: upper(a[0]))
_m('tolower', lambda E, st, a, ins, d: lower(a[0]))

class Pred(Spec):
    def __init__(self, nm, what, p): self.nm, self.p = nm, p; self.title = self.what = what; self.fn = rf'^Balau::Character::{nm}\('
    def setup(self, E, st, f):
        self.c = fbv('c', 32)
        st.assume(z3.ULE(cat(self.c), 29))
        # the general categories of ASCII (fixed by the Unicode stability policy) and of unassigned values
        st.assume(*[z3.Implies(self.c == i, cat(self.c) == CATS.index(unicodedata.category(chr(i)))) for i in range(128)])
        return [self.c]
    def model_inputs(self, m): return dict(c=m.eval(self.c, True).as_long())
    def post(self, E, st, ret, exc):
        if exc is not None: return [('no exception', z3.BoolVal(False))]
        r = ret if z3.is_bool(ret) else ret != 0
        return [(f'true exactly for: {self.what}', Iff(r, self.p(self.c)))]
class Map(Pred):
    def post(self, E, st, ret, exc): return [(self.what, z3.And(z3.BoolVal(exc is None), ret == self.p(self.c)))]
HARNESS = ['C02.cpp']
SPECS = [Pred('isLower', 'general category Ll', ICU['islower']), Pred('isUpper', 'general category Lu', ICU['isupper']), Pred('isDigit', 'general category Nd', ICU['isdigit']),
    Pred('isHexDigit', 'ASCII 0-9, a-f, A-F', lambda c: z3.Or(rng(c, 0x30, 0x39), rng(c, 0x41, 0x46), rng(c, 0x61, 0x66))),
    Pred('isOctalDigit', 'ASCII 0-7', lambda c: rng(c, 0x30, 0x37)), Pred('isBinaryDigit', 'ASCII 0-1', lambda c: rng(c, 0x30, 0x31)),
    Pred('isAlpha', 'general category L', ICU['isalpha']), Pred('isAlphaOrDecimal', 'general category L or Nd', ICU['isalnum']), Pred('isControlCharacter', 'control characters (ISO controls, Cc, Cf, Zl, Zp)', ICU['iscntrl']),
    Pred('isSpace', 'general category Z (excludes CR and LF)', ICU['isJavaSpaceChar']), Pred('isWhitespace', 'white space (Z except no-break spaces, and the white space controls)', ws), Pred('isBlank', 'TAB and general category Zs', ICU['isblank']),
    Pred('isPrintable', 'general categories other than C', ICU['isprint']), Pred('isPunctuation', 'general category P', ICU['ispunct']), Pred('isIdStart', 'ID_Start', ICU['isIDStart']), Pred('isIdPart', 'ID_Continue', ICU['isIDPart']),
    Pred('isBreakableCharacter', 'white space and the hyphen', lambda c: z3.Or(ws(c), c == 0x2D)), Pred('isInclusiveBreakableCharacter', 'the hyphen', lambda c: c == 0x2D),
    Pred('isValid', 'values up to U+10FFFF', lambda c: z3.ULE(c, 0x10FFFF)), Map('toUpper', 'the simple uppercase mapping', upper), Map('toLower', 'the simple lowercase mapping', lower)]
CONTRACTS = []
DRIVER = 'C02.cpp'
LIBS = ()
BOUND = 'every value from 0 to 0x110000 and samples of the rest of the 32-bit range (complete for code points)'
ASSUMPTIONS = ['ICU predicates have their documented meaning in terms of the general category (unicode/uchar.h)']
NOTE = '''All 21 predicates and mappings of Character are proved loop-free for all 2^32 values, given the documented meaning of the ICU functions they call (general category,
ID_Start, ID_Continue and simple case mapping are uninterpreted functions); the driver also compares them with ICU's property tables for every code point.'''
