"""C06: string format validators accept exactly their language."""
import re
import unicodedata
from symx.sx import Registry
from jsonclasses import types
from props.util import klass, vexc, param, PARAM_FORMS

H = Registry()
BOUNDS = {
    'character class rules': 'every string of length 0..8 over 28 characters '
    '(letters, digits, blanks, punctuation, accented and CJK letters, '
    'superscripts, fractions)',
    'email': 'every string of length 0..14 over "aZ1_.%+-@| !" and newline',
    'url': 'scheme prefix chosen from 9, then every tail of length 0..10 over '
    '"aZ1-./:?# _" and newline, plus localhost/dotted-quad stems',
    'hexcolor': 'every string of length 0..9 over "#09afAFgG" and newline',
    'securepw': 'every string of length 0..10 over 50 characters (no line '
    'breaks)', 'match': '9 patterns, strings of length 0..5 over "ab1 "'}
ASSUMPTIONS = ['the engine\'s encoding of regular expressions, which the '
               'self-test compares with the re module']

CHARS = 'abzAZ019 _-.\n\t@#éßÜñ中ぁλ²½٣Ⅷª'


def judge(sx, t, v, want, what):
    obj = klass({'a': t})()
    obj.a = v
    e = vexc(lambda: obj.validate())
    if e is None:
        sx.reach('accepted')
        sx.check(want, f'{what}: an accepted string is in the language')
    else:
        sx.reach('rejected')
        sx.check(sx.Not(want), f'{what}: a string of the language is accepted')
        sx.check(set(e.keypath_messages) == {'a'},
                 f'{what}: the error names the field')


def is_letter(c):
    return unicodedata.category(c)[0] == 'L'


def is_decimal(c):
    return unicodedata.decimal(c, None) is not None


def is_digit(c):
    return unicodedata.digit(c, None) is not None


def is_number(c):
    return unicodedata.numeric(c, None) is not None


CLASSES = {
    'digit': is_digit, 'alpha': is_letter, 'numeric': is_number,
    'alnum': lambda c: is_letter(c) or is_decimal(c) or is_digit(c) or
    is_number(c)}


@H(configs=[(n, k) for n in CLASSES for k in range(9)],
   reach=('accepted', 'rejected'))
def char_classes(sx, cfg):
    n, k = cfg
    v = sx.str('v', k, CHARS, minlen=k)
    want = sx.And(k > 0, sx.all_chars(v, CLASSES[n]))
    judge(sx, getattr(types.str, n), v, want, n)


EMAIL = (r'[A-Za-z0-9_][A-Za-z0-9._%+-]*@[A-Za-z0-9.-]+\.[A-Za-z]{2,}'
         r'(\.[A-Za-z0-9-]+)*')


@H(configs=list(range(15)), thorough=list(range(25)),
   reach=('accepted', 'rejected'))
def email(sx, n):
    v = sx.str('v', n, 'aZ1_.%+-@| !\n', minlen=n)
    judge(sx, types.str.email, v, sx.re_match('fullmatch', EMAIL, v), 'email')


LABEL = r'[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?'
URL = (r'(http|https|ftp|ftps)://((' + LABEL + r'\.)+'
       r'([A-Za-z]{2,6}|[A-Za-z0-9-]{2,})\.?|localhost|'
       r'[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3}\.[0-9]{1,3})(:[0-9]+)?'
       r'(|/|[/?][^ \t\n]+)')
SCHEMES = ['http://', 'https://', 'ftp://', 'ftps://', 'http:/', 'htp://',
           '', 'httpss://', 'HTTP://']
STEMS = ['', 'localhost', '1.2.3.', 'a.co', 'a.co:', 'a.co/', 'a.co?']


@H(configs=[(s, t, n) for s in SCHEMES for t in STEMS
            for n in (range(11) if t == '' else range(6))],
   reach=('accepted', 'rejected'))
def url(sx, cfg):
    s, t, n = cfg
    v = s + t + sx.str('v', n, 'aZ1-./:?# _\n', minlen=n)
    judge(sx, types.str.url, v, sx.re_match('fullmatch', URL, v,
                                            re.IGNORECASE), 'url')


@H(configs=list(range(10)), reach=('accepted', 'rejected'))
def hexcolor(sx, n):
    v = sx.str('v', n, '#09afAFgG\n', minlen=n)
    obj = klass({'a': types.str.hexcolor})(a=v)
    stripped = v[1:] if n > 0 and v.startswith('#') else v
    sx.check(sx.eq(obj.a, stripped), 'hexcolor: one leading # is dropped')
    e = vexc(lambda: obj.validate())
    want = sx.re_match('fullmatch', '[0-9a-fA-F]{6}', stripped)
    sx.reach('accepted' if e is None else 'rejected')
    sx.check(sx.Iff(want, e is None), 'hexcolor: exactly six hex digits')


SPECIAL = '!@#$&*`~()-_+=[]{}:;\'",<>.?\\|/'


@H(configs=list(range(11)), thorough=list(range(17)),
   reach=('accepted', 'rejected'))
def securepw(sx, n):
    v = sx.str('v', n, SPECIAL + 'AMZamz059 %^éÉ²١', minlen=n)
    want = sx.And(sx.any_char(v, lambda c: 'A' <= c <= 'Z'),
                  sx.any_char(v, lambda c: 'a' <= c <= 'z'),
                  sx.any_char(v, lambda c: '0' <= c <= '9'),
                  sx.any_char(v, lambda c: c in SPECIAL))
    judge(sx, types.str.securepw, v, want, 'securepw')


PATTERNS = ['ab', '^a.*b$', '[0-9]+', 'a|b1', '^$', 'a{2}', '^ab', 'b$',
            '^[a-b]{1,3}1?$']


@H(configs=[(p, f) for p in PATTERNS for f in PARAM_FORMS],
   reach=('accepted', 'rejected'))
def match(sx, cfg):
    p, form = cfg
    v = sx.str('v', 5, 'ab1 ')
    judge(sx, types.str.match(param(form, p)), v,
          sx.re_match('search', p, v), 'match')


@H(configs=[(n, k) for n in ('digit', 'alpha', 'numeric', 'alnum', 'email',
                             'url', 'hexcolor', 'securepw', 'match')
            for k in ('none', 'int', 'bool', 'float', 'list')])
def not_a_string(sx, cfg):
    """The string rules say nothing about values that are not strings."""
    n, k = cfg
    t = getattr(types.any, n)
    if n == 'match':
        t = t('a')
    judge(sx, t, sx.value('v', k), True, n)
