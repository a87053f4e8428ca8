"""C27: passwords are stored salted and checked exactly."""
import sys
import types as pytypes
from symx.sx import Registry

LOG = []


def gensalt(rounds=12, prefix=b'2b'):
    LOG.append(None)
    return b'$2b$12$%d$' % len(LOG)


def hashpw(password, salt):
    """The ideal hash: a token that tells nothing and belongs to the salt and
    the password only."""
    if not salt.startswith(b'$2b$12$') or salt.count(b'$') != 4:
        raise ValueError('Invalid salt')
    i = int(salt.split(b'$')[3])
    LOG[i - 1] = password
    return salt + b'hash'


def checkpw(password, hashed_password):
    h = hashed_password
    if not isinstance(h, bytes) or not h.startswith(b'$2b$12$') or \
            not h.endswith(b'$hash'):
        raise ValueError('Invalid salt')
    return bool(LOG[int(h.split(b'$')[3]) - 1] == password)


stub = pytypes.ModuleType('bcrypt')
stub.gensalt, stub.hashpw, stub.checkpw = gensalt, hashpw, checkpw
sys.modules['bcrypt'] = stub

from jsonclasses import types  # noqa: E402
from jsonclasses.ctx import Ctx  # noqa: E402
from props.util import klass, persisted, vexc  # noqa: E402

H = Registry()
BOUNDS = {
    'passwords': 'strings of 0..3 characters over 4, symbolic; null and '
                 'other kinds of values',
    'history': 'constructor, set, assignment, validation, saving, in every '
               'order of two; two objects',
    'checks': 'checkpw against a passed in value, a constant, another field; '
              'authby and authbycheckpw'}
ASSUMPTIONS = ['bcrypt is replaced by an ideal hash: a hash checks with '
               'exactly the password it was made of, and differs for every '
               'salt. The strength of bcrypt itself is outside.',
               'A stored value that is checked was salted before.']


def password(sx, n, minlen=0):
    return sx.str(n, 3, 'ab1 ', minlen)


def is_hash(s):
    return isinstance(s, str) and s.startswith('$2b$12$') and \
        s.endswith('$hash')


def plain_of(h):
    """What the ideal hash was made of."""
    v = LOG[int(h.split('$')[3]) - 1]
    return v.decode()


def hashed(sx, h, p, what):
    sx.check(is_hash(h), f'{what} is stored as a hash')
    sx.check(sx.same(plain_of(h), p), 'of exactly the input')


@H(configs=['init', 'set', 'json name', 'item', 'save'])
def stored(sx, how):
    """The field has the hash of the input and nothing hashes it again."""
    del LOG[:]
    p = password(sx, 'p')
    K = klass({'pass_word': types.str.salt, 'l': types.listof(types.str.salt),
               's': types.str.setonsave(types.salt), 'n': types.int})
    if how == 'init':
        o = K(pass_word=p)
    elif how == 'json name':
        o = K(passWord=p)
    elif how == 'set':
        o = K(n=1)
        sx.check(o.pass_word is None and len(LOG) == 0, 'null stays null')
        o.set(pass_word=p)
    elif how == 'item':
        o = K(l=[p, 'x'])
        hashed(sx, o.l[0], p, 'an item')
        hashed(sx, o.l[1], 'x', 'an item')
        sx.check(o.l[0] != o.l[1], 'each with its own salt')
        return
    else:
        o = K(s=p)
        sx.check(sx.same(o.s, p), 'not before saving')
        o.save()
        hashed(sx, o.s, p, 'the password')
        return
    h = o.pass_word
    hashed(sx, h, p, 'the password')
    sx.check(len(LOG) == 1, 'it is hashed once')
    for act in (lambda: o.validate(), lambda: o.save(), lambda: o.tojson(),
                lambda: o.set(n=3), lambda: persisted(o), lambda: o.save()):
        act()
        sx.check(o.pass_word == h, 'nothing else changes it')
    sx.check(len(LOG) == 1, 'or hashes it again')
    q = password(sx, 'q')
    o.set(pass_word=q)
    hashed(sx, o.pass_word, q, 'a new password')
    sx.check(o.pass_word != h, 'with a new salt')


@H(configs=[None])
def salted(sx):
    """Two objects with one password have different hashes."""
    del LOG[:]
    K = klass({'p': types.str.salt})
    a, b = password(sx, 'a'), password(sx, 'b')
    x, y = K(p=a), K(p=b)
    hashed(sx, x.p, a, 'the password')
    hashed(sx, y.p, b, 'the password')
    sx.check(x.p != y.p, 'every hash has its own salt')


@H(configs=['int', 'bool', 'list', 'none'], reach=())
def other_kinds(sx, kind):
    del LOG[:]
    v = {'int': lambda: sx.int('i', 0, 3), 'bool': lambda: sx.bool('b'),
         'list': lambda: [sx.int('i', 0, 3)], 'none': lambda: None}[kind]()
    K = klass({'p': types.str.salt, 'x': types.any.salt})
    sx.check(sx.same(K(x=v).x, v) or kind == 'list', 'other values stay')
    e = vexc(lambda: sx.check(K(p=v).p is None, 'null stays null'))
    sx.check((e is None) == (kind == 'none'), 'a password is a string')
    sx.check(len(LOG) == 0, 'nothing is hashed')


@H(configs=[1, 2, 3], reach=('ok', 'short'))
def rules(sx, n):
    """Rules before salt see the password, rules after it the hash."""
    del LOG[:]
    seen = []
    K = klass({'p': types.str.minlength(n).salt.validate(
        lambda v: seen.append(v)).required})
    p = password(sx, 'p')
    made = []
    e = vexc(lambda: made.append(K(p=p)))
    if e is None:
        sx.reach('ok')
        sx.check(len(p) >= n, 'a short password is refused')
        made[0].validate()
        sx.check(len(seen) == 1 and seen[0] == made[0].p and
                 is_hash(seen[0]), 'rules after salt see the hash')
    else:
        sx.reach('short')
        sx.check(len(p) < n and list(e.keypath_messages) == ['p'], 'exactly '
                 'a short password is refused')
        sx.check(len(LOG) == 0, 'and not hashed')


CHECKERS = ['passin', 'authby', 'authbycheckpw', 'const', 'field']


@H(configs=CHECKERS, reach=('right', 'wrong'))
def checked(sx, how):
    """A password is right exactly if it is the one that was stored."""
    del LOG[:]
    p, q = password(sx, 'p'), password(sx, 'q')
    if how == 'const':
        t, chk = types.str.salt, types.checkpw(
            types.transform(lambda v: q))
    elif how == 'field':
        t, chk = types.str.salt, types.checkpw(types.this.fval('other'))
    elif how == 'passin':
        t, chk = types.str.salt, types.checkpw(types.passin)
    elif how == 'authby':
        t, chk = types.str.salt.authby(types.checkpw(types.passin)), None
    else:
        t, chk = types.str.salt.authbycheckpw, None
    K = klass({'p': t, 'other': types.str, 'n': types.str.authidentity})
    if chk is None:
        f = K.cdef.field_named('p')
        sx.check([x.name for x in K.cdef.auth_by_fields] == ['p'] and
                 [x.name for x in K.cdef.auth_identity_fields] == ['n'],
                 'the definition says what identifies and authorizes')
        chk = f.fdef.auth_by_checker
    o = K(p=p, other=q)
    e = vexc(lambda: chk.modifier.validate(
        Ctx.rootctxp(o, 'p', o.p, q)))
    sx.reach('right' if e is None else 'wrong')
    sx.check(sx.Iff(e is None, sx.eq(p, q)), 'exactly the stored password is '
             'right')
    if e is not None:
        sx.check(list(e.keypath_messages) == ['p'], 'the error names the '
                 'field')


@H(configs=[(a, b) for a in ('hash', 'none') for b in
            ('none', 'int', 'list', 'bool', 'empty')])
def unusable(sx, cfg):
    """No password, or something that is none, is wrong and nothing else."""
    del LOG[:]
    have, given = cfg
    K = klass({'p': types.str.salt.authbycheckpw})
    o = K(p=password(sx, 'p', 1)) if have == 'hash' else K()
    v = {'none': lambda: None, 'int': lambda: sx.int('i', 0, 3),
         'list': lambda: [o.p], 'bool': lambda: sx.bool('b'),
         'empty': lambda: ''}[given]()
    chk = K.cdef.field_named('p').fdef.auth_by_checker
    e = vexc(lambda: chk.modifier.validate(Ctx.rootctxp(o, 'p', o.p, v)))
    sx.check(e is not None, 'it is refused')
