"""Contracts and ghost models shared by the properties."""
import re
from ..terms import *
from ..values import *
from ..interp import ThrowEx
from ..cxx import ExtractError


def I_(v): return num(v, 'I')


def throws(I, base, args, n): raise ThrowEx('gthrow')


def handler(J=None):
    """ghost Jacobian handler: J(r,c) is the coefficient accumulated so far"""
    return Struct('Matrixhandler', {'J': J or Fn(lambda r, c: R(0), 2, 'J')})


def h_add(I, base, args, n):
    r, c, v = [I.rv(a) for a in args]
    h = I.read(base)
    old = h.f['J']
    if getattr(I, 'handler_frame', None) is not None and not I.quiet:
        I.oblige('matrix entry lies in the frame', I.handler_frame(r, c), I.loc(n), 'frame')
    v = lift(v, 'R')
    I.write(base.sub(('f', 'J')), Fn(lambda x, y: add(old.get(x, y), ite(and_(eq(x, r), eq(y, c)), v, R(0))), 2, 'J'))


def h_set(I, base, args, n):
    r, c, v = [I.rv(a) for a in args]
    h = I.read(base)
    old = h.f['J']
    if getattr(I, 'handler_frame', None) is not None and not I.quiet:
        I.oblige('matrix entry lies in the frame', I.handler_frame(r, c), I.loc(n), 'frame')
    v = lift(v, 'R')
    I.write(base.sub(('f', 'J')), Fn(lambda x, y: ite(and_(eq(x, r), eq(y, c)), v, old.get(x, y)), 2, 'J'))


def aux_epsilon(I):
    """Aux::epsilon is a mutable global: any positive number"""


def install(I):
    I.contracts['exception_builder'] = throws
    I.contracts['Matrixhandler::add_to_coefficient'] = h_add
    I.contracts['Matrixhandler::set_coefficient'] = h_set
    I.contracts['validate_json'] = validate
    for q in I.prog.funcs:
        # JSON schemata only matter inside validate_json, which is a contract
        if re.search(r'(^|::)(get_\w*schema|make_\w*schema\w*)$', q): I.contracts.setdefault(q, lambda I, b, a, n: var('schema', 'J'))
    old = I.lib.global_var

    def gv(r):
        if r.get('name') == 'epsilon' and 'const' not in r.get('type', {}).get('qualType', ''):
            return var('Aux.epsilon', 'R')
        return old(r)
    I.lib.global_var = gv


def validate(I, base, args, n):
    """contract of Aux::schema::validate_json: returns normally or throws, changes nothing"""
    if I.branch(fresh('schema_ok', 'B')): return None
    raise ThrowEx('validation_error')


def si_contract(I, base, args, n):
    """contract of Measure::parse_to_si: the SI value of the JSON quantity under this measure"""
    b = I.read(base)
    nm = b.f['name']
    if nm.op != 'str': raise Unsupported('measure name')
    return uf('si_' + nm.data, (I.rv(args[0]),), 'R')


def method(prog, cls, name, n=None):
    """the implementation of a virtual method seen from class cls"""
    l = prog.find_method(cls, name, n)
    if len(l) != 1: raise ExtractError('%d implementations of %s::%s' % (len(l), cls, name))
    return l[0]
