"""Vocabulary shared by the rules: terms of the label-evaluation code."""
from .base import *


def eff_guard(e):
    """Guard of an effect, plus what selection terms (first/last element such that g) guarantee."""
    g = e.cond
    vals = [t for t in (e.value, e.term, e.target) if t is not None]
    for t in vals:
        for s in subterms(t):
            if s.op in ('first', 'last') and len(s.args) == 4:
                g = And(g, s.args[2])
    return g


def strip_last(t):
    while t is not None and t.op in ('first', 'last'):
        t = t.args[-1]
    return t


def prefix_char(t):
    """t when it denotes a character found by prefix lookup, else None"""
    t = strip_last(t)
    if t is not None and t.op == 'elem' and callee_name(t.args[0]) == 'get_chars_from_prefix':
        return t
    return None


def chain(t):
    out = [t]
    while t.op == 'loopvar':
        t = t.args[3]
        out.append(t)
    return out


def same_var(a, b):
    return a is b or b in chain(a) or a in chain(b)


def position_of(ch, label):
    """index term i when ch ranges over the characters starting at label[i]"""
    call = ch.args[0]
    cp = arg(call, 'cp', 0)
    if cp is None:
        return None
    if cp.op == 'sub' and cp.args[0] is label:
        return cp.args[1]
    if cp.op == 'elem' and cp.args[0] is label:
        return T('index', label, cp.args[1])
    return None


VARIANT_SOURCES = {'get_variants', 'get_reflexive_variants', 'get_variant'}


def variant_elems(v, direct=False):
    out = []
    items = [v]
    if direct:
        items = list(v.args[0]) if v.op == 'tuple' else [v]
        return [strip_last(t) for t in items if strip_last(t).op == 'elem' and callee_name(strip_last(t).args[0]) in VARIANT_SOURCES]
    for t in subterms(v):
        if t.op == 'elem' and callee_name(t.args[0]) in VARIANT_SOURCES and t not in out:
            out.append(t)
    return out


def prefix_param(x, name):
    """the parameter with its None default replaced by the empty tuple, as the code normalises it"""
    p = T('param', name)
    for e in x.effects:
        for t in ([e.term] if e.term is not None else []) + ([e.value] if e.value is not None else []):
            for s in subterms(t):
                if s.op == 'ite' and any(l is p for _, l in leaves(s)) and len(leaves(s)) == 2 and \
                        any(l.op == 'tuple' and not l.args[0] or l.op == 'list' and not l.args[0] for _, l in leaves(s)):
                    return s
    return p


def concat_parts(t):
    t = strip_tuple(t)
    if t.op == 'bin' and t.args[0] == 'Add':
        return concat_parts(t.args[1]) + concat_parts(t.args[2])
    if t.op in ('tuple', 'list'):
        out = []
        for i in t.args[0]:
            if i.op == 'star':
                out += concat_parts(i.args[0])
            else:
                out.append(T('one', i))
        return out
    return [t]


def strip_tuple(t):
    while t.op == 'call' and t.args[0].op == 'glob' and t.args[0].args[0] in ('builtins.tuple', 'builtins.list') and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


def concat_eq(a, b):
    return concat_parts(a) == concat_parts(b)


def is_direct_item(v, ch):
    """ch is itself an item of the (nested) display / concatenation v"""
    v = strip_last(v)
    if v is ch:
        return True
    if v.op in ('tuple', 'list'):
        return any(is_direct_item(i, ch) for i in v.args[0])
    if v.op == 'bin' and v.args[0] == 'Add':
        return is_direct_item(v.args[1], ch) or is_direct_item(v.args[2], ch)
    if v.op == 'star':
        return is_direct_item(v.args[0], ch)
    return False


def is_len_of(t, ch):
    return t.op == 'call' and callee_name(t) == 'len' and len(t.args[1]) == 1 and \
        t.args[1][0] in (ch, T('attr', ch, 'cp'))


def advances(x, t, kind, ch):
    """t is a loop-carried variable that starts at the beginning of the label and moves past each character"""
    if t.op != 'loopvar':
        return False
    init, upd = t.args[3], x.an.updates.get(t)
    if upd is None:
        return False
    if kind == 'prefix':
        return init.op in ('tuple', 'list') and not init.args[0] and \
            concat_parts(upd) == [t, T('attr', ch, 'cp')]
    if kind == 'index':
        return init is const(0) and upd.op == 'bin' and upd.args[0] == 'Add' and \
            (upd.args[1] is t and is_len_of(upd.args[2], ch) or upd.args[2] is t and is_len_of(upd.args[1], ch))
    if kind == 'suffix':
        upd = strip_tuple(upd)
        return upd.op == 'sub' and strip_tuple(upd.args[0]) is t and upd.args[1].op == 'slice' and \
            is_len_of(upd.args[1].args[0], ch) and upd.args[1].args[1] is NONE and upd.args[1].args[2] is NONE
    return False
