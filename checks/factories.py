"""C24: global design code and the factories."""

import types

from symx import m
from symx.harness import harness

P = 'C24'
TITLE = {'mc2010': ('fib Model Code 2010', 'MC2010'),
         'ec2_2004': ('EUROCODE 2 1992-1-1:2004', 'EC2_2004'),
         'ec2_2023': ('EUROCODE 2 1992-1-1:2023', 'EC2_2023'),
         'mc2020': ('fib Model Code 2020', None)}
BAD = ['', 'foo', 'ec2', 'mc2010 ', 3, 2010.0, True, types]


def sc():
    import structuralcodes

    return structuralcodes


def mats():
    import structuralcodes.materials.concrete as cc
    import structuralcodes.materials.reinforcement as rr

    return cc, rr


def spell(c, tag, code):
    how = c.choice(f'{tag} spelling', ['lower', 'upper', 'mixed'])
    return {'lower': code, 'upper': code.upper(),
            'mixed': code[:1].upper() + code[1:]}[how]


def make(c, tag, what, code_kw, fck, fyk):
    cc, rr = mats()
    if what == 'concrete':
        return cc.create_concrete(fck=fck, name='x', **code_kw)
    return rr.create_reinforcement(fyk=fyk, Es=2e5, ftk=1.1 * fyk, epsuk=0.05,
                                   name='x', **code_kw)


def expect(c, tag, o, what, code, fck, fyk):
    cc, rr = mats()
    short = TITLE[code][1]
    if short is None:
        c.check(f'{tag}: no material of another code', o is None)
        return
    k = getattr(cc, f'Concrete{short}') if what == 'concrete' else getattr(
        rr, f'Reinforcement{short}')
    c.check(f'{tag}: class', type(o) is k)
    if what == 'concrete':
        c.eq(f'{tag}: fck', o.fck, fck)
    else:
        c.eq(f'{tag}: fyk', o.fyk, fyk)
        c.eq(f'{tag}: ftk', o.ftk, 1.1 * fyk)
        c.eq(f'{tag}: Es', o.Es, 2e5)
        c.eq(f'{tag}: epsuk', o.epsuk, 0.05)


OPS = ['set', 'reset', 'set module', 'set invalid', 'create', 'create named',
       'create invalid']


@harness(P, 'histories', bounds='three operations, each a (re)selection by '
         'name, by module, an invalid selection or the creation of a concrete '
         'or reinforcement with or without a named code, then a creation '
         'without a named code', max_paths=60000,
         params=[dict(first=o, what=w) for o in OPS
                 for w in ('concrete', 'reinforcement')])
def histories(c, first, what):
    s = sc()
    cur = None
    fck, fyk = c.real('fck', 12, 90), c.real('fyk', 200, 700)
    s.set_design_code(None)
    try:
        for i in range(3):
            op = first if i == 0 else c.choice(f'op {i}', OPS)
            tag = f'step {i}'
            if op == 'reset':
                if c.choice(f'{tag} none', [True, False]):
                    s.set_design_code(None)
                else:
                    s.set_design_code()
                cur = None
            elif op in ('set', 'set module'):
                code = c.choice(f'{tag} code', list(TITLE) if i < 2 else
                                ['mc2010', 'ec2_2023'])
                cur = code
                if op == 'set':
                    s.set_design_code(code.upper() if i % 2 else code)
                else:
                    s.set_design_code(getattr(s.codes, code))
            elif op == 'set invalid':
                c.check('refused', c.raises(lambda: s.set_design_code('foo')))
            elif op == 'create':
                if cur is None:
                    c.check('refused',
                            c.raises(lambda: make(c, tag, what, {}, fck, fyk)))
                else:
                    expect(c, tag, make(c, tag, what, {}, fck, fyk), what,
                           cur, fck, fyk)
            elif op == 'create named':
                code = c.choice(f'{tag} code', ['mc2010', 'ec2_2004'])
                o = make(c, tag, what, {'design_code': code}, fck, fyk)
                expect(c, tag, o, what, code, fck, fyk)
            else:
                c.check('refused',
                        c.raises(lambda: make(c, tag, what, {'design_code': 'foo'},
                                          fck, fyk)))
        for w in ('concrete', 'reinforcement'):
            if cur is None:
                c.check('refused',
                        c.raises(lambda: make(c, 'end', w, {}, fck, fyk)))
            else:
                expect(c, f'end {w}', make(c, 'end', w, {}, fck, fyk), w, cur,
                       fck, fyk)
    finally:
        s.set_design_code(None)


@harness(P, 'named codes', bounds='every code and spelling, no global '
         'selection or another one')
def named(c):
    s = sc()
    fck, fyk = c.real('fck', 12, 90), c.real('fyk', 200, 700)
    what = c.choice('what', ['concrete', 'reinforcement'])
    glob = c.choice('global', [None] + list(TITLE))
    code = c.choice('code', list(TITLE))
    try:
        s.set_design_code(glob)
        o = make(c, 'named', what, {'design_code': spell(c, 'named', code)},
                 fck, fyk)
        expect(c, 'named', o, what, code, fck, fyk)
        if glob is None:
            c.check('refused',
                    c.raises(lambda: make(c, 'after', what, {}, fck, fyk)))
        else:
            expect(c, 'after', make(c, 'after', what, {}, fck, fyk), what,
                   glob, fck, fyk)
    finally:
        s.set_design_code(None)


@harness(P, 'invalid codes', bounds=f'one of {BAD[:-1]} or a module that is '
         'no design code')
def invalid(c):
    s = sc()
    bad = c.choice('bad', BAD)
    glob = c.choice('global', [None, 'ec2_2004'])
    what = c.choice('what', ['concrete', 'reinforcement'])
    try:
        s.set_design_code(glob)
        c.check('refused', c.raises(lambda: s.set_design_code(bad)))
        c.check('refused',
                c.raises(lambda: make(c, 'bad', what, {'design_code': bad}, 30, 500)))
        if glob:
            expect(c, 'after', make(c, 'after', what, {}, 30, 500), what,
                   glob, 30, 500)
        else:
            c.check('refused',
                    c.raises(lambda: make(c, 'after', what, {}, 30, 500)))
        c.check('codes', set(s.get_design_codes()) == set(TITLE))
    finally:
        s.set_design_code(None)


@harness(P, 'a code without the material', bounds='a module representing a '
         'code that covers only the other material')
def partial(c):
    s = sc()
    what = c.choice('what', ['concrete', 'reinforcement'])
    mod = types.ModuleType('code')
    mod.__title__ = 'fib Model Code 2010'
    mod.__year__ = '2000'
    mod.__materials__ = tuple(
        w for w in ('concrete', 'reinforcement', 'timber') if w != what)
    try:
        s.set_design_code(mod)
        c.check('refused',
                c.raises(lambda: make(c, 'partial', what, {}, 30, 500)))
    finally:
        s.set_design_code(None)


@harness(P, 'arguments reach the material', bounds='strengths, partial '
         'factors, densities and code specific arguments in plausible boxes',
         params=[dict(code=k) for k in list(TITLE)[:3]])
def arguments(c, code):
    cc, rr = mats()
    s = sc()
    fck, g, d = (c.real('fck', 12, 90), c.real('gamma', 1, 2),
                 c.real('density', 1, 9000))
    how = c.choice('how', ['global', 'named'])
    kw = {'design_code': code} if how == 'named' else {}
    try:
        s.set_design_code(code if how == 'global' else None)
        eps = 0.003
        o = cc.create_concrete(fck, name='abc', density=d, gamma_c=g,
                               eps_c1=eps, constitutive_law='elastic', **kw)
        c.eq('fck', o.fck, fck)
        c.eq('gamma_c', o.gamma_c, g)
        c.eq('density', o.density, d)
        c.eq('eps_c1', o.eps_c1, eps)
        c.check('name', o.name == 'abc')
        c.eq('law', o.constitutive_law.get_stress(1e-4),
             1e-4 * (o.Eci if code == 'mc2010' else o.Ecm))
        o = cc.create_concrete(fck, name='abc', **kw)
        c.eq('default gamma_c', o.gamma_c, 1.5)
        c.eq('default density', o.density, 2400)
        fyk, Es = c.real('fyk', 200, 700), c.real('Es', 1.8e5, 2.2e5)
        ftk, eu = fyk * c.real('r', 1, 1.4), c.real('epsuk', 0.025, 0.1)
        gs = c.real('gamma_s', 1, 1.5)
        o = rr.create_reinforcement(
            fyk, Es, ftk, eu, gamma_s=gs, name='abc', density=d,
            constitutive_law='elasticperfectlyplastic', **kw)
        for n, x in (('fyk', fyk), ('Es', Es), ('ftk', ftk), ('epsuk', eu),
                     ('gamma_s', gs), ('density', d)):
            c.eq(n, getattr(o, n), x)
        c.check('reinforcement name', o.name == 'abc')
        c.eq('plateau', o.constitutive_law.get_stress(0.005), fyk / gs)
        o = rr.create_reinforcement(fyk, Es, ftk, eu, name='abc', **kw)
        c.eq('default gamma_s', o.gamma_s, 1.15)
        c.eq('default steel density', o.density, 7850)
    finally:
        s.set_design_code(None)


# --------------------------------------------------------------------- laws

KIND = {
    'elastic': 'Elastic', 'elasticplastic': 'ElasticPlastic',
    'elasticperfectlyplastic': 'ElasticPlastic',
    'bilinearcompression': 'BilinearCompression',
    'parabolarectangle': 'ParabolaRectangle', 'popovics': 'Popovics',
    'sargin': 'Sargin',
}
CONC = ['elastic', 'bilinearcompression', 'parabolarectangle', 'popovics',
        'sargin']
STEEL = ['elastic', 'elasticplastic', 'elasticperfectlyplastic']
CAN = {'ConcreteEC2_2004': CONC, 'ConcreteMC2010': CONC,
       'ConcreteEC2_2023': [k for k in CONC if k != 'bilinearcompression'],
       'ReinforcementEC2_2004': STEEL, 'ReinforcementEC2_2023': STEEL,
       'ReinforcementMC2010': STEEL}


def build(c, cls, **kw):
    cc, rr = mats()
    if cls.startswith('Concrete'):
        return getattr(cc, cls)(fck=c.real('fck', 20, 90), name='x', **kw)
    return getattr(rr, cls)(fyk=c.real('fyk', 200, 700), Es=2e5, ftk=800.0,
                            epsuk=0.05, name='x', **kw)


@harness(P, 'laws a material can build', bounds='every law name in several '
         'spellings and every material class, by argument and by factory',
         params=[dict(cls=k) for k in CAN])
def laws(c, cls):
    import structuralcodes.materials.constitutive_laws as L

    names = L.get_constitutive_laws_list()
    c.check('list', set(KIND) <= set(names))
    name = c.choice('law', list(names) + ['userdefined', 'parallel', '',
                                          'foo', '_elastic'])
    sp = c.choice('spelling', ['lower', 'upper', 'mixed'])
    given = {'lower': name, 'upper': name.upper(),
             'mixed': name[:1].upper() + name[1:]}[sp]
    if c.choice('by', ['argument', 'factory']) == 'factory':
        o = build(c, cls)

        def f():
            return L.create_constitutive_law(given, o)
    else:

        def f():
            return build(c, cls, constitutive_law=given).constitutive_law
    if name not in CAN[cls]:
        c.check('refused', c.raises(f))
        return
    got = f()
    c.check('type', type(got) is getattr(L, KIND[name]))
