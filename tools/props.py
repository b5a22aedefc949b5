"""Writes properties.jsonl and MANIFEST.json from one table."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LAWS = 'structuralcodes/materials/constitutive_laws/'
SEC = 'structuralcodes/sections/'
GEO = 'structuralcodes/geometry/'
COD = 'structuralcodes/codes/'

# id, title, statement, quantifier text, why tests cannot, files,
# mechanisms [(name, where)], observe
T = []


def prop(*a):
    T.append(a)


prop('C01', 'Constitutive laws return the stress of their defining curve',
     'For every admissible set of parameters and every strain, each constitutive law returns the stress of the curve its documentation defines (elastic, elastic-plastic with or without hardening, parabola-rectangle, bilinear compression, Sargin, Popovics, user-defined polyline), and zero stress or the documented plateau outside its strain limits. The curve is continuous wherever its definition is, and inadmissible parameters are refused with a ValueError.',
     'every strain and every admissible material parameter set of every law',
     'The tests sample a few dozen strains for one or two parameter sets per law; a wrong branch limit, sign or coefficient between samples is invisible.',
     [LAWS + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py', '_bilinearcompression.py', '_sargin.py', '_popovics.py', '_userdefined.py')],
     [('get_stress', 'each law class'), ('preprocess_strains_with_limits', 'structuralcodes/core/base.py')],
     ['get_stress'])
prop('C02', 'Tangent and secant moduli agree with the stress curve',
     'For every law and every strain where the stress is differentiable, the tangent modulus equals the derivative of the stress with respect to strain. The secant modulus times the strain gives the stress, and its value at zero strain is the initial tangent.',
     'every strain off the kinks of the curve and every admissible parameter set',
     'Tests compare tangents with stored numbers at few strains; consistency with the stress is a statement about every strain.',
     [LAWS + f for f in ('_elastic.py', '_elasticplastic.py', '_parabolarectangle.py', '_bilinearcompression.py', '_sargin.py', '_popovics.py', '_userdefined.py')],
     [('get_tangent', 'each law class'), ('get_secant', 'structuralcodes/core/base.py')],
     ['get_tangent', 'get_secant'])
prop('C03', 'Laws treat scalars, lists and arrays alike and keep their inputs',
     'Evaluating stress, tangent or secant on an array or list of strains gives element by element the values of the scalar evaluations, in the same order and shape, and a scalar gives a scalar. The input container is never modified and repeated evaluation returns the same values.',
     'every strain vector (two or three entries explored), every law',
     'Vectorised and scalar evaluation take different branches in the code; tests exercise only hand-picked vectors.',
     [LAWS + '*.py', 'structuralcodes/core/base.py'],
     [('np.atleast_1d handling', 'each law class'), ('get_secant', 'structuralcodes/core/base.py')],
     ['get_stress', 'get_tangent', 'get_secant'])
prop('C04', 'Marin coefficients reproduce the stress and tangent of the law',
     'For every linear strain profile, the polynomial pieces a law returns for exact integration cover the strain range exactly as the law does: at every strain the applicable piece evaluates to the stress (or tangent) of the law, and strains not covered by a piece have zero stress. This also holds for a strain profile of zero curvature.',
     'every strain profile (two coefficients), every position along it, every law that provides coefficients',
     'Tests compare only integrated resultants of a few sections with stored values.',
     [LAWS + '*.py'],
     [('__marin__', 'each law class'), ('__marin_tangent__', 'each law class')],
     ['__marin__', '__marin_tangent__', 'get_stress', 'get_tangent'])
prop('C05', 'Wrapper laws compose their base laws exactly',
     'An initial-strain law evaluates its base law at the shifted strain (or, without strain compatibility, returns the stress of the initial strain alone), and a parallel law returns the weighted sum of its components, for stress, tangent, limits and integration coefficients alike. Inconsistent wrapper definitions are refused with an error.',
     'every strain, initial strain, weight and component law',
     'Tests use one or two base laws and weights.',
     [LAWS + '_initial_strain.py', LAWS + '_parallel.py'],
     [('get_stress', LAWS + '_initial_strain.py'), ('get_stress', LAWS + '_parallel.py')],
     ['get_stress', 'get_tangent', 'get_ultimate_strain', '__marin__'])
prop('C06', 'Strain limits are consistent with where a law carries stress',
     'The ultimate strains a law reports satisfy minimum <= 0 <= maximum, the law still carries its curve stress at those strains, and outside finite limits it returns what its definition states there (zero, the documented extension of a user-defined curve, or no limit at all for purely elastic laws and elastic-plastic laws without ultimate strain). The yielding strains reported for reinforcement laws are those where the elastic branch ends, with the right sign.',
     'every admissible parameter set, both limits, yielding or not',
     'The limits drive the strength calculation; tests fix a handful of parameter sets.',
     [LAWS + '*.py', 'structuralcodes/core/base.py'],
     [('get_ultimate_strain', 'each law class'), ('preprocess_strains_with_limits', 'structuralcodes/core/base.py')],
     ['get_ultimate_strain', 'get_stress'])
prop('C07', 'Polygon moment integration is exact for every polygon',
     'Integrating y^m z^n over a closed polygon returns the exact area moment of the polygon for every exponent pair, with the sign of the orientation, and does not depend on the starting vertex. Splitting a polygon in two adds up, and translation follows the binomial rule.',
     'every polygon with 3 or 4 free vertices (coordinates in [-1000, 1000]), exponents up to a total of 7',
     'Tests integrate a few fixed polygons.',
     ['structuralcodes/core/_marin_integration.py'],
     [('marin_integration', 'structuralcodes/core/_marin_integration.py')],
     ['marin_integration'])
prop('C08', 'Marin section integration returns the exact stress resultants',
     'For a section of surfaces and reinforcement points with any materials and any strain profile, the Marin integration returns axial force and bending moments equal to the exact area integral of the stress plus the bar forces, bars being added without deducting the concrete they occupy. The tangent stiffness matrix it returns is symmetric and equals the derivative of these resultants with respect to the strain profile.',
     'every strain profile, every rectangle size, position and bar position within bounds',
     'Tests check totals of a few sections against stored values or another integrator to a few percent.',
     [SEC + 'section_integrators/_marin_integrator.py', GEO + '_geometry.py'],
     [('prepare_input', SEC + 'section_integrators/_marin_integrator.py'), ('integrate_stress', SEC + 'section_integrators/_marin_integrator.py'), ('integrate_modulus', SEC + 'section_integrators/_marin_integrator.py')],
     ['integrate_strain_response_on_geometry'])
prop('C09', 'Fiber section integration is the area-weighted sum over the mesh',
     'For a given triangulation, the fiber integration returns the sum over all triangles and bars of area times stress (or tangent) at the centroid strain, with the matching lever arms, and the stiffness matrix is symmetric. A triangulation is reused only for the geometry and mesh size it was made for.',
     'every triangulation (as an arbitrary set of triangles), every strain profile',
     'Tests fix one mesh per section and compare within tolerance.',
     [SEC + 'section_integrators/_fiber_integrator.py'],
     [('triangulate', SEC + 'section_integrators/_fiber_integrator.py'), ('prepare_input', SEC + 'section_integrators/_fiber_integrator.py')],
     ['integrate_strain_response_on_geometry', 'triangulate'])
prop('C10', 'Section response is objective under translation and rotation',
     'Translating the section changes moments exactly by the axial force times the offset for the correspondingly shifted strain profile, and rotating section and strain profile together rotates the moment vector and leaves the axial force unchanged. Both hold for resultants and stiffness, so results do not depend on where the user draws the section.',
     'every rotation angle, translation and strain profile',
     'Tests rotate by a few angles with loose tolerances.',
     [SEC + '_generic.py', SEC + 'section_integrators/_marin_integrator.py', GEO + '_geometry.py'],
     [('integrate_strain_profile', SEC + '_generic.py'), ('rotate', GEO + '_geometry.py')],
     ['integrate_strain_profile'])
prop('C11', 'Equilibrium searches end in equilibrium with the requested axial load',
     'Whatever the section response, when the search for axial equilibrium at fixed curvature or fixed ultimate strain returns, the axial force of the returned strain profile matches the requested one within the tolerance that the iteration promises, and the kept strain or curvature is still respected. When no such profile exists or the search does not converge, it raises an error rather than returning a wrong profile.',
     'every monotone section response and every axial load, with iteration bounds stated',
     'The search path depends on the response at every midpoint; tests take benign paths only.',
     [SEC + '_generic.py'],
     [('find_equilibrium_fixed_curvature', SEC + '_generic.py'), ('find_equilibrium_fixed_pivot', SEC + '_generic.py')],
     ['calculate_bending_strength', 'calculate_moment_curvature'])
prop('C12', 'Bending strength is reached with a material exactly at its limit',
     'The strain profile reported for the bending strength leaves every material within its strain limits and brings at least one exactly to its limit, is in axial equilibrium with the requested load, and the reported moments are its resultants in the global axes. An axial load outside the admissible range is refused with a ValueError.',
     'every bar arrangement and limit strain of a section family, every bending angle',
     'Tests compare final moments with stored numbers for a few sections.',
     [SEC + '_generic.py'],
     [('get_balanced_failure_strain', SEC + '_generic.py'), ('calculate_bending_strength', SEC + '_generic.py')],
     ['calculate_bending_strength'])
prop('C13', 'Moment-curvature results are equilibrium states of the given curvatures',
     'Every point of a moment-curvature result lists a curvature of the requested (or documented default) sequence with the equilibrium strain profile and the moments of that profile for the requested axial load. Curvatures given by the user are kept in order, and the default sequence passes through yield and reaches ultimate curvature.',
     'every user curvature list, section angle, axial load and discretisation',
     'Tests check maxima and a few sampled values.',
     [SEC + '_generic.py', 'structuralcodes/core/_section_results.py'],
     [('calculate_moment_curvature', SEC + '_generic.py')],
     ['calculate_moment_curvature'])
prop('C14', 'Interaction domains consist of consistent ultimate states',
     'Every point of an N-M, N-M-M or M-M interaction domain is the resultant of a strain profile in which no material exceeds its limits and at least one is at its limit, at the requested angle. The numbers of points and angles follow the request, and the largest and smallest axial load are those of pure compression and tension.',
     'every limit-strain combination, discretisation and angle',
     'Tests compare counts and a few values.',
     [SEC + '_generic.py'],
     [('calculate_nm_interaction_domain', SEC + '_generic.py'), ('_compute_ultimate_strain_profiles', SEC + '_generic.py')],
     ['calculate_nm_interaction_domain', 'calculate_mm_interaction_domain', 'calculate_nmm_interaction_domain'])
prop('C15', 'Strain profiles found for given loads reproduce those loads',
     'When the strain profile for given axial load and moments is returned, integrating it gives the loads back within the promised tolerance, for the full and the initial stiffness iteration. When it does not converge within the allowed iterations, an error is raised.',
     'every section response (arbitrary function) and load',
     'Tests use loads for which the iteration behaves well.',
     [SEC + '_generic.py'],
     [('calculate_strain_profile', SEC + '_generic.py')],
     ['calculate_strain_profile'])
prop('C16', 'Gross section properties are the exact geometric integrals',
     'Area, perimeter, mass, centroid, static moments, second moments in global and centroidal axes, principal moments and their angle equal the exact integrals over the geometry, with modular weighting where documented. The principal axes diagonalise the inertia tensor for every orientation.',
     'every polygon size, position, orientation and bar arrangement within bounds',
     'Tests check symmetric or few sections.',
     [SEC + '_generic.py', SEC + '_rc_utils.py'],
     [('_calculate_gross_section_properties', SEC + '_generic.py'), ('find_principal_axes_moments', SEC + '_generic.py')],
     ['gross_properties'])
prop('C17', 'Results do not depend on earlier calculations or on failures',
     'A calculation on a section returns what it would on a freshly created section, whatever calculations ran before, including ones that failed with an error halfway. Calculations leave geometry, materials and the inputs of the caller unchanged, and separate sections do not influence each other.',
     'every order of two or three calls and every point at which an integration step may fail',
     'Tests call each method once on fresh sections without failures.',
     [SEC + '_generic.py', SEC + 'section_integrators/_fiber_integrator.py', GEO + '_geometry.py', GEO + 'profiles/_base_profile.py'],
     [('integration_data', SEC + '_generic.py'), ('_rotate_triangulated_data', SEC + '_generic.py')],
     ['calculate_bending_strength', 'calculate_moment_curvature', 'calculate_nm_interaction_domain'])
prop('C18', 'Geometry transforms act as the plane isometries they name',
     'Translating and rotating surface, point and compound geometries moves every vertex and bar by exactly that isometry, about the stated point and in the stated unit, keeps areas, materials, densities and labels, and returns new objects without changing the originals.',
     'every translation, angle, rotation point and polygon within bounds',
     'Tests use a few angles and shapes.',
     [GEO + '_geometry.py'],
     [('translate', GEO + '_geometry.py'), ('rotate', GEO + '_geometry.py')],
     ['translate', 'rotate'])
prop('C19', 'Composition and reinforcement layouts place exactly what was asked',
     'Adding geometries or reinforcement keeps all existing parts and adds the new ones; reinforcement along lines and circles has the requested number or spacing of bars, evenly spaced between the given ends, with the given diameter, material and label. Standard shapes (rectangle, circle, profiles) have the requested dimensions and position, and subtracting a geometry removes exactly the overlap and nothing else.',
     'every end point, count, spacing, radius and diameter within bounds',
     'Tests place a handful of layouts.',
     [GEO + '_reinforcement.py', GEO + '_geometry.py', GEO + '_rectangular.py', GEO + '_circular.py'],
     [('add_reinforcement_line', GEO + '_reinforcement.py'), ('add_reinforcement_circle', GEO + '_reinforcement.py'), ('__add__', GEO + '_geometry.py')],
     ['add_reinforcement', 'add_reinforcement_line', 'add_reinforcement_circle', 'RectangularGeometry', 'CircularGeometry'])
prop('C20', 'Splitting by a line or strips partitions the surface',
     'Splitting a surface by a line returns the parts strictly on each side, together exactly the surface, whatever the angle and position of the line. Cutting between two lines returns exactly the part between them.',
     'every line angle and offset, every convex polygon within bounds',
     'Tests use a few lines; the near-vertical special case and tangent lines are not covered.',
     [GEO + '_geometry.py'],
     [('split', GEO + '_geometry.py'), ('split_two_lines', GEO + '_geometry.py'), ('create_line_point_angle', GEO + '_geometry.py')],
     ['split', 'split_two_lines'])
prop('C21', 'Steel profile properties are the integrals over the profile outline',
     'For every steel profile family, area, second moments, elastic and plastic moduli and radii of gyration are the exact integrals over the generated outline, and the outline has the tabulated overall dimensions. Reading a property never changes any other result.',
     'every tabulated profile, and arbitrary outlines for the property computation',
     'Tests compare some tabulated properties within percent tolerances.',
     [GEO + 'profiles/_base_profile.py', GEO + 'profiles/_common_functions.py', GEO + 'profiles/*.py'],
     [('BaseProfile', GEO + 'profiles/_base_profile.py')],
     ['A', 'Iy', 'Iz', 'Wely', 'Wply', 'iy'])
prop('C22', 'Concrete materials derive every property from the governing code',
     'A concrete of a given code returns for each property the value the code formula gives for its characteristic strength and the partial factors in force, an explicitly set value takes precedence over the formula, and inadmissible values are refused. The constitutive laws it builds use exactly these properties.',
     'every characteristic strength, partial factor and user override within bounds',
     'Tests sample strengths; overrides are tested one by one.',
     ['structuralcodes/materials/concrete/*.py'],
     [('ConcreteEC2_2004', 'structuralcodes/materials/concrete/_concreteEC2_2004.py'), ('ConcreteMC2010', 'structuralcodes/materials/concrete/_concreteMC2010.py'), ('ConcreteEC2_2023', 'structuralcodes/materials/concrete/_concreteEC2_2023.py')],
     ['fcm', 'fctm', 'fcd', 'Ecm', 'constitutive_law'])
prop('C23', 'Reinforcement and basic materials derive design values consistently',
     'A reinforcement of a given code returns design strength, design strains and partial factors as that code defines, and the constitutive law it builds has exactly its stiffness, design strength and limit strains, hardening included; the basic elastic and elastic-plastic materials likewise. Initial strain and initial stress options shift the law consistently.',
     'every yield strength, ultimate strength, modulus, limit strain and partial factor within bounds',
     'Tests sample a few grades.',
     ['structuralcodes/materials/reinforcement/*.py', 'structuralcodes/materials/basic/*.py', 'structuralcodes/core/base.py'],
     [('ReinforcementEC2_2004', 'structuralcodes/materials/reinforcement/_reinforcementEC2_2004.py'), ('_apply_initial_strain', 'structuralcodes/core/base.py')],
     ['fyd', 'ftd', 'epsud', 'constitutive_law'])
prop('C24', 'Design code selection and factories honour every request',
     'Materials created without naming a code use the globally selected one, a code named in the call overrides it without changing the global selection, and unknown codes, materials or laws are refused with a ValueError. The laws offered for a material are exactly those it can build.',
     'every sequence of code selections and factory calls of bounded length',
     'Tests check single calls; the global selection is history dependent.',
     [COD + '__init__.py', 'structuralcodes/materials/concrete/__init__.py', 'structuralcodes/materials/reinforcement/__init__.py', LAWS + '__init__.py'],
     [('set_design_code', COD + '__init__.py'), ('create_concrete', 'structuralcodes/materials/concrete/__init__.py'), ('create_constitutive_law', LAWS + '__init__.py')],
     ['set_design_code', 'create_concrete', 'create_reinforcement', 'create_constitutive_law'])

CODE_WHY = ('Tests check tabulated points of each formula; a wrong limit, '
            'branch or coefficient away from them is invisible.')


def code(pid, title, what, files, mech, obs):
    prop(pid, title,
         f'For every argument in its range of validity, each public function for {what} returns the value of the formula or table of the code it cites, including branch limits, defaults, interpolation and documented caps. Arguments outside the documented domain are refused with a ValueError instead of giving a number.',
         'every argument of every function within the stated boxes, default arguments included',
         CODE_WHY, files, mech, obs)


code('C25', 'EN 1992-1-1:2004 material properties follow the code formulas',
     'concrete and reinforcement properties of EN 1992-1-1:2004',
     [COD + 'ec2_2004/_concrete_material_properties.py', COD + 'ec2_2004/_reinforcement_material_properties.py'],
     [('fcm, fctm, Ecm, eps_*', COD + 'ec2_2004/_concrete_material_properties.py')], ['ec2_2004.fctm'])
code('C26', 'EN 1992-1-1:2004 creep and shrinkage follow the code formulas',
     'creep and shrinkage of EN 1992-1-1:2004',
     [COD + 'ec2_2004/_concrete_creep_and_shrinkage.py'],
     [('phi, eps_cs', COD + 'ec2_2004/_concrete_creep_and_shrinkage.py')], ['ec2_2004.phi'])
code('C27', 'EN 1992-1-1:2004 shear resistances follow the code formulas',
     'shear resistance of EN 1992-1-1:2004',
     [COD + 'ec2_2004/shear.py'],
     [('VRdc, VRds, VRdmax', COD + 'ec2_2004/shear.py')], ['ec2_2004.shear.VRdc'])
code('C28', 'EN 1992-1-1:2004 crack control follows the code formulas',
     'crack control of EN 1992-1-1:2004',
     [COD + 'ec2_2004/_section_7_3_crack_control.py', COD + 'ec2_2004/_cracking_restraint_imposed_deformations.py'],
     [('As_min, wk, sr_max', COD + 'ec2_2004/_section_7_3_crack_control.py')], ['ec2_2004.wk'])
code('C29', 'EN 1992-1-1:2023 material properties follow the code formulas',
     'material properties of EN 1992-1-1:2023',
     [COD + 'ec2_2023/_section5_materials.py'],
     [('fcm, fctm, phi_50y_t0, eps_cs_50y', COD + 'ec2_2023/_section5_materials.py')], ['ec2_2023.fctm'])
code('C30', 'EN 1992-1-1:2023 serviceability functions follow the code formulas',
     'serviceability and time-dependent behaviour of EN 1992-1-1:2023',
     [COD + 'ec2_2023/_section9_sls.py', COD + 'ec2_2023/_annexB_time_dependent.py'],
     [('wk_cal, srm_cal, As_min_y', COD + 'ec2_2023/_section9_sls.py')], ['ec2_2023.wk_cal'])
code('C31', 'Model Code 2010 material properties follow the code formulas',
     'concrete and reinforcement properties of the fib Model Code 2010',
     [COD + 'mc2010/_concrete_material_properties.py', COD + 'mc2010/_reinforcement_material_properties.py'],
     [('fctm, Eci, eps_c1', COD + 'mc2010/_concrete_material_properties.py')], ['mc2010.fctm'])
code('C32', 'Model Code 2010 creep and shrinkage follow the code formulas',
     'creep and shrinkage of the fib Model Code 2010',
     [COD + 'mc2010/_concrete_creep_and_shrinkage.py'],
     [('phi, eps_cbs, eps_cds', COD + 'mc2010/_concrete_creep_and_shrinkage.py')], ['mc2010.phi'])
code('C33', 'Model Code 2010 shear resistances follow the code formulas',
     'shear resistance of the fib Model Code 2010',
     [COD + 'mc2010/_concrete_shear.py'],
     [('v_rd, v_rdc, v_rds, v_rd_max', COD + 'mc2010/_concrete_shear.py')], ['mc2010.v_rd'])
code('C34', 'Model Code 2010 punching and torsion follow the code formulas',
     'punching and torsion of the fib Model Code 2010',
     [COD + 'mc2010/_concrete_punching.py', COD + 'mc2010/_concrete_torsion.py'],
     [('v_rd_punching, psi_punching', COD + 'mc2010/_concrete_punching.py'), ('t_rd', COD + 'mc2010/_concrete_torsion.py')], ['mc2010.t_rd'])
code('C35', 'Model Code 2010 interface and bond-slip functions follow the formulas',
     'interface shear and bond-slip of the fib Model Code 2010',
     [COD + 'mc2010/_concrete_interface_different_casting_times.py', COD + 'mc2010/_interface_concrete_steel_rebar.py'],
     [('tau_rdi_with_reinforcement', COD + 'mc2010/_concrete_interface_different_casting_times.py'), ('s_3, f_stm', COD + 'mc2010/_interface_concrete_steel_rebar.py')], ['mc2010.s_3'])

prop('C36', 'Elastic cracked properties are those of the elastic cracked section',
     'The cracked section of a reinforced concrete section is the part of its concrete on the compressed side of the neutral axis of pure elastic bending at the requested angle, with all bars and all surfaces of other materials; its properties are the gross properties of that section with the initial stiffness of every material, so its stiffness-weighted centroid lies on the neutral axis. The section given is not changed, the integrator and mesh size of the section are used, and other sections give no cracked properties.',
     'every height and several directions of the neutral axis, dimensions, stiffness and bar position of a family of sections',
     'Tests compare one section with a section cut by hand.',
     [SEC + '_rc_utils.py', SEC + '_generic.py', GEO + '_geometry.py'],
     [('calculate_elastic_cracked_properties', SEC + '_rc_utils.py')],
     ['calculate_elastic_cracked_properties'])

prop('C37', 'Suspect input is announced by a warning, and only suspect input',
     'A concrete given a limit strain of 0.1 or more, a parabola-rectangle exponent of 5 or more, a tensile strength above half of fck (EC2 2004, MC2010) or an initial modulus outside of 1e4 to 1e5 MPa (MC2010) warns and uses the value all the same; a concrete of usual values does not warn. MC2010 shear warns of a compression field outside of 20 to 45 degrees and of level 3 without shear reinforcement; a bar of more than two coordinates is announced and placed by the first two; the perimeter of a section of separate parts is announced as not defined.',
     'every value of each of these inputs, both sides of its threshold',
     'Tests try one suspect value of some inputs; the threshold, the sign and the silence on sound input are not looked at.',
     ['structuralcodes/materials/concrete/_concreteEC2_2004.py', 'structuralcodes/materials/concrete/_concreteEC2_2023.py', 'structuralcodes/materials/concrete/_concreteMC2010.py', COD + 'mc2010/_concrete_shear.py', GEO + '_geometry.py', SEC + '_generic.py'],
     [('__post_init__', 'structuralcodes/materials/concrete/_concreteMC2010.py'), ('PointGeometry', GEO + '_geometry.py')],
     ['ConcreteMC2010', 'ConcreteEC2_2004', 'ConcreteEC2_2023', 'PointGeometry'])

OVER = {p: ['inputs'] for p in [t[0] for t in T]}
OVER.update(C11=['inputs', 'programs'], C12=['inputs', 'configurations'],
            C15=['inputs'], C17=['histories', 'fault_sequences'],
            C24=['histories', 'configurations'],
            C09=['inputs', 'configurations'])
OVER['C11'] = ['inputs']

NOTE = {}
TECH = {}
NA = {}
DEF_TECH = ('symbolic execution of the real Python functions, SMT (z3) '
            'decision per path, counterexamples replayed')
DEF_NOTE = ('Bounded claim over exact real arithmetic: every path of the '
            'encoded functions within the stated input boxes is decided by '
            'the solver; floating point rounding is outside. Trusts the '
            'numpy/math shims (witness-validated against the real code on '
            'every run) and z3. ')
DIFF_NOTE = ('Oracle: independently written code formulas. ')
EXEC = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read(), EXEC)
CLAIMED = EXEC['CLAIMED']
NA.update(EXEC['NA'])
NOTE.update(EXEC['NOTE'])


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for (pid, title, st, q, why, files, mech, obs) in T:
            assert len(title) <= 80, (pid, len(title))
            f.write(json.dumps({
                'id': pid, 'title': title, 'statement': st,
                'quantifier': {'over': OVER[pid], 'text': q},
                'why_tests_cant': why,
                'anchors': {
                    'files': files,
                    'mechanism': [
                        {'name': n, 'where': w} for n, w in mech
                    ],
                    'observe_at': obs, 'hook_needed': None,
                },
            }) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': [],
        'not_applicable': [],
        'notes': 'symx/ is the symbolic executor, checks/ the harnesses; '
                 'see DESIGN.md. No hooks in /repo.',
    }
    for t in T:
        pid = t[0]
        if pid in CLAIMED:
            n = NOTE.get(pid, DIFF_NOTE if "C25" <= pid <= "C35" else '')
            man['checks'].append({
                'property': pid,
                'quick_cmd': f'./run.sh {pid} --tier quick',
                'thorough_cmd': f'./run.sh {pid} --tier thorough',
                'technique': TECH.get(pid, DEF_TECH),
                'level': 'model_checking',
                'level_note': DEF_NOTE + n,
            })
        else:
            man['not_applicable'].append({
                'property': pid,
                'reason': NA.get(pid, 'no check built yet'),
            })
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
