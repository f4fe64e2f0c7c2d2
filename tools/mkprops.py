#!/usr/bin/env python3
"""writes properties.jsonl (the texts live here)"""
import json, os
B = 'src/ami_base_construct.cpp'
E = 'src/ami_base_evaluate.cpp'
O = 'src/ami_base_optimize.cpp'
T = 'src/ami_base_terms.cpp'
TE = 'src/ami_base_terms_evaluate.cpp'
TO = 'src/ami_base_terms_optimize.cpp'
H = 'src/ami_base.hpp'
PY = ['pyami_src/pyami.cpp', 'pyami_src/pyami_wrapper.cpp']
ALL = [B, E, O, T, TE, TO, 'src/ami_base.cpp', H]
P = []


def p(i, title, st, over, q, why, files, mech, **kw):
    assert len(title) <= 80, (i, len(title))
    P.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': dict(files=files, mechanism=[{'name': n, 'where': w} for n, w in mech], **kw)})


I = ['inputs']
p('C01', 'Simple residue replaces the integration variable everywhere',
  "The residue of a product of propagators at a simple pole is the product with the factor that holds the pole removed "
  "and, in every other factor, the integration frequency replaced by the pole: its own coefficient becomes zero and that "
  "coefficient times the pole is added to all other frequency and energy coefficients. The factors keep their order and "
  "their species label, and the sign that goes with the residue is the coefficient of the frequency in the removed factor.",
  I, 'every product, every pole (any index, any coefficients), any number of energies and frequencies',
  'update_g and simple_residue are tested on one diagram with three frequencies; no test has another species or a pole in the first or last position of a long product.',
  [B], [('AmiBase::update_G_pole', B), ('AmiBase::update_Z_pole', B), ('AmiBase::simple_residue', B), ('AmiBase::get_simple_sign', B)])
p('C02', 'Pole search is complete, exact and counts multiplicity',
  "Searching a product of propagators for poles in one frequency yields exactly one pole for each distinct solution among "
  "the factors containing that frequency, in order of first appearance, with the solved coefficients, the list of all "
  "factors sharing it and their number as multiplicity. With the default setting a pole is left out only if all its energy "
  "coefficients vanish and it has an odd number of frequencies left; with that setting off none is left out. An empty "
  "product, or a frequency no factor has, gives no pole.",
  I, 'every product and frequency index, both values of the setting that drops poles at Matsubara frequencies',
  'One test looks at four poles of one self energy diagram; repeated poles in other orders, products that are empty and the switched-off setting are never reached.',
  [B], [('AmiBase::find_poles', B), ('AmiBase::pole_equiv', B), ('AmiBase::find_signs', B)])
p('C03', 'Residues at repeated poles are exact derivatives of any order',
  "The residue at a pole shared by M factors is the (M-1)-th derivative, by product and chain rule, of the distribution "
  "function times the remaining factors, divided by (M-1)! and times the signs of all M factors, with the pole substituted "
  "afterwards. Every derivative term appears exactly once: one with the derivative order of the distribution raised, and one "
  "for each factor that depends on the frequency, with that factor doubled and its sign turned by minus its coefficient. "
  "Results, poles and signs of the expansion stay aligned entry by entry, and the same expansion is produced term by term "
  "in the other notation.",
  I, 'every product, every multiplicity M (also beyond 12, where factorials leave the integer range)',
  'take_derivative and terms derivative tests use M=2 and one product; nothing tests third or higher order or many derivative passes.',
  [B, T], [('AmiBase::evaluate_general_residue', B), ('AmiBase::take_derivative_gprod', B), ('AmiBase::get_starting_sign', B), ('AmiBase::take_term_derivative', T), ('AmiBase::terms_general_residue', T)])
p('C04', 'Array construction integrates every frequency at every pole',
  "Construction into the three arrays keeps the integrand as level zero and then, for each integration frequency in turn, "
  "takes every product of the last level and appends the residue at every pole of it. Poles and signs are listed per "
  "product, in the same order as the residues produced, so that the i-th pole list of a level has one sign per pole and "
  "the concatenation of all pole lists is as long as the next level. Nothing else is added, dropped or reordered.",
  I, 'every integrand, every number of integrations, any mixture of simple and repeated poles',
  'The tests construct a handful of diagrams of order up to 6 and compare a count and final numbers for one set of energies.',
  [B], [('AmiBase::construct', B), ('AmiBase::update_gprod_general', B), ('AmiBase::update_gprod_simple', B)],
  state=[{'name': 'S, P, R arrays', 'meaning': 'signs, poles and products of every integration level'}])
p('C05', 'Term construction yields each residue as one complete term',
  "Term by term construction starts from one term with sign one and the full integrand and, for each integration frequency, "
  "replaces every term by one term per simple pole and by the expanded derivatives at repeated ones. Each new term carries "
  "the sign of the old one times that of the residue, all distribution functions collected so far, the new pole and the "
  "substituted propagators; terms without a pole vanish. Both entry points give the same result.",
  I, 'every integrand and number of integrations, any multiplicities at any level',
  'Two tests compare final numbers of one or two diagrams with the array form.',
  [T], [('AmiBase::construct (terms)', T), ('AmiBase::integrate_step', T), ('AmiBase::terms_general_residue', T), ('AmiBase::split_term', T)])
p('C06', 'Distribution functions and their derivatives of every order are exact',
  "For derivative order zero the distribution is 1/(sigma exp(beta E)+1); for every higher order it is the exact derivative "
  "with respect to energy, as given by the finite sum over binomial-weighted powers, for both signs of the statistics. This "
  "holds for complex energies and every inverse temperature, without cut-offs, clamps or special cases.",
  I, 'every order, sign, inverse temperature and complex energy, as a function over exact arithmetic',
  'Fermi and Bose values are tested at a few energies and low orders only.',
  [E], [('AmiBase::fermi_bose', E), ('AmiBase::frk', E), ('AmiBase::binomialCoeff', E)])
p('C07', 'Each pole gets the right statistics, energy and regulator',
  "A pole is evaluated as fermionic or bosonic by the parity of the frequencies in it, the external one counting only for "
  "graph types with a fermionic external line; for double occupancy or a bosonic external line a pole in the external "
  "frequency itself flips both statistics and sign. Its energy is the linear combination of the given energies plus the "
  "complete frequency shift it carries; the regulator is added with the sign of the real part, and for a bosonic function at "
  "exactly zero energy either the regulator is added or, if so configured, the value is zero. With derivatives dropped by "
  "configuration every pole of higher derivative order is zero.",
  ['inputs', 'configurations'], 'every pole, graph type, regulator, and combination of settings; complex energies',
  'All tests evaluate Sigma or one Pi diagram with regulator zero and default settings.',
  [E], [('AmiBase::fermi_pole', E), ('AmiBase::get_energy_from_pole', E)])
p('C08', 'A product of propagators is evaluated with full denominators',
  "The value of a product of propagators is the overall prefactor divided by the product over all factors of the linear "
  "combination of frequencies plus the linear combination of energies; an empty product is the prefactor itself. The "
  "prefactor enters once however many factors there are, and the energy of a single propagator is its linear combination "
  "of the given energies.",
  I, 'every product, any number of factors, frequencies, energies and any coefficients',
  'Numbers are compared for a few diagrams with prefactor 1.',
  [E], [('AmiBase::eval_gprod', E), ('AmiBase::get_energy_from_g', E)])
p('C09', 'Array evaluation contracts signs, distributions and products in order',
  "The value of a constructed integrand is the signed distribution functions of the first level multiplied through the "
  "levels, each entry with the entries of the product it produced, and finally contracted with the products of the last "
  "level in order. Without integrations it is the integrand itself, and a level without poles makes the value zero. "
  "Derivative terms, the prefactor and every entry are included exactly once.",
  I, 'every S, P, R input, any number of levels and entries per level',
  'The test suite evaluates a few fixed diagrams of low order at single points.',
  [E], [('AmiBase::evaluate (arrays)', E), ('AmiBase::dot', E), ('AmiBase::cross', E), ('AmiBase::star', E), ('AmiBase::fermi', E)])
p('C10', 'Term evaluation sums sign, distributions and propagators of each term',
  "The value of a list of terms is the sum over all terms of sign times the product of all its distribution functions times "
  "the value of its propagator product. Every term counts once, an empty list of distribution functions counts as one and "
  "an empty list of terms gives zero.",
  I, 'every list of terms',
  'One or two diagrams are evaluated at one point.',
  [TE], [('AmiBase::evaluate (terms)', TE), ('AmiBase::evaluate_term', TE), ('AmiBase::eval_fprod', TE)])
p('C11', 'Factorising propagator products loses no product, factor or sign',
  "After factorising, every product is listed in exactly one group with its own index; the factors listed for a group are, "
  "in order, those of its first member, each pointing to an entry of the list of distinct propagators equal to it up to an "
  "overall sign and of the same species, and each member carries the product of its own relative signs. Two products share "
  "a group exactly if their factors pair up one to one with none repeated, and empty products keep their place. Factorising "
  "a list of terms does the same for the propagator products of the terms.",
  I, 'every list of products, any order of equal factors, any signs, empty products',
  'Only the number of unique entries is looked at, for one diagram without empty products.',
  [O, TO], [('AmiBase::factorize_Rn', O), ('AmiBase::reduce_rref', O), ('AmiBase::pair_v_equiv', O), ('AmiBase::g_struct_equiv', O), ('AmiBase::factorize_terms', TO), ('AmiBase::convert_terms_to_ri', TO)])
p('C12', 'Optimised evaluation is group weights times products of unique factors',
  "Evaluating with a factorisation computes, for every group, the sum of its members' weights with their signs times the "
  "product of the distinct propagators listed for the group, and sums over groups; the overall prefactor enters once per "
  "group, as in the plain evaluation. If the factorisation is empty it falls back to the plain evaluation.",
  I, 'every input, factorisation lists of any shape, every prefactor',
  'No test evaluates an optimised result.',
  [E, TO], [('AmiBase::optimized_star', E), ('AmiBase::evaluate (optimised arrays)', E), ('AmiBase::evaluate (optimised terms)', TE)])
p('C13', 'Evaluation never changes its inputs or the configuration',
  "No evaluation call changes the arrays, terms, factorisation, parameters or numerical values handed to it, nor any setting "
  "of the object; the only thing of the object it may change is the overflow indicator. Energies regularised or frequencies "
  "shifted during a calculation are not seen by the caller afterwards.",
  ['inputs', 'histories'], 'every evaluation function, every input and sequence of calls',
  'The tests never look at inputs after evaluating.',
  [E, TE], [('all evaluate overloads and their helpers', E), ('AmiBase::evaluate_term, eval_fprod', TE)])
p('C14', 'Output containers are overwritten, whatever they held before',
  "Containers a construction, residue or factorisation function fills from scratch are independent of what they held when "
  "they were passed in, so using a container a second time gives the same result as a fresh one. Only the functions whose "
  "purpose is to append (derivatives of a term, one integration level of the arrays, grouping) build on existing entries, and "
  "they leave these in place.",
  ['inputs', 'histories'], 'every function with an output container, every previous content',
  'Every test passes fresh, empty containers.',
  [B, O, T, TO], [('AmiBase::construct', B), ('AmiBase::evaluate_general_residue', B), ('AmiBase::take_derivative_gprod', B), ('AmiBase::integrate_step', T), ('AmiBase::factorize_Rn', O), ('AmiBase::convert_terms_to_ri', TO)])
p('C15', 'Results depend only on arguments and documented settings',
  "Every result is a function of the arguments and of those settings of the object the calculation is documented to use: no "
  "state survives from one call to the next, no global, static, clock, environment or random value takes part. Two calls "
  "with equal arguments on equally configured objects give equal results in any order and on any thread, and no call "
  "changes a setting.",
  ['histories', 'inputs', 'schedules'], 'every function, every history of earlier calls',
  'Each test makes one call on a fresh object.',
  ALL, [('all member functions', 'src/')])
p('C16', 'Diagnostic output has no influence on results',
  "Switching verbose output on or off changes no result, output container, indicator or setting. Printing a structure leaves "
  "it as it was.",
  ['configurations', 'inputs'], 'every function, verbosity on and off',
  'No test switches verbosity on.',
  ALL, [('verbose blocks', B), ('print functions', E)])
p('C17', 'No result is computed from a value that was never set',
  "Every member of a newly made parameter set, value set, propagator, pole or term has a definite value whichever "
  "constructor made it, and no function computes a result, decides a branch or sizes an output from a variable that was not "
  "set on the path taken.",
  I, 'every constructor, every function, every path',
  'An uninitialised value is usually zero in a fresh test process.',
  ALL, [('constructors', H), ('all member functions', 'src/')])
p('C18', 'The overflow indicator reports this evaluation and is never masked',
  "Every full evaluation clears the overflow indicator first, and from then on it can only be raised: it is raised whenever a "
  "distribution derivative, weight or product handled by the evaluation exceeds the configured cutoff, or a denominator is "
  "degenerate as the evaluation forms define it, and never otherwise. A later harmless entry does not clear it, and checks in "
  "one stage are not lost in the next.",
  ['inputs', 'histories'], 'every input, any position of the offending entry, any earlier state of the indicator',
  'No test reads the indicator.',
  [E, TE, H], [('overflow_detected', E), ('overflow_detected', TE)],
  state=[{'name': 'overflow indicator', 'meaning': 'set when numbers exceeded the precision cutoff'}])
p('C19', 'The multiprecision build computes the same functions',
  "Built with multiprecision support, construction, factorisation, evaluation, regularised and optimised evaluation compute "
  "the same functions of their inputs as the standard build, up to rounding.",
  ['configurations', 'inputs'], 'every input, the multiprecision configuration',
  'The test suite is never built with multiprecision.',
  ALL, [('code under the multiprecision option', E)])
p('C20', 'The Python module exposes the library faithfully',
  "Every attribute, enumerator and method of the Python module reaches the library entity of the same name; all members of "
  "the parameter, value, propagator, pole and term types and all enumerators of exposed enumerations can be reached, and "
  "every type in an exposed signature is known to Python. Containers the library fills are passed by reference, so that what "
  "is constructed or factorised arrives in the caller's object.",
  ['programs', 'inputs'], 'every Python program using the module',
  'The Python module is not built by the test suite.',
  PY, [('bindings', PY[1]), ('module', PY[0])])
p('C21', 'Object layout and defaults do not depend on the build option',
  "The public types have the same members, sizes, offsets, enumerator values and default values with and without the "
  "multiprecision option, so that library and user code built with different settings agree on them.",
  ['configurations'], 'both configurations, all public types',
  'Tests build one configuration.',
  [H], [('public types', H)])
p('C22', 'Repairing vanishing denominators touches exactly the degenerate factors',
  "Evaluation with repair looks for the first integration level that has a propagator whose energies cancel numerically "
  "though its coefficients do not vanish, or two propagators of one product with different coefficients but equal energies. "
  "If there is none the value is that of the ordinary evaluation; otherwise, the construction up to that level is kept, "
  "exactly the reported propagators are repaired (coefficients set to zero, or made equal), the later levels are constructed "
  "anew and the evaluation starts again. Every degenerate propagator of that level is found, with its position.",
  I, 'every array input and value set with degenerate factors of one kind at a time, any level and position',
  'No test calls this evaluation.',
  [E, B], [('AmiBase::evaluate_otf', E), ('AmiBase::detect_otf_trigger', E), ('AmiBase::get_triggers', E), ('AmiBase::find_equal_values', E)])
p('C23', 'Equality of propagators and poles compares every coefficient',
  "Two propagators, or two poles, are equal exactly if they have the same number of energy and of frequency coefficients and "
  "each pair of coefficients agrees. Equality up to sign holds exactly if the species agree and one and the same sign relates "
  "all non-vanishing coefficients, and it reports that sign.",
  I, 'every pair, any lengths, coefficients and order of comparison',
  'Equality is exercised only through diagrams whose propagators differ early.',
  [B, O], [('AmiBase::g_equiv', B), ('AmiBase::pole_equiv', B), ('AmiBase::g_struct_equiv', O), ('AmiBase::isEqual', H)])
p('C24', 'Constructors store their arguments and documented defaults',
  "Every constructor of the value set, parameter set, propagator, pole and term stores each argument in the member it "
  "belongs to and gives the others their documented defaults: prefactor 1, no regulator, self-energy graph type, one "
  "external variable, fermionic statistics, multiplicity 1, no derivative, sign 1. A new object has its documented "
  "settings.",
  I, 'every constructor, every argument',
  'The tests use one constructor of each type and look at few members.',
  [H, 'src/ami_base.cpp'], [('constructors', H)])
p('C25', 'Differentiating a factorised result gives every product-rule term once',
  "Differentiating a factorised result with respect to the external frequency yields, for every group and every factor that "
  "depends on that frequency, one product with this factor doubled and one weight list with all weights times minus its "
  "coefficient. Products and weights stay aligned, and products without such a factor disappear.",
  I, 'every factorisation',
  'No test calls it.',
  [O], [('AmiBase::derivative_opt', O)])

# --- outside what a static argument can decide here ---
p('N01', 'Rounding stays within the accuracy of double precision',
  "Away from degenerate energies the computed value agrees with the exact value of the expression to within a small multiple "
  "of machine precision times its condition number.",
  I, 'every input away from degeneracies', 'Tests compare a few numbers with a tolerance.',
  [E, TE], [('all floating point evaluation', E)])
p('N02', 'The evaluated result equals the Matsubara sum it stands for',
  "For every diagram the evaluated construction equals the infinite sum over all fermionic Matsubara frequencies of the "
  "original integrand, at every set of energies where the sum converges.",
  I, 'every diagram and energies', 'Tests compare one or two diagrams with known numbers.',
  [B, E], [('construct followed by evaluate', B)])
p('N03', 'Repair of vanishing denominators ends with the limit value',
  "Evaluation with repair ends after finitely many repairs and returns the limit of the ordinary value as the energies "
  "approach the degenerate point.",
  I, 'every degenerate energy set', 'No test calls it.', [E], [('AmiBase::evaluate_otf', E)])
p('N04', 'The overflow indicator is raised whenever precision is lost',
  "Whenever cancellation or overflow leaves no correct digits in the result, the overflow indicator is raised.",
  I, 'every input', 'No test reads the indicator.', [E, TE], [('overflow_detected', E)])


if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['id']):
            f.write(json.dumps(x) + '\n')
