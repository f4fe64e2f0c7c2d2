"""Which functions and which of their outputs decide which property."""
SPR = 'vector<vector<vector<g_struct>>>, vector<vector<vector<pole_struct>>>, vector<vector<vector<double>>>'
PAIRS = 'vector<vector<pair<int, int>>>'
CON_SPR = 'construct(ami_parms, vector<g_struct>, %s)' % SPR
CON_T = ['construct(int, vector<g_struct>, vector<term>)', 'construct(ami_parms, vector<g_struct>, vector<term>)']
EV_SPR = 'evaluate(ami_parms, %s, ami_vars)' % SPR
EV_SPR_OPT = 'evaluate(ami_parms, %s, ami_vars, vector<g_struct>, %s, %s)' % (SPR, PAIRS, PAIRS)
EV_T = 'evaluate(ami_parms, vector<term>, ami_vars)'
EV_T_OPT = 'evaluate(ami_parms, vector<term>, ami_vars, vector<g_struct>, %s, %s)' % (PAIRS, PAIRS)

RESIDUE = ['simple_residue', 'get_simple_sign', 'get_starting_sign', 'factorial', 'reduce_gprod', 'update_G_pole',
           'update_Z_pole', 'take_derivative_gprod', 'evaluate_general_residue']
RESIDUE_T = ['take_term_derivative', 'terms_general_residue', 'split_term']
POLES = ['find_poles', 'pole_equiv']
FACTOR = ['g_struct_equiv', 'pair_v_equiv', 'reduce_rref', 'factorize_Rn', 'factorize_terms', 'convert_terms_to_ri']
STAT = ['fermi_bose', 'frk', 'binomialCoeff']
OCC = ['fermi_pole', 'get_energy_from_pole']
GPROD = ['eval_gprod', 'get_energy_from_g']
EVAL_FN = STAT + OCC + GPROD + ['fermi', 'dot', 'cross', 'star', EV_SPR, 'eval_fprod', 'evaluate_term', EV_T,
                                'optimized_star', EV_SPR_OPT, EV_T_OPT]
CONS_FN = POLES + ['find_signs', 'g_equiv'] + RESIDUE + RESIDUE_T + \
    ['update_gprod_general', 'update_gprod_simple', CON_SPR, 'integrate_step'] + CON_T
OTF = ['get_triggers', 'find_equal_values', 'detect_otf_trigger', 'evaluate_otf']
ALL = sorted(set(EVAL_FN + CONS_FN + FACTOR + ['derivative_opt'] + OTF))

# id -> dict(fns, mode, rules)
#   mode eq:      every output equals the reference
#   mode inputs:  arguments (and object state) the reference leaves alone are left alone
#   mode own:     what an output held before the call does not reach its value afterwards
#   mode undef:   no indeterminate value reaches an output
#   mode selfs:   no object state beyond what the reference reads, no static or global state
#   mode verbose: diagnostics do not reach an output
#   mode flag:    the numerical overflow flag, and nothing else
PROPS = {
    'C01': dict(fns=['update_G_pole', 'update_Z_pole', 'get_simple_sign', 'reduce_gprod', 'simple_residue']),
    'C02': dict(fns=POLES + ['find_signs', 'g_equiv']),
    'C03': dict(fns=RESIDUE + RESIDUE_T),
    'C04': dict(fns=[CON_SPR, 'update_gprod_general', 'update_gprod_simple'] + RESIDUE + POLES + ['find_signs']),
    'C05': dict(fns=CON_T + ['integrate_step'] + RESIDUE_T + ['factorial', 'get_starting_sign', 'get_simple_sign',
                                                             'reduce_gprod', 'update_G_pole', 'update_Z_pole'] + POLES),
    'C06': dict(fns=STAT),
    'C07': dict(fns=OCC + STAT),
    'C08': dict(fns=GPROD),
    'C09': dict(fns=['fermi', 'dot', 'cross', 'star', EV_SPR] + OCC + STAT + GPROD),
    'C10': dict(fns=['eval_fprod', 'evaluate_term', EV_T] + OCC + STAT + GPROD),
    'C11': dict(fns=FACTOR),
    'C12': dict(fns=['optimized_star', EV_SPR_OPT, EV_T_OPT, 'fermi', 'dot', 'cross', 'eval_fprod', 'evaluate_term',
                     'eval_gprod'] + OCC),
    'C22': dict(fns=OTF + ['update_gprod_general']),
    'C25': dict(fns=['derivative_opt']),
    'C13': dict(fns=EVAL_FN + OTF, mode='inputs', rules=['inputs_kept']),
    'C14': dict(fns=CONS_FN + FACTOR + ['derivative_opt'] + OTF, mode='own'),
    'C15': dict(fns=ALL, mode='selfs', rules=['no_state']),
    'C16': dict(fns=ALL, mode='verbose', rules=['printers_inert']),
    'C17': dict(fns=ALL, mode='undef', rules=['members_initialised', 'constructors_set']),
    'C18': dict(fns=EVAL_FN + OTF, mode='flag', mp=True),
    'C19': dict(fns=ALL, mp='only'),
    'C20': dict(rules=['python_binding']),
    'C21': dict(rules=['layout_same']),
    'C24': dict(rules=['constructors']),
    'C23': dict(fns=['g_equiv', 'pole_equiv', 'g_struct_equiv']),
}

EXPLAIN = ('Each function is parsed with the flags of the build and turned into a normal form: the value of every '
           'output as a canonical term over its inputs, loops solved into sums, products, sequences and quantifiers. '
           'The reference for the property is written in the same language and normalised the same way. Equal normal '
           'forms hold for every input. No code is run and no value is sampled.')
