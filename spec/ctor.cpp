// What the public constructors store.  lib_X builds a record with the library's
// constructor, ref_X states the record field by field; the checker compares the
// two normal forms.  Never run.
#include "ami_base.hpp"

typedef AmiBase T;

namespace ctor {

// --- numerical values ---
T::ami_vars lib_vars_none(AmiBase &self) { return T::ami_vars(); }
T::ami_vars ref_vars_none(AmiBase &self) {
  T::ami_vars v;
  v.energy_.clear();
  v.frequency_.clear();
  v.prefactor = 1;
  v.BETA_ = 0;
  v.gamma_ = 0;
  return v;
}
T::ami_vars lib_vars_ef(AmiBase &self, T::energy_t e, T::frequency_t f) { return T::ami_vars(e, f); }
T::ami_vars ref_vars_ef(AmiBase &self, T::energy_t e, T::frequency_t f) {
  T::ami_vars v;
  v.energy_ = e;
  v.frequency_ = f;
  v.prefactor = 1;
  v.BETA_ = 0;
  v.gamma_ = 0;
  return v;
}
T::ami_vars lib_vars_efb(AmiBase &self, T::energy_t e, T::frequency_t f, double b) { return T::ami_vars(e, f, b); }
T::ami_vars ref_vars_efb(AmiBase &self, T::energy_t e, T::frequency_t f, double b) {
  T::ami_vars v;
  v.energy_ = e;
  v.frequency_ = f;
  v.prefactor = 1;
  v.BETA_ = b;
  v.gamma_ = 0;
  return v;
}
T::ami_vars lib_vars_efbp(AmiBase &self, T::energy_t e, T::frequency_t f, double b, double p) {
  return T::ami_vars(e, f, b, p);
}
T::ami_vars ref_vars_efbp(AmiBase &self, T::energy_t e, T::frequency_t f, double b, double p) {
  T::ami_vars v;
  v.energy_ = e;
  v.frequency_ = f;
  v.prefactor = p;
  v.BETA_ = b;
  v.gamma_ = 0;
  return v;
}

// --- parameters ---
T::ami_parms parms_of(int n, double r, T::graph_type t, T::int_type i, T::disp_type d) {
  T::ami_parms p;
  p.N_INT_ = n;
  p.N_EXT_ = 1;
  p.E_REG_ = r;
  p.tol_ = 1e-12;
  p.TYPE_ = t;
  p.int_type_ = i;
  p.dispersion_ = d;
  return p;
}
T::ami_parms lib_parms_none(AmiBase &self) { return T::ami_parms(); }
T::ami_parms ref_parms_none(AmiBase &self) { return parms_of(0, 0, T::Sigma, T::hubbard, T::tb); }
T::ami_parms lib_parms_nr(AmiBase &self, int n, double r) { return T::ami_parms(n, r); }
T::ami_parms ref_parms_nr(AmiBase &self, int n, double r) { return parms_of(n, r, T::Sigma, T::hubbard, T::tb); }
T::ami_parms lib_parms_nrt(AmiBase &self, int n, double r, T::graph_type t) { return T::ami_parms(n, r, t); }
T::ami_parms ref_parms_nrt(AmiBase &self, int n, double r, T::graph_type t) {
  return parms_of(n, r, t, T::hubbard, T::tb);
}
T::ami_parms lib_parms_nrtid(AmiBase &self, int n, double r, T::graph_type t, T::int_type i, T::disp_type d) {
  return T::ami_parms(n, r, t, i, d);
}
T::ami_parms ref_parms_nrtid(AmiBase &self, int n, double r, T::graph_type t, T::int_type i, T::disp_type d) {
  return parms_of(n, r, t, i, d);
}

// --- a propagator ---
T::g_struct g_of(T::epsilon_t e, T::alpha_t a, T::stat_type s) {
  T::g_struct g;
  g.eps_ = e;
  g.alpha_ = a;
  g.stat_ = s;
  g.eff_stat_ = s;
  g.species_ = 0;
  g.pp = -1;
  return g;
}
T::g_struct lib_g_none(AmiBase &self) { return T::g_struct(); }
T::g_struct ref_g_none(AmiBase &self) { return g_of(T::epsilon_t(), T::alpha_t(), T::Fermi); }
T::g_struct lib_g_ea(AmiBase &self, T::epsilon_t e, T::alpha_t a) { return T::g_struct(e, a); }
T::g_struct ref_g_ea(AmiBase &self, T::epsilon_t e, T::alpha_t a) { return g_of(e, a, T::Fermi); }
T::g_struct lib_g_eas(AmiBase &self, T::epsilon_t e, T::alpha_t a, T::stat_type s) { return T::g_struct(e, a, s); }
T::g_struct ref_g_eas(AmiBase &self, T::epsilon_t e, T::alpha_t a, T::stat_type s) { return g_of(e, a, s); }

// --- a pole ---
T::pole_struct pole_of(T::epsilon_t e, T::alpha_t a) {
  T::pole_struct p;
  p.eps_ = e;
  p.alpha_ = a;
  p.index_ = 0;
  p.multiplicity_ = 1;
  p.der_ = 0;
  p.which_g_.clear();
  p.x_alpha_.clear();
  return p;
}
T::pole_struct lib_pole_none(AmiBase &self) { return T::pole_struct(); }
T::pole_struct ref_pole_none(AmiBase &self) { return pole_of(T::epsilon_t(), T::alpha_t()); }
T::pole_struct lib_pole_ea(AmiBase &self, T::epsilon_t e, T::alpha_t a) { return T::pole_struct(e, a); }
T::pole_struct ref_pole_ea(AmiBase &self, T::epsilon_t e, T::alpha_t a) { return pole_of(e, a); }

// --- a term ---
T::term lib_term_none(AmiBase &self) { return T::term(); }
T::term ref_term_none(AmiBase &self) {
  T::term t;
  t.sign = 1;
  t.p_list.clear();
  t.g_list.clear();
  return t;
}
T::term lib_term_spg(AmiBase &self, double s, T::pole_array_t p, T::g_prod_t g) { return T::term(s, p, g); }
T::term ref_term_spg(AmiBase &self, double s, T::pole_array_t p, T::g_prod_t g) {
  T::term t;
  t.sign = s;
  t.p_list = p;
  t.g_list = g;
  return t;
}

// --- the settings of a new object ---
double lib_obj_exp_max_arg(AmiBase &self) {
  AmiBase a;
  return a.exp_max_arg;
}
double ref_obj_exp_max_arg(AmiBase &self) { return 500.0; }
double lib_objp_exp_max_arg(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.exp_max_arg;
}
double ref_objp_exp_max_arg(AmiBase &self, T::ami_parms p) { return 500.0; }
bool lib_obj_drop_bosonic_diverge(AmiBase &self) {
  AmiBase a;
  return a.drop_bosonic_diverge;
}
bool ref_obj_drop_bosonic_diverge(AmiBase &self) { return false; }
bool lib_objp_drop_bosonic_diverge(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.drop_bosonic_diverge;
}
bool ref_objp_drop_bosonic_diverge(AmiBase &self, T::ami_parms p) { return false; }
bool lib_obj_drop_der(AmiBase &self) {
  AmiBase a;
  return a.drop_der;
}
bool ref_obj_drop_der(AmiBase &self) { return false; }
bool lib_objp_drop_der(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.drop_der;
}
bool ref_objp_drop_der(AmiBase &self, T::ami_parms p) { return false; }
bool lib_obj_drop_matsubara_poles(AmiBase &self) {
  AmiBase a;
  return a.drop_matsubara_poles;
}
bool ref_obj_drop_matsubara_poles(AmiBase &self) { return true; }
bool lib_objp_drop_matsubara_poles(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.drop_matsubara_poles;
}
bool ref_objp_drop_matsubara_poles(AmiBase &self, T::ami_parms p) { return true; }
bool lib_obj_zero_external_w(AmiBase &self) {
  AmiBase a;
  return a.zero_external_w;
}
bool ref_obj_zero_external_w(AmiBase &self) { return false; }
bool lib_objp_zero_external_w(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.zero_external_w;
}
bool ref_objp_zero_external_w(AmiBase &self, T::ami_parms p) { return false; }
bool lib_obj_overflow_detected(AmiBase &self) {
  AmiBase a;
  return a.overflow_detected;
}
bool ref_obj_overflow_detected(AmiBase &self) { return false; }
bool lib_objp_overflow_detected(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.overflow_detected;
}
bool ref_objp_overflow_detected(AmiBase &self, T::ami_parms p) { return false; }
bool lib_obj_verbose(AmiBase &self) {
  AmiBase a;
  return a.verbose;
}
bool ref_obj_verbose(AmiBase &self) { return false; }
bool lib_objp_verbose(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.verbose;
}
bool ref_objp_verbose(AmiBase &self, T::ami_parms p) { return false; }
double lib_obj_precision_cutoff(AmiBase &self) {
  AmiBase a;
  return a.precision_cutoff;
}
double ref_obj_precision_cutoff(AmiBase &self) { return 1e15; }
double lib_objp_precision_cutoff(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.precision_cutoff;
}
double ref_objp_precision_cutoff(AmiBase &self, T::ami_parms p) { return 1e15; }
bool lib_obj_bosonic_external(AmiBase &self) {
  AmiBase a;
  return a.bosonic_external;
}
bool ref_obj_bosonic_external(AmiBase &self) { return false; }
bool lib_objp_bosonic_external(AmiBase &self, T::ami_parms p) {
  AmiBase a(p);
  return a.bosonic_external;
}
bool ref_objp_bosonic_external(AmiBase &self, T::ami_parms p) { return false; }
}
