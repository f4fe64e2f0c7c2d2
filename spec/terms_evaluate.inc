// Reference semantics of the evaluation of terms.

std::complex<double> eval_fprod(AmiBase &self, T::ami_parms &parms, T::pole_array_t &ps, T::ami_vars &ext) {
  std::complex<double> r(1, 0);
  for (int i = 0; i < ps.size(); i++) r *= fermi_pole(self, parms, ps[i], ext);
  return r;
}

std::complex<double> evaluate_term(AmiBase &self, T::ami_parms &parms, T::term &t, T::ami_vars &ext) {
  std::complex<double> g = eval_gprod(self, parms, t.g_list, ext);
  double gr = std::abs(g.real());
  if (std::floor(gr) == gr && gr != 0) self.overflow_detected = true;
  return t.sign * g * eval_fprod(self, parms, t.p_list, ext);
}

std::complex<double> evaluate(AmiBase &self, T::ami_parms &parms, T::terms &ts, T::ami_vars &ext) {
  self.overflow_detected = false;
  std::complex<double> sum(0, 0);
  for (int i = 0; i < ts.size(); i++) sum += evaluate_term(self, parms, ts[i], ext);
  return sum;
}

std::complex<double> evaluate(AmiBase &self, T::ami_parms &parms, T::terms &ts, T::ami_vars &ext,
                              T::g_prod_t &unique_g, T::R_ref_t &Rref, T::ref_eval_t &Eval_list) {
  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0)
    return evaluate(self, parms, ts, ext);
  self.overflow_detected = false;
  double c = self.precision_cutoff;
  T::ami_vars bare = ext;
  bare.prefactor = 1.0;
  std::vector<std::complex<double>> val;
  for (int i = 0; i < unique_g.size(); i++) {
    T::g_prod_t one;
    one.push_back(unique_g[i]);
    std::complex<double> g = eval_gprod(self, parms, one, bare);
    if (std::abs(g.real()) > c || std::abs(g.imag()) > c) self.overflow_detected = true;
    val.push_back(g);
  }
  std::complex<double> sum(0, 0);
  for (int i = 0; i < Eval_list.size(); i++) {
    std::complex<double> k(0, 0);
    for (int j = 0; j < Eval_list[i].size(); j++)
      k += eval_fprod(self, parms, ts[Eval_list[i][j].first].p_list, ext) *
           ts[Eval_list[i][j].first].sign * (double)Eval_list[i][j].second;
    std::complex<double> g(1, 0);
    for (int j = 0; j < Rref[i].size(); j++) g *= val[Rref[i][j].first];
    std::complex<double> t = k * g * ext.prefactor;
    if (std::abs(t.real()) > c || std::abs(t.imag()) > c) self.overflow_detected = true;
    sum += t;
  }
  return sum;
}
