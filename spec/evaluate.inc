// Reference semantics of the numerical evaluation stage.

std::complex<double> get_energy_from_pole(AmiBase &self, T::pole_struct pole, T::ami_vars ext) {
  std::complex<double> e(0, 0);
  for (int i = 0; i < pole.eps_.size(); i++) e += (double)pole.eps_[i] * ext.energy_[i];
  return e;
}

std::complex<double> get_energy_from_g(AmiBase &self, T::g_struct g, T::ami_vars ext) {
  std::complex<double> e(0, 0);
  for (int i = 0; i < g.eps_.size(); i++) e += (double)g.eps_[i] * ext.energy_[i];
  return e;
}

// prefactor / prod_i ( alpha_i . frequency + eps_i . energy )
std::complex<double> eval_gprod(AmiBase &self, T::ami_parms &parms, T::g_prod_t g, T::ami_vars ext) {
  std::complex<double> denom(1, 0);
  for (int i = 0; i < g.size(); i++) {
    std::complex<double> d(0, 0);
    for (int a = 0; a < g[i].alpha_.size(); a++) d += (double)g[i].alpha_[a] * ext.frequency_[a];
    for (int a = 0; a < g[i].eps_.size(); a++) d += (double)g[i].eps_[a] * ext.energy_[a];
    denom *= d;
  }
  return ext.prefactor / denom;
}

int binomialCoeff(AmiBase &self, int n, int k) {
  int kk = (n - k < k) ? n - k : k;   // C(n,k) = C(n,n-k)
  int c = 1;
  for (int i = 0; i < kk; i++) c = c * (n - i) / (i + 1);
  return c;
}

// sum_m C(k,m) m^r (-1)^(k-m)
double frk(AmiBase &self, int r, int k) {
  double s = 0;
  for (int m = 0; m <= k; m++)
    s += (double)binomialCoeff(self, k, m) * std::pow((double)m, (double)r) * std::pow(-1.0, (double)(k - m));
  return s;
}

// m-th derivative of 1/(sigma exp(beta E)+1)
std::complex<double> fermi_bose(AmiBase &self, int m, double sigma, double beta, std::complex<double> E) {
  std::complex<double> f = 1.0 / (sigma * std::exp(beta * E) + 1.0);
  if (m == 0) return f;
  std::complex<double> sum(0, 0);
  for (int k = 0; k <= m; k++)
    sum += frk(self, m, k) * std::pow(sigma, (double)k) * std::pow(-1.0, (double)(k + 1)) *
           (f / std::pow(sigma + std::exp(-beta * E), k));
  std::complex<double> out = -sum * std::pow(beta, (double)m);
  if (std::abs(out.real()) > self.precision_cutoff || std::abs(out.imag()) > self.precision_cutoff)
    self.overflow_detected = true;
  return out;
}

// which graph types carry a bosonic external frequency
bool bosonic_graph(int type) {
  return type == T::Pi_phuu || type == T::Pi_phud || type == T::doubleocc || type == T::Pi_ppuu ||
         type == T::Pi_ppud || type == T::FORCE;
}

std::complex<double> fermi_pole(AmiBase &self, T::ami_parms &parms, T::pole_struct pole, T::ami_vars ext) {
  ref_assume(pole.alpha_.size() > 0);
  int n = pole.alpha_.size();
  // number of fermionic frequencies in the argument decides fermi or bose
  int eta = 0;
  for (int i = 0; i < n - 1; i++)
    if (pole.alpha_[i] != 0) eta++;
  if (pole.alpha_[n - 1] != 0 && !bosonic_graph(parms.TYPE_)) eta++;
  bool docc = parms.TYPE_ == T::doubleocc || self.bosonic_external;
  double docc_sign = 1;
  if (docc && pole.index_ == n - 1) {
    eta++;
    docc_sign = -1;
  }
  double sigma = (eta % 2 == 0) ? 1.0 : -1.0;

  std::complex<double> E = get_energy_from_pole(self, pole, ext);
  for (int i = 0; i < pole.x_alpha_.size(); i++) E += ext.frequency_[i] * (double)pole.x_alpha_[i];

  std::complex<double> zero(0, 0);
  if (E == zero && sigma == -1.0) {
    if (self.drop_bosonic_diverge) return zero;
    E += parms.E_REG_;
  } else if (E.real() < 0) {
    E -= parms.E_REG_;
  } else {
    E += parms.E_REG_;
  }
  if (self.drop_der && pole.der_ != 0) return zero;
  std::complex<double> out = fermi_bose(self, pole.der_, sigma, ext.BETA_, E);
  return docc ? docc_sign * out : out;
}

T::SorF_t fermi(AmiBase &self, T::ami_parms &parms, T::Pi_t Pi, T::ami_vars ext) {
  T::SorF_t out;
  for (int i = 0; i < Pi.size(); i++) {
    std::vector<std::complex<double>> g;
    for (int j = 0; j < Pi[i].size(); j++) g.push_back(fermi_pole(self, parms, Pi[i][j], ext));
    out.push_back(g);
  }
  return out;
}

T::SorF_t dot(AmiBase &self, T::Si_t Si, T::SorF_t f) {
  T::SorF_t out;
  for (int i = 0; i < Si.size(); i++) {
    std::vector<std::complex<double>> line;
    for (int j = 0; j < Si[i].size(); j++) line.push_back(Si[i][j] * f[i][j]);
    out.push_back(line);
  }
  return out;
}

T::SorF_t cross(AmiBase &self, T::SorF_t left, T::SorF_t right) {
  std::vector<std::complex<double>> line;
  for (int i = 0; i < left[0].size(); i++)
    for (int j = 0; j < right[i].size(); j++) line.push_back(left[0][i] * right[i][j]);
  T::SorF_t out;
  out.push_back(line);
  return out;
}

std::complex<double> star(AmiBase &self, T::ami_parms &parms, T::SorF_t K, T::Ri_t R, T::ami_vars ext) {
  std::complex<double> sum(0, 0);
  for (int i = 0; i < K[0].size(); i++) {
    std::complex<double> g = eval_gprod(self, parms, R[i], ext);
    std::complex<double> t = K[0][i] * g;
    double c = self.precision_cutoff;
    double gr = std::abs(g.real());
    if (std::abs(K[0][i].real()) > c || std::abs(t.real()) > c || std::abs(t.imag()) > c ||
        (std::floor(gr) == gr && gr != 1))
      self.overflow_detected = true;
    sum += t;
  }
  return sum;
}

// S0.f(P0) x S1.f(P1) x ... * R_dim
std::complex<double> evaluate(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S,
                              T::ami_vars &ext) {
  self.overflow_detected = false;
  int dim = parms.N_INT_;
  if (dim == 0) return eval_gprod(self, parms, R[0][0], ext);
  T::SorF_t K;
  if (dim == 1) K = dot(self, S[0], fermi(self, parms, P[0], ext));
  for (int i = 0; i < dim - 1; i++) {
    if (i == 0) K = dot(self, S[0], fermi(self, parms, P[0], ext));
    T::SorF_t right = dot(self, S[i + 1], fermi(self, parms, P[i + 1], ext));
    if (right.size() == 0) return 0;
    K = cross(self, K, right);
  }
  return star(self, parms, K, R[dim], ext);
}

// sum over groups of equal products: (sum of weights) * product of unique factors.
// The overall prefactor enters exactly once per group.
std::complex<double> optimized_star(AmiBase &self, T::ami_parms &parms, T::SorF_t K, T::g_prod_t &unique_g,
                                    T::R_ref_t &Rref, T::ref_eval_t &Eval_list, T::ami_vars ext) {
  double c = self.precision_cutoff;
  T::ami_vars bare = ext;
  bare.prefactor = 1.0;
  std::vector<std::complex<double>> val;
  for (int i = 0; i < unique_g.size(); i++) {
    T::g_prod_t one;
    one.push_back(unique_g[i]);
    std::complex<double> g = eval_gprod(self, parms, one, bare);
    if (std::abs(g.real()) > c || std::abs(g.imag()) > c) self.overflow_detected = true;
    val.push_back(g);
  }
  std::complex<double> sum(0, 0);
  for (int i = 0; i < Eval_list.size(); i++) {
    std::complex<double> k(0, 0);
    for (int j = 0; j < Eval_list[i].size(); j++)
      k += K[0][Eval_list[i][j].first] * (double)Eval_list[i][j].second;
    std::complex<double> g(1, 0);
    for (int j = 0; j < Rref[i].size(); j++) g *= val[Rref[i][j].first];
    std::complex<double> t = k * g * ext.prefactor;
    if (std::abs(t.real()) > c || std::abs(t.imag()) > c) self.overflow_detected = true;
    sum += t;
  }
  return sum;
}

std::complex<double> evaluate(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S,
                              T::ami_vars &ext, T::g_prod_t &unique_g, T::R_ref_t &Rref,
                              T::ref_eval_t &Eval_list) {
  if (Rref.size() == 0 || unique_g.size() == 0 || Eval_list.size() == 0)
    return evaluate(self, parms, R, P, S, ext);
  self.overflow_detected = false;
  int dim = parms.N_INT_;
  if (dim == 0) return eval_gprod(self, parms, R[0][0], ext);
  T::SorF_t K;
  if (dim == 1) K = dot(self, S[0], fermi(self, parms, P[0], ext));
  for (int i = 0; i < dim - 1; i++) {
    if (i == 0) K = dot(self, S[0], fermi(self, parms, P[0], ext));
    K = cross(self, K, dot(self, S[i + 1], fermi(self, parms, P[i + 1], ext)));
  }
  return optimized_star(self, parms, K, unique_g, Rref, Eval_list, ext);
}
