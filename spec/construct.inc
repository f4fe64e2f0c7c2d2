// Reference semantics of the construction stage (S, P, R arrays).

// --- a Green's function product, one contour integral at a time -------------

// every factor of g with the integration variable replaced by the pole
T::g_struct update_G_pole(AmiBase &self, T::g_struct g, T::pole_struct pole) {
  T::g_struct out;
  out.species_ = g.species_;
  for (int i = 0; i < g.alpha_.size(); i++)
    out.alpha_.push_back(i == pole.index_ ? 0 : g.alpha_[i] + g.alpha_[pole.index_] * pole.alpha_[i]);
  for (int i = 0; i < g.eps_.size(); i++)
    out.eps_.push_back(g.eps_[i] + g.alpha_[pole.index_] * pole.eps_[i]);
  return out;
}

T::pole_struct update_Z_pole(AmiBase &self, T::pole_struct p, T::pole_struct pole) {
  T::pole_struct out;
  for (int i = 0; i < p.alpha_.size(); i++)
    out.alpha_.push_back(i == pole.index_ ? 0 : p.alpha_[i] + p.alpha_[pole.index_] * pole.alpha_[i]);
  for (int i = 0; i < p.eps_.size(); i++)
    out.eps_.push_back(p.eps_[i] + p.alpha_[pole.index_] * pole.eps_[i]);
  return out;
}

bool pole_equiv(AmiBase &self, T::pole_struct a, T::pole_struct b) {
  if (a.eps_.size() != b.eps_.size() || a.alpha_.size() != b.alpha_.size())
    return false;
  for (int i = 0; i < a.eps_.size(); i++)
    if (a.eps_[i] != b.eps_[i]) return false;
  for (int i = 0; i < a.alpha_.size(); i++)
    if (a.alpha_[i] != b.alpha_[i]) return false;
  return true;
}

bool g_equiv(AmiBase &self, T::g_struct a, T::g_struct b) {
  if (a.eps_.size() != b.eps_.size() || a.alpha_.size() != b.alpha_.size())
    return false;
  for (int i = 0; i < a.eps_.size(); i++)
    if (a.eps_[i] != b.eps_[i]) return false;
  for (int i = 0; i < a.alpha_.size(); i++)
    if (a.alpha_[i] != b.alpha_[i]) return false;
  return true;
}

// the pole of one factor: solve alpha_index z + rest = 0 with alpha_index = +-1
T::pole_struct pole_of(AmiBase &self, T::g_struct g, int index, int pos) {
  T::pole_struct p;
  p.index_ = index;
  p.which_g_.push_back(pos);
  for (int j = 0; j < g.alpha_.size(); j++)
    p.alpha_.push_back(j == index ? 0 : -g.alpha_[index] * g.alpha_[j]);
  for (int j = 0; j < g.eps_.size(); j++)
    p.eps_.push_back(-g.alpha_[index] * g.eps_[j]);
  return p;
}

// kept unless all energies vanish and the frequency left over is odd
bool pole_is_kept(AmiBase &self, T::pole_struct p) {
  if (!self.drop_matsubara_poles) return true;
  for (int j = 0; j < p.eps_.size(); j++)
    if (p.eps_[j] != 0) return true;
  int odd = 0;
  for (int j = 0; j < p.alpha_.size(); j++)
    if (p.alpha_[j] != 0) odd++;
  return odd % 2 == 0;
}

T::pole_array_t find_poles(AmiBase &self, int index, T::g_prod_t &R) {
  T::pole_array_t out;
  if (R.size() == 0) return out;
  ref_assume(index >= 0);
  if (index >= R[0].alpha_.size()) return out;
  for (int i = 0; i < R.size(); i++) {
    if (R[i].alpha_[index] == 0) continue;
    T::pole_struct p = pole_of(self, R[i], index, i);
    int hit = -1;
    for (int k = 0; k < out.size(); k++)
      if (pole_equiv(self, out[k], p)) {
        hit = k;
        break;
      }
    if (hit >= 0) {
      out[hit].multiplicity_ += 1;
      out[hit].which_g_.push_back(i);
    } else if (pole_is_kept(self, p)) {
      out.push_back(p);
    }
  }
  return out;
}

// residue at a simple pole: drop the factor holding it, substitute in the rest
T::g_prod_t simple_residue(AmiBase &self, T::g_prod_t G, T::pole_struct pole) {
  T::g_prod_t out;
  for (int i = 0; i < G.size(); i++)
    if (i != pole.which_g_[0]) out.push_back(update_G_pole(self, G[i], pole));
  return out;
}

T::sign_t find_signs(AmiBase &self, int index, T::g_prod_t &R) {
  T::sign_t out;
  for (int i = 0; i < R.size(); i++)
    if (R[i].alpha_[index] != 0) out.push_back((double)R[i].alpha_[index]);
  return out;
}

double get_simple_sign(AmiBase &self, int index, T::g_prod_t &R, T::pole_struct pole) {
  return (double)R[pole.which_g_[0]].alpha_[index];
}

// product of the signs of all factors sharing the pole over (M-1)!
double get_starting_sign(AmiBase &self, T::g_prod_t G, T::pole_struct pole) {
  double r = 1.0;
  for (int i = 0; i < pole.which_g_.size(); i++)
    r *= (double)G[pole.which_g_[i]].alpha_[pole.index_];
  for (int n = 2; n < pole.multiplicity_; n++) r /= (double)n;
  return r;
}

int factorial(AmiBase &self, int n) {
  if (n == 0 || n == 1) return 1;
  return n * factorial(self, n - 1);
}

T::g_prod_t reduce_gprod(AmiBase &self, T::g_prod_t G, T::pole_struct pole) {
  T::g_prod_t out;
  for (int i = 0; i < G.size(); i++) {
    bool keep = true;
    for (int j = 0; j < pole.which_g_.size(); j++)
      if (pole.which_g_[j] == i) keep = false;
    if (keep) out.push_back(G[i]);
  }
  return out;
}

// d/dz of f^{(der)}(z) * prod G: one Fermi-derivative entry, then one entry per
// factor with a z dependence, G' = -alpha G G
void take_derivative_gprod(AmiBase &self, T::g_prod_t &g_prod, T::pole_struct pole,
                           double start_sign, T::Ri_t &r_out, T::pole_array_t &poles,
                           T::sign_t &signs) {
  r_out.clear();
  poles.clear();
  signs.clear();
  T::pole_struct fp = pole;
  fp.der_ = pole.der_ + 1;
  r_out.push_back(g_prod);
  poles.push_back(fp);
  signs.push_back(start_sign);
  for (int t = 0; t < g_prod.size(); t++) {
    int a = g_prod[t].alpha_[pole.index_];
    if (a == 0) continue;
    T::g_prod_t gp;
    for (int m = 0; m < g_prod.size(); m++) {
      gp.push_back(g_prod[m]);
      if (m == t) gp.push_back(g_prod[m]);
    }
    r_out.push_back(gp);
    poles.push_back(pole);
    signs.push_back(-(double)a * start_sign);
  }
}

// residue at a pole of multiplicity M: (M-1)-th derivative of what is left,
// then the pole is substituted
void evaluate_general_residue(AmiBase &self, T::g_prod_t G_in, T::pole_struct pole,
                              T::Ri_t &Ri_out, T::pole_array_t &poles, T::sign_t &signs) {
  T::Ri_t ri;
  T::pole_array_t ps;
  T::sign_t ss;
  ri.push_back(reduce_gprod(self, G_in, pole));
  ps.push_back(pole);
  ss.push_back(get_starting_sign(self, G_in, pole));
  for (int m = 0; m < pole.multiplicity_ - 1; m++) {
    T::Ri_t nri;
    T::pole_array_t nps;
    T::sign_t nss;
    for (int i = 0; i < ri.size(); i++) {
      T::Ri_t dri;
      T::pole_array_t dps;
      T::sign_t dss;
      take_derivative_gprod(self, ri[i], ps[i], ss[i], dri, dps, dss);
      for (int a = 0; a < dri.size(); a++) {
        nri.push_back(dri[a]);
        nps.push_back(dps[a]);
        nss.push_back(dss[a]);
      }
    }
    ri = nri;
    ps = nps;
    ss = nss;
  }
  signs = ss;
  poles = ps;
  Ri_out.clear();
  for (int i = 0; i < ri.size(); i++) {
    T::g_prod_t gp;
    for (int j = 0; j < ri[i].size(); j++) gp.push_back(update_G_pole(self, ri[i][j], pole));
    Ri_out.push_back(gp);
  }
}

// one contour integral: all poles of all products, S/P/R entries aligned
void update_gprod_general(AmiBase &self, int int_index, int array_index, T::R_t &R,
                          T::P_t &P, T::S_t &S) {
  T::Ri_t g_out;
  T::Pi_t p_out;
  T::Si_t s_out;
  for (int j = 0; j < R[array_index].size(); j++) {
    T::pole_array_t poles = find_poles(self, int_index, R[array_index][j]);
    T::pole_array_t pj;
    T::sign_t sj;
    for (int i = 0; i < poles.size(); i++) {
      if (poles[i].multiplicity_ == 1) {
        g_out.push_back(simple_residue(self, R[array_index][j], poles[i]));
        sj.push_back(get_simple_sign(self, int_index, R[array_index][j], poles[i]));
        pj.push_back(poles[i]);
      } else {
        T::Ri_t ri;
        T::pole_array_t ps;
        T::sign_t ss;
        evaluate_general_residue(self, R[array_index][j], poles[i], ri, ps, ss);
        g_out.insert(g_out.end(), ri.begin(), ri.end());
        sj.insert(sj.end(), ss.begin(), ss.end());
        pj.insert(pj.end(), ps.begin(), ps.end());
      }
    }
    p_out.push_back(pj);
    s_out.push_back(sj);
  }
  R.push_back(g_out);
  P.push_back(p_out);
  S.push_back(s_out);
}

void update_gprod_simple(AmiBase &self, int index, T::R_t &R, T::P_t &P, T::S_t &S) {
  T::Ri_t g_out;
  T::Pi_t p_out;
  T::Si_t s_out;
  for (int j = 0; j < R[index].size(); j++) {
    T::pole_array_t poles = find_poles(self, index, R[index][j]);
    T::pole_array_t pj;
    for (int i = 0; i < poles.size(); i++)
      for (int m = 0; m < poles[i].multiplicity_; m++) {
        g_out.push_back(simple_residue(self, R[index][j], poles[i]));
        pj.push_back(poles[i]);
      }
    p_out.push_back(pj);
    s_out.push_back(find_signs(self, index, R[index][j]));
  }
  R.push_back(g_out);
  P.push_back(p_out);
  S.push_back(s_out);
}

void construct(AmiBase &self, T::ami_parms &parms, T::g_prod_t R0, T::R_t &R, T::P_t &P,
               T::S_t &S) {
  R.clear();
  P.clear();
  S.clear();
  T::g_prod_array_t first;
  first.push_back(R0);
  R.push_back(first);
  for (int index = 0; index < parms.N_INT_; index++)
    update_gprod_general(self, index, index, R, P, S);
}
