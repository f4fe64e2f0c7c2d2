// Reference semantics of the evaluation that repairs vanishing denominators.

// linear combination of the energies
std::complex<double> linear_energy(T::epsilon_t &eps, T::ami_vars &ext) {
  std::complex<double> e(0, 0);
  for (int a = 0; a < eps.size(); a++) e += double(eps[a]) * ext.energy_[a];
  return e;
}

bool all_zero(T::epsilon_t &eps) {
  for (int a = 0; a < eps.size(); a++)
    if (eps[a] != 0) return false;
  return true;
}

// factors of the first affected step whose energies cancel numerically only
void get_triggers(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S, T::ami_vars &ext,
                  std::vector<std::vector<int>> &out) {
  out.clear();
  std::complex<double> zero(0, 0);
  for (int i = 0; i < R.size(); i++) {
    for (int j = 0; j < R[i].size(); j++)
      for (int m = 0; m < R[i][j].size(); m++)
        if (linear_energy(R[i][j][m].eps_, ext) == zero && !all_zero(R[i][j][m].eps_))
          out.push_back(std::vector<int>{i, j, m});
    if (out.size() != 0) break;
  }
}

// pairs of factors of one product of the first affected step, different in
// their coefficients, equal in value
void find_equal_values(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::ami_vars &ext,
                       std::vector<std::vector<int>> &out) {
  out.clear();
  for (int i = 0; i < R.size(); i++) {
    for (int j = 0; j < R[i].size(); j++)
      for (int m = 0; m < R[i][j].size(); m++)
        for (int n = m + 1; n < R[i][j].size(); n++)
          if (R[i][j][m].eps_ != R[i][j][n].eps_ &&
              linear_energy(R[i][j][m].eps_, ext) == linear_energy(R[i][j][n].eps_, ext))
            out.push_back(std::vector<int>{i, j, m, n});
    if (out.size() != 0) break;
  }
}

// decided case by case, below
std::complex<double> detect_otf_trigger(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S, T::ami_vars &ext) { return 0; }

// nothing to repair: the ordinary value
std::complex<double> detect_otf_trigger__none(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S, T::ami_vars &ext) {
  std::vector<std::vector<int>> tr, pr;
  get_triggers(self, parms, R, P, S, ext, tr);
  find_equal_values(self, parms, R, ext, pr);
  ref_assume(tr.size() == 0);
  ref_assume(pr.size() == 0);
  return evaluate(self, parms, R, P, S, ext);
}

// cut back to the first affected step, repair its factors, redo the later
// integrations, try again
std::complex<double> detect_otf_trigger__zeros(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S, T::ami_vars &ext) {
  std::vector<std::vector<int>> tr, pr;
  get_triggers(self, parms, R, P, S, ext, tr);
  find_equal_values(self, parms, R, ext, pr);
  ref_assume(tr.size() > 0);
  ref_assume(pr.size() == 0);
  ref_assume(tr[0][0] >= 0);
  int start = tr[0][0];
  T::R_t nR;
  T::P_t nP;
  T::S_t nS;
  for (int i = 0; i < start + 1; i++) nR.push_back(R[i]);
  for (int i = 0; i < start; i++) {
    nP.push_back(P[i]);
    nS.push_back(S[i]);
  }
  for (int i = 0; i < tr.size(); i++) {
    T::epsilon_t &e = nR[tr[i][0]][tr[i][1]][tr[i][2]].eps_;
    for (int a = 0; a < e.size(); a++) e[a] = 0;
  }
  for (int k = nR.size() - 1; k < parms.N_INT_; k++) update_gprod_general(self, k, k, nR, nP, nS);
  return detect_otf_trigger(self, parms, nR, nP, nS, ext);
}

std::complex<double> detect_otf_trigger__pairs(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S, T::ami_vars &ext) {
  std::vector<std::vector<int>> tr, pr;
  get_triggers(self, parms, R, P, S, ext, tr);
  find_equal_values(self, parms, R, ext, pr);
  ref_assume(tr.size() == 0);
  ref_assume(pr.size() > 0);
  ref_assume(pr[0][0] >= 0);
  int start = pr[0][0];
  T::R_t nR;
  T::P_t nP;
  T::S_t nS;
  for (int i = 0; i < start + 1; i++) nR.push_back(R[i]);
  for (int i = 0; i < start; i++) {
    nP.push_back(P[i]);
    nS.push_back(S[i]);
  }
  for (int i = 0; i < pr.size(); i++)
    nR[pr[i][0]][pr[i][1]][pr[i][2]].eps_ = nR[pr[i][0]][pr[i][1]][pr[i][3]].eps_;
  for (int k = nR.size() - 1; k < parms.N_INT_; k++) update_gprod_general(self, k, k, nR, nP, nS);
  return detect_otf_trigger(self, parms, nR, nP, nS, ext);
}

std::complex<double> evaluate_otf(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S,
                                  T::ami_vars &ext) {
  self.overflow_detected = false;
  return detect_otf_trigger(self, parms, R, P, S, ext);
}
