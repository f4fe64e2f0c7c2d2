// forward declarations
int factorial(AmiBase &self, int n);
std::complex<double> detect_otf_trigger(AmiBase &self, T::ami_parms &parms, T::R_t &R, T::P_t &P, T::S_t &S,
                                        T::ami_vars &ext);
