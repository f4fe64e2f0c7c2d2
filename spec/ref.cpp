// Reference semantics of libami, written from the theory of algorithmic
// Matsubara integration.  Never compiled into anything and never run: the
// checker derives the normal form of each function below and compares it with
// the normal form of the repository function of the same name.
#include "ami_base.hpp"
#include <algorithm>
#include <complex>
#include <vector>

void ref_assume(bool);   // inputs outside are not part of the contract

namespace ref {
typedef AmiBase T;
#include "decl.inc"
#include "construct.inc"
#include "evaluate.inc"
#include "terms.inc"
#include "terms_evaluate.inc"
#include "optimize.inc"
#include "otf.inc"
}
