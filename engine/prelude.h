// Force-included before every translation unit of /repo in symbolic mode.
// Everything that has to keep the machine type `double` is included first; after that
// `double` denotes the symbolic real scalar.  The sources themselves are not edited.
#pragma once
#include "sym.h"
#include <omp.h>
#ifdef SE_BOOST
#endif
namespace se { [[noreturn]] void assert_fail(const char *what, const char *file, int line); }
#define eigen_assert(x) do { if (!(x)) ::se::assert_fail(#x, __FILE__, __LINE__); } while (false)
#include "eigen3/Core"

namespace Eigen {
template <> struct NumTraits<Sym> : GenericNumTraits<Sym> {
  typedef Sym Real; typedef Sym NonInteger; typedef Sym Nested; typedef Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 4, MulCost = 8 };
  static inline Sym epsilon() { return Sym(DBL_EPSILON); }
  static inline Sym dummy_precision() { return Sym(1e-12); }
  static inline Sym highest() { return Sym(DBL_MAX); }
  static inline Sym lowest() { return Sym(-DBL_MAX); }
  static inline Sym infinity() { return Sym(DBL_MAX); }
  static inline Sym quiet_NaN();
  static inline int digits10() { return 15; }
};
namespace internal {
template <> struct cast_impl<Sym, int> { static inline int run(const Sym &x) { return (int)x; } };
template <> struct cast_impl<Sym, long> { static inline long run(const Sym &x) { return (long)x; } };
}
}
#include "eigen3/LU"
#include "eigen3/QR"
#include "eigen3/SVD"
#include "eigen3/Eigenvalues"
// ---- assumed contracts on Eigen's iterative/pivoting decompositions -------------
// (contract on a dependency: the postcondition in the library's documentation)
namespace se {
typedef Eigen::Matrix<Sym, Eigen::Dynamic, Eigen::Dynamic> DM;
typedef Eigen::Matrix<Sym, Eigen::Dynamic, 1> DV;
typedef Eigen::Matrix<CSym, Eigen::Dynamic, Eigen::Dynamic> DCM;
typedef Eigen::Matrix<CSym, Eigen::Dynamic, 1> DCV;
DM exact_solve(DM A, DM b);          // A x = b, A square non singular
DM exact_inverse(const DM &A);
Sym exact_det(const DM &A);
void contract_eig(const DM &A, DM &R, DV &lam, DM &L); // A = R diag(lam) L, R L = I, lam real
DV contract_sym_eigs(const DM &A);   // eigenvalues in increasing order
void contract_svd(const DM &A, DM &U, DV &s, DM &V);   // A = U diag(s) V^T
void register_svd(const DM &A, const DM &U, const DV &s, const DM &V);
void register_solve(const DM &A, const DM &b, const DM &x); // A x = b, A not singular
void register_eig(const DM &A, const DM &R, const DV &lam, const DM &L);
void contract_qr(const DM &A, DM &Q, DM &R);            // A = Q R, Q orthogonal (square), R upper triangular
bool lookup_left(const DM &R, DM &L);
}
namespace Eigen {
template <int R, int C, int O, int MR, int MC> class SelfAdjointEigenSolver<Matrix<Sym, R, C, O, MR, MC>> {
public:
  typedef Matrix<Sym, R, C, O, MR, MC> MT; typedef Matrix<Sym, R, 1, 0, MR, 1> RVT;
  RVT ev; SelfAdjointEigenSolver() {}
  explicit SelfAdjointEigenSolver(Index) {}
  template <class D> explicit SelfAdjointEigenSolver(const MatrixBase<D> &m, int = 0) { compute(m); }
  template <class D> SelfAdjointEigenSolver &compute(const MatrixBase<D> &m, int = 0) { ev = se::contract_sym_eigs(m); return *this; }
  const RVT &eigenvalues() const { return ev; }
};
template <int R, int C, int O, int MR, int MC> class EigenSolver<Matrix<Sym, R, C, O, MR, MC>> {
public:
  typedef Matrix<Sym, R, C, O, MR, MC> MT; typedef Matrix<CSym, R, C, O, MR, MC> EVT; typedef Matrix<CSym, R, 1, 0, MR, 1> EigenvalueType;
  typedef EVT EigenvectorsType;
  EigenvalueType ev; EVT vec; MT pm, pv; EigenSolver() {}
  explicit EigenSolver(Index) {}
  template <class D> explicit EigenSolver(const EigenBase<D> &m, bool = true) { compute(m.derived()); }
  template <class D> EigenSolver &compute(const EigenBase<D> &m, bool = true) {
    se::DM A = m.derived(), Rm, L; se::DV l; se::contract_eig(A, Rm, l, L);
    ev = l.template cast<CSym>(); vec = Rm.template cast<CSym>(); pm = se::DM(l.asDiagonal()); pv = Rm; return *this; }
  const EigenvalueType &eigenvalues() const { return ev; }
  const EVT &eigenvectors() const { return vec; }
  const MT &pseudoEigenvectors() const { return pv; }
  const MT &pseudoEigenvalueMatrix() const { return pm; }
  ComputationInfo info() const { return Success; }
};
template <int R, int C, int O, int MR, int MC, int QP> class JacobiSVD<Matrix<Sym, R, C, O, MR, MC>, QP> {
public:
  typedef Matrix<Sym, R, C, O, MR, MC> MT; MT U, Vm; Matrix<Sym, R, 1> s; JacobiSVD() {}
  template <class D> explicit JacobiSVD(const MatrixBase<D> &m, unsigned = 0) { compute(m); }
  template <class D> JacobiSVD &compute(const MatrixBase<D> &m, unsigned = 0) {
    se::DM A = m, u, v; se::DV sv; se::contract_svd(A, u, sv, v); U = u; Vm = v; s = sv; return *this; }
  const MT &matrixU() const { return U; }
  const MT &matrixV() const { return Vm; }
  const Matrix<Sym, R, 1> &singularValues() const { return s; }
};
namespace internal_se {
template <class M> struct LinSolver {
  se::DM A; LinSolver() {}
  template <class D> se::DM operator()(const D &b) const { return se::exact_solve(A, se::DM(b)); }
};
}
#define SE_LINSOLVER(NAME, ...)                                                                             \
  template <int R, int C, int O, int MR, int MC> class NAME<Matrix<Sym, R, C, O, MR, MC>> {            \
  public:                                                                                              \
    se::DM A; NAME() {}                                                                                \
    NAME(Index, Index) {}                                                                              \
    template <class D> explicit NAME(const EigenBase<D> &m) : A(m.derived()) {}                        \
    template <class D> NAME &compute(const EigenBase<D> &m) { A = m.derived(); return *this; }         \
    template <class D> Matrix<Sym, Dynamic, Dynamic> solve(const MatrixBase<D> &b) const { return se::exact_solve(A, se::DM(b)); } \
    Matrix<Sym, Dynamic, Dynamic> inverse() const { return se::exact_inverse(A); }                     \
    Sym determinant() const { return se::exact_det(A); } __VA_ARGS__                                        \
  };                                                                                                   \
  template <int R, int C, int O, int MR, int MC> class NAME<Matrix<CSym, R, C, O, MR, MC>> {           \
  public:                                                                                              \
    se::DM A, L; bool known = false; NAME() {}                                                         \
    template <class D> explicit NAME(const EigenBase<D> &m) { se::DCM t = m.derived(); A = t.real(); known = se::lookup_left(A, L); } \
    template <class D> Matrix<CSym, Dynamic, Dynamic> solve(const MatrixBase<D> &b) const {            \
      se::DCM bb = b; se::DM br = bb.real(), bi = bb.imag();                                           \
      se::DM xr = known ? se::DM(L * br) : se::exact_solve(A, br), xi = known ? se::DM(L * bi) : se::exact_solve(A, bi); \
      se::DCM x(xr.rows(), xr.cols());                                                                 \
      for (int i = 0; i < x.rows(); i++) for (int j = 0; j < x.cols(); j++) x(i, j) = CSym(xr(i, j), xi(i, j)); \
      return x; }                                                                                      \
  };
SE_LINSOLVER(ColPivHouseholderQR, )
SE_LINSOLVER(HouseholderQR, se::DM householderQ() const { se::DM q, r; se::contract_qr(A, q, r); return q; } se::DM matrixQR() const { se::DM q, r; se::contract_qr(A, q, r); return r; })
SE_LINSOLVER(FullPivHouseholderQR, )
SE_LINSOLVER(PartialPivLU, )
SE_LINSOLVER(FullPivLU, )
namespace internal {
template <int R, int C, int O, int MR, int MC, typename ResultType>
struct compute_inverse<Matrix<Sym, R, C, O, MR, MC>, ResultType, Dynamic> {
  static inline void run(const Matrix<Sym, R, C, O, MR, MC> &m, ResultType &r) { r = se::exact_inverse(se::DM(m)); }
};
template <typename Derived> struct se_is_sym_dyn { enum { value = 0 }; };
template <int R, int C, int O, int MR, int MC>
struct determinant_impl<Matrix<Sym, R, C, O, MR, MC>, Dynamic> {
  static inline Sym run(const Matrix<Sym, R, C, O, MR, MC> &m) { return se::exact_det(se::DM(m)); }
};
}
}
#include "eigen3/Eigen"
#include "eigen3/StdVector"
#define SYMBOLIC 1
#define double Sym
