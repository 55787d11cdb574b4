// Instantiates the header-only Coulomb/exchange assembly for extraction.
// No code of the repository is repeated here: the accessors are declared
// only, so the proofs treat them as arbitrary functions.
#include <vector>
#include <sstream>
#include <CoulombExchangeFE.h>
#include <NAORadialBasis.h>
namespace hfvdrv {
  using namespace helfem::atomic::basis;
  struct Small { const helfem::Mat<double> & operator()(size_t iel) const; };
  struct Big { const helfem::Mat<double> & operator()(size_t iel) const; };
  struct Tei { const helfem::Mat<double> & operator()(size_t iel) const; };
  struct Pair { const helfem::Mat<double> & operator()(size_t iel, size_t jel) const; };
  helfem::Mat<double> jc(const FEMRadialBasisT<double> & r, Small s, Big b, Tei t, const helfem::Mat<double> & P) { return assemble_J_FE_one_multipole_cached<double>(r, s, b, t, P); }
  helfem::Mat<double> kc(const FEMRadialBasisT<double> & r, Small s, Big b, Tei t, const helfem::Mat<double> & P) { return assemble_K_FE_one_multipole_cached<double>(r, s, b, t, P); }
  helfem::Mat<double> kp(const FEMRadialBasisT<double> & r, Pair t, const helfem::Mat<double> & P) { return assemble_K_FE_one_multipole_cached_pairwise<double>(r, t, P); }
  helfem::Mat<double> jch(const FEMRadialBasisT<double> & r, Small s, Big b, Tei t, const helfem::Mat<double> & P) { return assemble_J_FE_one_multipole_cached_chol<double>(r, s, b, t, P); }
  helfem::Mat<double> kch(const FEMRadialBasisT<double> & r, Small s, Big b, Tei t, const helfem::Mat<double> & P) { return assemble_K_FE_one_multipole_cached_chol<double>(r, s, b, t, P); }
  helfem::Mat<double> ju(const FEMRadialBasisT<double> & r, int L, const helfem::Mat<double> & P) { return assemble_J_FE_one_multipole<double>(r, L, P); }
  helfem::Mat<double> ku(const FEMRadialBasisT<double> & r, int L, const helfem::Mat<double> & P) { return assemble_K_FE_one_multipole<double>(r, L, P); }
  helfem::Mat<double> jy(const FEMRadialBasisT<double> & r, int L, double l, const helfem::Mat<double> & P) { return assemble_J_FE_one_multipole_yukawa<double>(r, L, l, P); }
  helfem::Mat<double> ky(const FEMRadialBasisT<double> & r, int L, double l, const helfem::Mat<double> & P) { return assemble_K_FE_one_multipole_yukawa<double>(r, L, l, P); }
  void cd(const FEMRadialBasisT<double> & r, int N, std::vector<helfem::Mat<double>> & a, std::vector<helfem::Mat<double>> & b, bool y, double l) { compute_disjoint_radial_integrals<double>(r, N, a, b, y, l); }
  void ct(const FEMRadialBasisT<double> & r, int N, std::vector<helfem::Mat<double>> & a, bool y, double l) { compute_in_element_tei<double>(r, N, a, y, l); }
  void ck(const FEMRadialBasisT<double> & r, int N, const std::vector<helfem::Mat<double>> & a, std::vector<helfem::Mat<double>> & b) { compute_in_element_ktei_from_tei<double>(r, N, a, b); }
  void ce(const FEMRadialBasisT<double> & r, int N, double mu, std::vector<helfem::Mat<double>> & b) { compute_erfc_ktei<double>(r, N, mu, b); }
  helfem::Matrix use(const NAORadialBasis & n, const NAORadialBasis & o, const helfem::Matrix & D, double r) {
    n.eval_orbs(D, r); n.overlap(); n.kinetic(); n.kinetic_l(); n.nuclear(); n.Nbf(); n.coeffs();
    n.exchange_radial(1, o, D); n.coulomb_radial_yukawa(1, r, o, D); n.exchange_radial_yukawa(1, r, o, D);
    NAORadialBasis x(nullptr, D);
    return n.coulomb_radial(1, o, D);
  }
}
