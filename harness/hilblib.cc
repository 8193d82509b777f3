// Hilbert transform of a complex spectral function through the library interface.
// Input: <lim or -1> <n> <rows x re im> <m> <rows Re z, Im z>
#include "hilb.hpp"
#include <cstdio>
using namespace NRG::Hilb;

int main() {
  double lim;
  size_t n, m;
  std::cin >> lim >> n;
  std::vector<double> X(n), R(n), I(n);
  for (size_t i = 0; i < n; i++) std::cin >> X[i] >> R[i] >> I[i];
  std::cin >> m;
  for (size_t i = 0; i < m; i++) {
    double x, y;
    std::cin >> x >> y;
    const std::complex<double> z(x, y);
    const auto r = lim < 0 ? hilbert_transform(X, R, I, z) : hilbert_transform(X, R, I, z, lim);
    printf("%.17g %.17g\n", r.real(), r.imag());
  }
}
