#include "common.hpp"
#include "mythical/charge_transport/marcus.hpp"
using namespace mythical::charge_transport;
void run() {
  const double kB = 8.617333262145e-5, hb = 6.582119569e-16, PI = 3.14159265358979;
  for (int k = 0; k < 4000 * SCALE; ++k) {
    double lam = logrand(0.01, 3), T = logrand(50, 1000), Ei = drand(-1, 1), Ej = drand(-1, 1), J = (irand(0, 1) ? 1 : -1) * logrand(1e-4, 0.5);
    if (k % 7 == 0) Ej = Ei;
    if (k % 11 == 0) Ej = Ei - lam;
    if (k % 13 == 0) J = 0;
    std::ostringstream o; o.precision(17);
    o << "lambda " << lam << " T " << T << " E_i " << Ei << " E_j " << Ej << " J " << J; WHERE = o.str();
    Marcus m(lam, T);
    double ex = std::pow(Ej - Ei + lam, 2) / (4 * lam * kB * T);
    double want = 2 * PI / hb * J * J / std::sqrt(4 * PI * kB * T) * std::exp(-ex);
    double f = m.getRate(Ei, Ej, J), b = m.getRate(Ej, Ei, J);
    double tol = 1e-7 * (1 + ex);
    REQUIRE(near_(f, want, tol), "rate " << f << " want " << want);
    REQUIRE(f >= 0, "rate " << f);
    if (J != 0 && ex < 600) REQUIRE(f > 0, "rate " << f);
    if (J == 0) REQUIRE(f == 0, "rate without coupling " << f);
    REQUIRE(near_(m.getRate(Ei, Ej, -J), f, 1e-12), "sign of the coupling");
    REQUIRE(near_(m.getRate(Ei + 0.25, Ej + 0.25, J), f, tol), "common energy shift");
    double exb = std::pow(Ei - Ej + lam, 2) / (4 * lam * kB * T);
    if (J != 0 && ex < 500 && exb < 500) REQUIRE(near_(f / b, std::exp(-(Ej - Ei) / (kB * T)), 1e-9 * (1 + ex + exb)), "detailed balance " << f / b);
  }
}
