// Kinematics of the reaction header (its functions are inline, so they are taken from the header).
#include <cmath>
#include "vs.h"
#include "catima/catima.h"
#include "catima/reactions.h"
using namespace catima;
static const double U = 931.4940954;
VS_CASE(case_cm) {
    double T = vs_double("T", 0, 1e6, 100), A = vs_double("A", 0.5, 300, 12), B = vs_double("B", 0.5, 300, 40);
    double e = Ecm_from_T(T, A, B);
    vs_close(e, Ecm_from_T(T, B, A), 1e-9, 0, "centre of mass energy is symmetric in the masses");
    vs_close(e * (A + B), T * A * B, 1e-9, 0, "centre of mass energy is that of the reduced mass");
}
VS_CASE(case_header_momentum) {
    double T = vs_double("T", 0, 1e6, 100), A = vs_double("A", 0.5, 300, 12), g = 1 + T / U;
    double p = p_from_T(T, A);
    vs_check(p >= 0, "momentum is not negative");
    vs_close(p * p, A * A * U * U * (g * g - 1), 1e-8, 1e-9, "momentum is mass times beta gamma");
}
