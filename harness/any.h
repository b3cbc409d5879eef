// Arbitrary configuration: every option the code under test should not look at.
#pragma once
#include "vs.h"
#include "catima/config.h"
static inline void any_config(catima::Config& c, bool scattering = true) {
    c.z_effective = vs_int("z_effective", 0, 7);
    c.corrections = vs_int("corrections", 0, 255);
    c.calculation = vs_int("calculation", 0, 1);
    c.low_energy = vs_int("low_energy", 0, 1);
    if (!scattering) return;
    c.scattering = vs_int("model", 0, 255);
    c.scattering_factor = vs_double("factor", 0.1, 10, 1.5);
}
