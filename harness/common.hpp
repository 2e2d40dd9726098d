#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <math.h>
#include <stdlib.h>
#include <valarray>
#include <string>
#include <stdexcept>
#include "ccd.hpp"
#include "cti.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"
#include "../engine/sym.h"

typedef std::valarray<std::valarray<double> > Image;

// A CCD phase with symbolic well parameters.
//   mode 0: exponent 1, no first-electron fill (exact, replayable)
//   mode 1: exponent 1, first-electron fill in [0, 0.5]
//   mode 2: arbitrary positive exponent (uninterpreted monotone power), notch, first-electron fill
//   mode 3: exponent 1, notch and full well concrete (0, 1000)
//   mode 4: as 3, with a notch of 10
inline CCDPhase sym_phase(int mode) {
    if (mode == 3) return CCDPhase(1000.0, 0.0, 1.0, 0.0);
    if (mode == 4) return CCDPhase(1000.0, 10.0, 1.0, 0.0);
    double full = sym_range("full_well", 100, 1e6);
    double notch = sym_range("notch", 0, 50);
    double beta = 1.0, fef = 0.0;
    if (mode >= 1) fef = sym_range("first_electron_fill", 0, 0.5);
    if (mode == 2) beta = sym_range("fill_power", 0.05, 4);
    return CCDPhase(full, notch, beta, fef);
}
#endif
