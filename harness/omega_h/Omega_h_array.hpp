#include "Omega_h_mini.hpp"
