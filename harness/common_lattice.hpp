// The definitions of the lattice classes live in .cpp files of /repo: compile them into the harness.
#pragma once
#include <triqs/lattice/bravais_lattice.hpp>
#include <triqs/lattice/brillouin_zone.hpp>
#define almost_zero almost_zero_bl
#include <triqs/lattice/bravais_lattice.cpp>
#undef almost_zero
#define almost_zero almost_zero_bz
#include <triqs/lattice/brillouin_zone.cpp>
#undef almost_zero
