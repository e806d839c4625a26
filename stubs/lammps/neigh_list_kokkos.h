#pragma once
#include "mini_lammps_kokkos.h"
