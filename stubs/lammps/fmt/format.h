#pragma once
#include "../mini_lammps.h"
