#pragma once
#include <mpi/mpi.hpp>
