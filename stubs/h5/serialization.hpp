#pragma once
#include <h5/h5.hpp>
