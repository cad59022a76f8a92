#pragma once
#include <nda/clef/clef.hpp>
