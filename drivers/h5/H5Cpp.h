#pragma once
#include <mpx_h5.hpp>
