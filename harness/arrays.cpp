// both array kinds in one program
#include "vp.h"
#include <array>
#include <vector>
#include <string>
#include <memory>
#include <numeric>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include "array_.hpp"
namespace two {
#include "array2.cpp"
}
namespace many {
#include "arrayn.cpp"
}
