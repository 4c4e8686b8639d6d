#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <map>
#include <numeric>
#include <optional>
#include <string>
#include <string_view>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <tuple>
#include <utility>
#include <variant>
#include <vector>
#include "range_model.hpp"
#include "Log.hpp"
#include "resonanceReconstruction.hpp"
