// translation unit analysed by the value-graph checks: the library (type-checked against the interface
// models in ../stubs) followed by the specification scenarios.  Nothing here is ever compiled to code or run.
#include "driver.cpp"
#include "hardsphere.hpp"
#include "coulomb.hpp"
#include "basics.hpp"
#include "kinematics.hpp"
#include "resolved.hpp"
#include "legacy.hpp"
#include "systems.hpp"
#include "unresolved.hpp"
#include "grids.hpp"
#include "construct.hpp"
#include "endf.hpp"
#include "functional.hpp"
