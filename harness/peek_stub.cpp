#include "model.hpp"
bool peek_scaling(OSQPSolver*, V&, V&, V&, V&, double&, double&) { return false; }
bool peek_z(OSQPSolver*, V&) { return false; }
bool peek_rho(OSQPSolver*, V&) { return false; }
bool peek_data(OSQPSolver*, V&, V&, V&) { return false; }
bool peek_mats(OSQPSolver*, Csc&, Csc&) { return false; }
