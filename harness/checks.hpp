// Oracles shared by several properties.
#pragma once
#include "model.hpp"
// C01: returns true when the criteria were checkable (and checked)
bool check_solved(Ctx& c, const Prob& p, Osqp& q, const Result& r);
// C02 part: multiplier signs
void check_signs(Ctx& c, const Prob& p, Osqp& q, const Result& r, double rhomax);
// C03: info against recomputation
void check_info(Ctx& c, const Prob& p, Osqp& q, const Result& r);
// C04/C05
bool check_pinf(Ctx& c, const Prob& p, Osqp& q, const Result& r);
bool check_dinf(Ctx& c, const Prob& p, Osqp& q, const Result& r);
bool is_na(const V& v);     // the marker for 'not available'
bool same_float(double a, double b);
bool close(double a, double b, double rel, double abs);
bool vclose(const V& a, const V& b, double rel, double abs, int* at = nullptr);
