// Calls that must be rejected, as data.
#pragma once
#include "hist.hpp"
struct Bad { int k; Op op; int pn = 0, an = 0; bool pidx = true, aidx = true; std::string what; };
Bad gen_bad(Src& s, const Prob& cur, const OSQPSettings& st);
int apply_bad(Osqp& q, const Bad& b);      // return code
bool break_setting(Src& s, OSQPSettings& t, bool atSetup, std::string& what);
