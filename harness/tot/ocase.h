#pragma once
#include <string>
#include <utility>
#include <vector>
struct OP { double x[3], v[3], m, h, u, e, rho, gp; int type; long nb; };
struct OState { std::vector<OP> p; std::vector<int> owner; long it; double t, dt; };
struct OCase { std::vector<std::pair<std::string, std::string>> par; int n; bool tree, diag; std::vector<OState> st; };
struct OVal { double mass, e, kin, in, grav, mom[3], ang[3]; double hmin, hmax, havg, vmin, vmax, vavg; double nmin, nmax, navg; std::vector<double> newh; };
struct ORes { std::vector<OVal> v; };
typedef void (*tot_entry_t)(int, const OCase *, ORes *);
