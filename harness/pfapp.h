// Access to the power-flow application module without its parsers and configuration file.
#pragma once
#include "pfnet.h"
#include "gridpack/math/math.hpp"
#include "gridpack/applications/modules/powerflow/pf_app_module.hpp"
using powerflow::PFAppModule;
template <class Tag, typename Tag::type M> struct Rob { friend typename Tag::type rob(Tag) { return M; } };
#define ROB(tag, T, m) struct tag { typedef T PFAppModule::*type; friend type rob(tag); }; template struct Rob<tag, &PFAppModule::m>;
ROB(RNet, boost::shared_ptr<PFNetwork>, p_network) ROB(RFac, boost::shared_ptr<PFFactoryModule>, p_factory) ROB(RMax, int, p_max_iteration) ROB(RTol, double, p_tolerance) ROB(RQlim, int, p_qlim) ROB(RNoPrint, bool, p_no_print) ROB(RCfg, utility::Configuration *, p_config)
#ifndef PFAPP_SOLVE
void math::gm_solve(math::RealMatrix &, const math::RealVector &, math::RealVector &) { gp_fail_path("linear solver"); }
void math::gm_nlsolve(math::RealNonlinearSolver &, math::RealVector &) { gp_fail_path("nonlinear solver"); }
#endif
void math::gm_solve(math::Matrix &, const math::Vector &, math::Vector &) { gp_fail_path("linear solver"); } void math::gm_nlsolve(math::NonlinearSolver &, math::Vector &) { gp_fail_path("nonlinear solver"); }
