"""Generate one Einstein Toolkit BSSN thorn with the repository's own registration functions."""
import importlib
import nrpy.params as par
from nrpy.helpers.generic import copy_files

ADM = dict(metric="gxx gxy gxz gyy gyz gzz", curv="kxx kxy kxz kyy kyz kzz", shift="betax betay betaz", dtshift="dtbetax dtbetay dtbetaz", lapse="alp", dtlapse="dtalp")
TMN = {"Tmunu": None}


def fast_kernels():
    """GoldenKernels only changes how expressions are factored (C01/C03 cover it) and takes minutes per BSSN kernel"""
    import nrpy.c_codegen as ccg
    real = ccg.c_codegen

    def c_codegen(*a, **k):
        k.pop("enable_GoldenKernels", None)
        return real(*a, **k)

    ccg.c_codegen = c_codegen


def generate(d, c):
    """c: infra (ETLegacy/CarpetX), thorn, orders, simd, t4, cf, lapse, shift, ko, cako, cahd, ssl"""
    X = c["infra"] == "CarpetX"
    fast_kernels()
    imp = lambda m: importlib.import_module(f"nrpy.infrastructures.{c['infra']}.{m}")
    gr = lambda m: getattr(imp("general_relativity." + m), "register_CFunction_" + m)
    th = c["thorn"]
    for mod in ("rhs_eval", "BSSN_constraints"):
        gr(mod)  # import: registers the parameters set below
    par.set_parval_from_str("Infrastructure", c["infra"])
    par.set_parval_from_str("register_MU_gridfunctions", True)
    par.set_parval_from_str("EvolvedConformalFactor_cf", c["cf"])
    par.register_CodeParameter("CCTK_REAL", __name__, "lapse_floor", "1e-15", add_to_glb_code_params_dict=True)
    par.register_CodeParameter("CCTK_INT", __name__, "FD_order", "4", add_to_glb_code_params_dict=True)
    if c["t4"]:
        gr("T4DD_to_T4UU")(thorn_name=th, CoordSystem="Cartesian", enable_rfm_precompute=False)
    for o in c["orders"]:
        par.set_parval_from_str("fd_order", o)
        gr("ADM_to_BSSN")(thorn_name=th, CoordSystem="Cartesian", fd_order=o)
        gr("Ricci_eval")(thorn_name=th, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_simd=c["simd"], fd_order=o)
        extra = dict(enable_CAKO=c["cako"]) if X else dict(enable_CAKO=c["cako"], enable_CAHD=c["cahd"], enable_SSL=c["ssl"])
        gr("rhs_eval")(thorn_name=th, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=c["t4"], enable_simd=c["simd"], fd_order=o,
                       LapseEvolutionOption=c["lapse"], ShiftEvolutionOption=c["shift"], enable_KreissOliger_dissipation=c["ko"],
                       KreissOliger_strength_gauge=0.1, KreissOliger_strength_nongauge=0.1, **extra)
        gr("BSSN_constraints")(thorn_name=th, CoordSystem="Cartesian", enable_rfm_precompute=False, enable_T4munu=c["t4"], enable_simd=c["simd"], fd_order=o)
    if not X:
        gr("RegisterSlicing")(thorn_name=th)
    gr("BSSN_to_ADM")(thorn_name=th, CoordSystem="Cartesian")
    gr("floor_the_lapse")(thorn_name=th)
    gr("enforce_detgammahat_constraint")(thorn_name=th, CoordSystem="Cartesian", enable_rfm_precompute=False)
    if not X:
        imp("Symmetry_registration").register_CFunction_Symmetry_registration_oldCartGrid3D(thorn_name=th)
    imp("boundary_conditions").register_CFunctions(thorn_name=th)
    imp("zero_rhss").register_CFunction_zero_rhss(thorn_name=th)
    if not X:
        imp("MoL_registration").register_CFunction_MoL_registration(thorn_name=th)
    lev = 1 if X else 3
    imp("schedule_ccl").construct_schedule_ccl(project_dir=str(d), thorn_name=th, STORAGE=f"""
STORAGE: evol_variables[{lev}]
STORAGE: evol_variables_rhs[1]
STORAGE: auxevol_variables[1]
STORAGE: aux_variables[{lev}]""")
    if X:
        imp("configuration_ccl").construct_configuration_ccl(project_dir=str(d), thorn_name=th)
    imp("interface_ccl").construct_interface_ccl(project_dir=str(d), thorn_name=th, inherits="ADMBaseX TmunuBaseX" if X else "ADMBase Boundary Grid TmunuBase",
                                                 USES_INCLUDEs="USES INCLUDE: loop_device.hxx" if X else "USES INCLUDE: Symmetry.h\n", is_evol_thorn=True, enable_NewRad=True)
    imp("param_ccl").construct_param_ccl(project_dir=str(d), thorn_name=th, shares_extends_str="")
    imp("make_code_defn").output_CFunctions_and_construct_make_code_defn(project_dir=str(d), thorn_name=th)
    src = d / th / "src"
    copy_files(package="nrpy.helpers", filenames_list=["simd_intrinsics.h"], project_dir=str(src), subdirectory="simd")
    f = src / "simd" / "simd_intrinsics.h"
    f.write_text(f.read_text().replace("REAL_SIMD_ARRAY REAL", "REAL_SIMD_ARRAY CCTK_REAL"))
    return d / th
