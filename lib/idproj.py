"""Generate the initial-data solvers (TwoPunctures with NRPyPN momenta, TOVola) with probing drivers."""
import bhah
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.helpers.generic import copy_files
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import CodeParameters as CPs
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile
from vlib import quiet

ID = """typedef struct __initial_data_struct__ {
  REAL alpha;
  REAL betaSphorCartU0, betaSphorCartU1, betaSphorCartU2;
  REAL BSphorCartU0, BSphorCartU1, BSphorCartU2;
  REAL gammaSphorCartDD00, gammaSphorCartDD01, gammaSphorCartDD02;
  REAL gammaSphorCartDD11, gammaSphorCartDD12, gammaSphorCartDD22;
  REAL KSphorCartDD00, KSphorCartDD01, KSphorCartDD02;
  REAL KSphorCartDD11, KSphorCartDD12, KSphorCartDD22;
  REAL T4SphorCartUU00, T4SphorCartUU01, T4SphorCartUU02, T4SphorCartUU03;
  REAL T4SphorCartUU11, T4SphorCartUU12, T4SphorCartUU13;
  REAL T4SphorCartUU22, T4SphorCartUU23, T4SphorCartUU33;
} initial_data_struct;
typedef struct __ID_persist_struct__ {
%s
} ID_persist_struct;
"""
TP_MAIN = r"""
  commondata_struct commondata, *c = &commondata; params_struct p; memset(&p, 0, sizeof p);
  commondata_struct_set_to_default(c);
  FILE *fi = fopen(argv[1], "r"), *fo = fopen(argv[2], "wb"); char cmd[32];
  ID_persist_struct ID; int have = 0;
  while (fscanf(fi, "%31s", cmd) == 1) {
    if (!strcmp(cmd, "set")) { /* sep q chiM[3] chim[3] p_t p_r bareM barem NA NB Nphi */
      REAL a[12]; for (int i = 0; i < 12; i++) if (fscanf(fi, "%lf", a + i) != 1) return 3;
      int n[3]; if (fscanf(fi, "%d %d %d", n, n + 1, n + 2) != 3) return 3;
      c->initial_sep = a[0]; c->mass_ratio = a[1];
      c->bbhxy_BH_M_chix = a[2]; c->bbhxy_BH_M_chiy = a[3]; c->bbhxy_BH_M_chiz = a[4];
      c->bbhxy_BH_m_chix = a[5]; c->bbhxy_BH_m_chiy = a[6]; c->bbhxy_BH_m_chiz = a[7];
      c->initial_p_t = a[8]; c->initial_p_r = a[9]; c->TP_bare_mass_M = a[10]; c->TP_bare_mass_m = a[11];
      c->TP_npoints_A = n[0]; c->TP_npoints_B = n[1]; c->TP_npoints_phi = n[2];
    } else if (!strcmp(cmd, "pn")) {
      NRPyPN_quasicircular_momenta(c);
      const REAL o[2] = {c->initial_p_t, c->initial_p_r}; fwrite(o, 8, 2, fo);
    } else if (!strcmp(cmd, "solve")) {
      memset(&ID, 0x7e, sizeof ID);
      initialize_ID_persist_struct(c, &ID); TP_solve(&ID); have = 1;
      const REAL o[12] = {ID.mp, ID.mm, ID.mp_adm, ID.mm_adm, ID.E, ID.J1, ID.J2, ID.J3, c->initial_p_t, c->initial_p_r, c->mass_M, c->mass_m};
      fwrite(o, 8, 12, fo);
    } else if (!strcmp(cmd, "at")) {
      int n; if (fscanf(fi, "%d", &n) != 1) return 3;
      REAL *x = malloc(24 * n), *o = malloc(8 * 19 * n);
      for (int i = 0; i < 3 * n; i++) if (fscanf(fi, "%lf", x + i) != 1) return 3;
#pragma omp parallel for
      for (int i = 0; i < n; i++) {
        initial_data_struct d; memset(&d, 0xff, sizeof d);
        TP_Interp(c, &p, x + 3 * i, &ID, &d);
        memcpy(o + 19 * i, &d, 8 * 19); }
      fwrite(o, 8, 19 * n, fo); free(x); free(o);
    } else if (!strcmp(cmd, "free")) {
      extern void free_derivs(derivs *v, int n);
      free_derivs(&ID.v, ID.npoints_A * ID.npoints_B * ID.npoints_phi); free_derivs(&ID.cf_v, ID.npoints_A * ID.npoints_B * ID.npoints_phi);
    } else return 4;
  }
  fclose(fi); fclose(fo);
  return 0;
"""
TOV_MAIN = r"""
  commondata_struct commondata, *c = &commondata; params_struct p; memset(&p, 0, sizeof p);
  commondata_struct_set_to_default(c);
  FILE *fi = fopen(argv[1], "r"), *fo = fopen(argv[2], "wb");
  ID_persist_struct ID; int n;
  if (fscanf(fi, "%lf %lf %lf %lf %d", &c->initial_central_density, &c->poly_eos_K, &c->poly_eos_Gamma, &c->ode_error_limit, &n) != 5) return 3;
  TOVola_solve(c, &ID);
  const REAL o[6] = {ID.r_Schw_arr[ID.numpoints_arr - 1], ID.r_iso_arr[ID.numpoints_arr - 1], ID.M_arr[ID.numpoints_arr - 1], ID.numpoints_arr, 0, 0};
  fwrite(o, 8, 6, fo);
  REAL *x = malloc(24 * n), *ov = malloc(8 * 29 * n);
  for (int i = 0; i < 3 * n; i++) if (fscanf(fi, "%lf", x + i) != 1) return 3;
#pragma omp parallel for
  for (int i = 0; i < n; i++) { /* points: multiples of the isotropic radius of the star */
    initial_data_struct d; memset(&d, 0xff, sizeof d);
    const REAL X[3] = {x[3 * i] * o[1], x[3 * i + 1] * o[1], x[3 * i + 2] * o[1]};
    TOVola_interp(c, &p, X, &ID, &d);
    memcpy(ov + 29 * i, &d, 8 * 29); }
  fwrite(ov, 8, 29 * n, fo); free(x); free(ov);
  free(ID.r_Schw_arr); free(ID.rho_energy_arr); free(ID.rho_baryon_arr); free(ID.P_arr); free(ID.M_arr); free(ID.expnu_arr); free(ID.exp4phi_arr); free(ID.r_iso_arr);
  fclose(fi); fclose(fo);
  return 0;
"""


def _finish(d, inc):
    CPs.write_CodeParameters_h_files(project_dir=str(d))
    CPs.register_CFunctions_params_commondata_struct_set_to_default()
    Bdefines_h.output_BHaH_defines_h(project_dir=str(d), additional_includes=inc, enable_intrinsics=False)
    Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name="prog", exec_or_library_name="prog", CC="gcc", addl_CFLAGS=["$(shell gsl-config --cflags)"], addl_libraries=["$(shell gsl-config --libs)"])


def gen_tp(d):
    import nrpy.infrastructures.BHaH.general_relativity.NRPyPN_quasicircular_momenta as N
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.ID_persist_struct as IDps
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.TwoPunctures_lib as TPl
    par.set_parval_from_str("Infrastructure", "BHaH")
    with quiet():
        N.register_CFunction_NRPyPN_quasicircular_momenta()
        TPl.register_C_functions()
        Bdefines_h.register_BHaH_defines("initial_data", ID % IDps.ID_persist_str())
        bhah.raw_main(TP_MAIN)
        copy_files(package="nrpy.infrastructures.BHaH.general_relativity.TwoPunctures", filenames_list=["TwoPunctures.h", "TP_utilities.h"], project_dir=str(d), subdirectory="TwoPunctures")
        _finish(d, ["TwoPunctures/TwoPunctures.h"])


def gen_tov(d):
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.ID_persist_struct as IDps
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_interp as TOVinterp
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve as TOVsolve
    par.set_parval_from_str("Infrastructure", "BHaH")
    with quiet():
        TOVinterp.register_CFunction_TOVola_interp()
        TOVsolve.register_CFunction_TOVola_solve()
        Bdefines_h.register_BHaH_defines("initial_data", ID % IDps.ID_persist_str())
        bhah.raw_main(TOV_MAIN)
        _finish(d, [])
