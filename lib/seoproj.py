"""Generate the SEOBNRv5/BOB waveform program with a probing driver, and exact Kerr quasinormal modes as an oracle."""
from pathlib import Path
import mpmath as mp
import bhah
import nrpy.c_function as cfc
import nrpy.params as par
from nrpy.infrastructures.BHaH import BHaH_defines_h as Bdefines_h
from nrpy.infrastructures.BHaH import CodeParameters as CPs
from nrpy.infrastructures.BHaH import Makefile_helpers as Makefile
from vlib import quiet

HDRS = ["gsl_vector", "gsl_multiroots", "gsl_errno", "gsl_roots", "gsl_matrix", "gsl_odeiv2", "gsl_spline", "gsl_interp", "gsl_sf_gamma", "gsl_linalg"]
DEFS = """
#include<complex.h>
#define COMPLEX double complex
#define NUMVARS 8
#define TIME 0
#define R 1
#define PHI 2
#define PRSTAR 3
#define PPHI 4
#define H 5
#define OMEGA 6
#define OMEGA_CIRC 7
#define IDX(idx, var) ((idx)*NUMVARS + (var))
#define NUMMODES 3
#define HPLUS 1
#define HCROSS 2
#define RE 1
#define IM 2
#define IDX_WF(idx,var) ((idx)*NUMMODES + (var))
"""
PRE = r"""
static FILE *fo;
static void D(const char *n, const REAL *v, size_t k) { fprintf(fo, "%s %zu\n", n, k); if (k) fwrite(v, 8, k, fo); fprintf(fo, "\n"); fflush(fo); }
static void coef(commondata_struct *c) {
  const REAL v[] = {c->m1, c->m2, c->a6, c->dSO, c->Delta_t, c->M_f, c->a_f, c->r_ISCO, c->r_stop, c->omega_qnm, c->tau_qnm, c->dT};
  D("coef", v, 12); }
static void point(commondata_struct *c, const REAL *y, const char *nm) { /* everything the program computes at one phase-space point */
  REAL o[40]; int n = 0; REAL f[4];
  c->r = y[0]; c->phi = y[1]; c->prstar = y[2]; c->pphi = y[3];
  SEOBNRv5_aligned_spin_augments(c);
  o[n++] = c->Hreal; o[n++] = c->dHreal_dpphi; o[n++] = c->Omega_circ;                                  /* 0 1 2 */
  const REAL dyn[8] = {0.0, y[0], y[1], y[2], y[3], c->Hreal, c->dHreal_dpphi, c->Omega_circ};
  SEOBNRv5_aligned_spin_right_hand_sides(0.0, y, f, c);
  for (int i = 0; i < 4; i++) o[n++] = f[i];                                                            /* 3..6 */
  SEOBNRv5_aligned_spin_flux(y, dyn[5], dyn[6], dyn[7], f, c);
  o[n++] = f[0]; o[n++] = f[1];                                                                         /* 7 8 */
  gsl_vector *x = gsl_vector_alloc(2), *F = gsl_vector_alloc(2), *F2 = gsl_vector_alloc(2); gsl_matrix *J = gsl_matrix_alloc(2, 2), *J2 = gsl_matrix_alloc(2, 2);
  gsl_vector_set(x, 0, y[0]); gsl_vector_set(x, 1, y[3]);
  SEOBNRv5_aligned_spin_Hamiltonian_circular_orbit(x, c, F);
  SEOBNRv5_aligned_spin_Hamiltonian_circular_orbit_dRHS(x, c, J);
  SEOBNRv5_aligned_spin_Hamiltonian_circular_orbit_RHSdRHS(x, c, F2, J2);
  for (int i = 0; i < 2; i++) o[n++] = gsl_vector_get(F, i);                                            /* 9 10 */
  for (int i = 0; i < 4; i++) o[n++] = gsl_matrix_get(J, i / 2, i % 2);                                 /* 11..14 */
  for (int i = 0; i < 2; i++) o[n++] = gsl_vector_get(F2, i);                                           /* 15 16 */
  for (int i = 0; i < 4; i++) o[n++] = gsl_matrix_get(J2, i / 2, i % 2);                                /* 17..20 */
  gsl_vector_free(x); gsl_vector_free(F); gsl_vector_free(F2); gsl_matrix_free(J); gsl_matrix_free(J2);
  o[n++] = SEOBNRv5_aligned_spin_radial_momentum_conditions(y[2], c);                                   /* 21 */
  REAL dy[8], wf[2]; for (int i = 0; i < 8; i++) dy[i] = dyn[i];
  SEOBNRv5_aligned_spin_waveform(dy, wf, c);
  o[n++] = wf[0]; o[n++] = wf[1];                                                                       /* 22 23 */
  D(nm, o, n); }
static void rk4(commondata_struct *c, REAL *y, REAL dt, int n) {
  REAL k1[4], k2[4], k3[4], k4[4], z[4]; const REAL h = dt / n;
  for (int s = 0; s < n; s++) {
    SEOBNRv5_aligned_spin_right_hand_sides(0.0, y, k1, c);
    for (int i = 0; i < 4; i++) z[i] = y[i] + 0.5 * h * k1[i];
    SEOBNRv5_aligned_spin_right_hand_sides(0.0, z, k2, c);
    for (int i = 0; i < 4; i++) z[i] = y[i] + 0.5 * h * k2[i];
    SEOBNRv5_aligned_spin_right_hand_sides(0.0, z, k3, c);
    for (int i = 0; i < 4; i++) z[i] = y[i] + h * k3[i];
    SEOBNRv5_aligned_spin_right_hand_sides(0.0, z, k4, c);
    for (int i = 0; i < 4; i++) y[i] += h * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6; } }
"""
MAIN = r"""
  commondata_struct commondata, *c = &commondata;
  fo = fopen(argv[2], "wb");
  commondata_struct_set_to_default(c);
  FILE *fi = fopen(argv[1], "r"); char cmd[32];
  double a[8];
  while (fscanf(fi, "%31s", cmd) == 1) {
    if (!strcmp(cmd, "set")) { /* mass_ratio chi1 chi2 initial_omega total_mass dt */
      for (int i = 0; i < 6; i++) if (fscanf(fi, "%lf", a + i) != 1) return 3;
      c->mass_ratio = a[0]; c->chi1 = a[1]; c->chi2 = a[2]; c->initial_omega = a[3]; c->total_mass = a[4]; c->dt = a[5];
      SEOBNRv5_aligned_spin_coefficients(c); coef(c);
    } else if (!strcmp(cmd, "circ")) {
      SEOBNRv5_aligned_spin_initial_conditions_conservative(c);
      const REAL y[4] = {c->r, 0.0, 0.0, c->pphi}; D("circ", y, 4); point(c, y, "circpt");
    } else if (!strcmp(cmd, "point")) {
      for (int i = 0; i < 4; i++) if (fscanf(fi, "%lf", a + i) != 1) return 3;
      point(c, a, "point");
    } else if (!strcmp(cmd, "run")) {
      c->phi = 0.0;
      SEOBNRv5_aligned_spin_initial_conditions_conservative(c);
      SEOBNRv5_aligned_spin_initial_conditions_dissipative(c);
      const REAL y[4] = {c->r, c->phi, c->prstar, c->pphi}; D("ic", y, 4);
      SEOBNRv5_aligned_spin_ode_integration(c);
      D("low", c->dynamics_low, c->nsteps_low * NUMVARS); D("fine", c->dynamics_fine, c->nsteps_fine * NUMVARS);
      SEOBNRv5_aligned_spin_waveform_from_dynamics(c);
      D("wlow", c->waveform_low, c->nsteps_low * NUMMODES); D("wfine", c->waveform_fine, c->nsteps_fine * NUMMODES);
      SEOBNRv5_aligned_spin_NQC_corrections(c);
      const REAL q[] = {c->a_1_NQC, c->a_2_NQC, c->a_3_NQC, c->b_1_NQC, c->b_2_NQC, c->t_ISCO, c->t_attach}; D("nqc", q, 7);
      D("insp", c->waveform_inspiral, c->nsteps_inspiral * NUMMODES);
      REAL am[3], om[2]; BOB_aligned_spin_NQC_rhs(c, am, om); const REAL b[] = {am[0], am[1], am[2], om[0], om[1]}; D("bob", b, 5);
      SEOBNRv5_aligned_spin_IMR_waveform(c);
      D("imr", c->waveform_IMR, c->nsteps_IMR * NUMMODES);
      { REAL bw[2 * 41]; for (int i = 0; i < 41; i++) BOB_aligned_spin_waveform(c->t_attach + 0.5 * i, c, bw + 2 * i); D("bobwf", bw, 82); }
      { /* integrate on from the last row */
        REAL y2[4]; for (int i = 0; i < 4; i++) y2[i] = c->dynamics_fine[IDX(c->nsteps_fine - 1, 1 + i)];
        for (int s = 0; s < 60; s++) { point(c, y2, "after"); rk4(c, y2, 0.05, 2); } }
    } else if (!strcmp(cmd, "rk4")) { /* from a low (0) or fine (1) row, to a time */
      int w, i; if (fscanf(fi, "%d %d %lf", &w, &i, a) != 3) return 3;
      const REAL *row = (w ? c->dynamics_fine : c->dynamics_low) + IDX((size_t)i, 0);
      REAL y[4] = {row[1], row[2], row[3], row[4]};
      const int n = 4 + (int)(fabs(a[0] - row[0]) * 8.0 * row[OMEGA] * 12);
      if (a[0] != row[0]) rk4(c, y, a[0] - row[0], n);
      D("rk4", y, 4); point(c, y, "rk4pt");
    } else if (!strcmp(cmd, "free")) {
      free(c->dynamics_low); free(c->dynamics_fine); free(c->waveform_low); free(c->waveform_fine); free(c->waveform_inspiral); free(c->waveform_IMR);
    } else return 4;
  }
  fclose(fi); fclose(fo);
  return 0;
"""


def generate(d):
    import nrpy.infrastructures.BHaH.seobnr.BOB_C_codegen_library as B
    import nrpy.infrastructures.BHaH.seobnr.SEOBNR_BOB_C_waveform_codegen_library as W
    import nrpy.infrastructures.BHaH.seobnr.SEOBNR_C_codegen_library as C
    import nrpy.infrastructures.BHaH.seobnr.SEOBNR_C_dynamics_codegen_library as Dy
    import nrpy.infrastructures.BHaH.seobnr.SEOBNR_C_gsl_routines_library as G
    import nrpy.infrastructures.BHaH.seobnr.SEOBNR_C_initial_conditions_codegen_library as I

    par.set_parval_from_str("Infrastructure", "BHaH")
    p = "register_CFunction_SEOBNRv5_"
    with quiet():
        G.register_CFunction_handle_gsl_return_status()
        for m, names in [(G, "multidimensional_root_wrapper aligned_spin_gamma_wrapper"), (C, "aligned_spin_flux aligned_spin_right_hand_sides aligned_spin_waveform aligned_spin_waveform_from_dynamics"),
                         (I, "aligned_spin_coefficients aligned_spin_Hamiltonian_circular_orbit aligned_spin_Hamiltonian_circular_orbit_dRHS aligned_spin_Hamiltonian_circular_orbit_RHSdRHS aligned_spin_initial_conditions_conservative aligned_spin_radial_momentum_condition aligned_spin_initial_conditions_dissipative"),
                         (Dy, "aligned_spin_augments aligned_spin_argrelmin aligned_spin_iterative_refinement aligned_spin_intepolate_dynamics aligned_spin_ode_integration"),
                         (W, "aligned_spin_unwrap aligned_spin_interpolate_modes NQC_corrections aligned_spin_IMR_waveform")]:
            for n in names.split():
                getattr(m, p + n)()
        for n in ("waveform", "waveform_from_times", "NQC_rhs"):
            getattr(B, "register_CFunction_BOB_aligned_spin_" + n)()
        CPs.write_CodeParameters_h_files(set_commondata_only=True, project_dir=str(d))
        CPs.register_CFunctions_params_commondata_struct_set_to_default()
        Bdefines_h.output_BHaH_defines_h(project_dir=str(d), additional_includes=[str(Path("gsl") / (h + ".h")) for h in HDRS] + ["complex.h"], supplemental_defines_dict={"SEOBNR": DEFS}, enable_intrinsics=False)
        bhah.raw_main(MAIN, prefunc=PRE)
        Makefile.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=str(d), project_name="prog", exec_or_library_name="prog", CC="gcc", addl_CFLAGS=["$(shell gsl-config --cflags)"], addl_libraries=["$(shell gsl-config --libs)"])


def kerr_qnm(a, guess):
    """fundamental l=m=2 s=-2 frequency M omega (complex) of a Kerr hole with spin a, by Leaver's continued fractions (M=1)"""
    old = mp.mp.dps
    mp.mp.dps = 20
    m, s, l = 2, -2, 2
    try:
        a = mp.mpf(a) / 2  # Leaver: 2M = 1

        def ang(A, w):
            k1, k2 = abs(m - s) / mp.mpf(2), abs(m + s) / mp.mpf(2)
            aw = a * w
            al = lambda n: -2 * (n + 1) * (n + 2 * k1 + 1)
            be = lambda n: n * (n - 1) + 2 * n * (k1 + k2 + 1 - 2 * aw) - (2 * aw * (2 * k1 + s + 1) - (k1 + k2) * (k1 + k2 + 1)) - (aw**2 + s * (s + 1) + A)
            ga = lambda n: 2 * aw * (n + k1 + k2 + s)
            r = mp.mpf(0)
            for n in range(40, 0, -1):
                r = al(n - 1) * ga(n) / (be(n) - r)
            return be(0) - r

        def rad(w, A):
            b = mp.sqrt(1 - 4 * a**2)
            i = mp.mpc(0, 1)
            c0 = 1 - s - i * w - 2 * i / b * (w / 2 - a * m)
            c1 = -4 + 2 * i * w * (2 + b) + 4 * i / b * (w / 2 - a * m)
            c2 = s + 3 - 3 * i * w - 2 * i / b * (w / 2 - a * m)
            c3 = w**2 * (4 + 2 * b - a**2) - 2 * a * m * w - s - 1 + (2 + b) * i * w - A + (4 * w + 2 * i) / b * (w / 2 - a * m)
            c4 = s + 1 - 2 * w**2 - (2 * s + 3) * i * w - (4 * w + 2 * i) / b * (w / 2 - a * m)
            al = lambda n: n * n + (c0 + 1) * n + c0
            be = lambda n: -2 * n * n + (c1 + 2) * n + c3
            ga = lambda n: n * n + (c2 - 3) * n + c4 - c2 + 2
            r = mp.mpf(-1)
            for n in range(400, 0, -1):
                r = al(n - 1) * ga(n) / (be(n) - r)
            return be(0) - r
        A0 = l * (l + 1) - s * (s + 1)
        w0 = 2 * mp.mpc(guess)

        def F(w):
            A = mp.findroot(lambda x: ang(x, w), mp.mpc(A0))
            return rad(w, A)
        return complex(mp.findroot(F, (w0, w0 * mp.mpf("1.0001"), w0 * mp.mpc("1", "0.0001")), solver="muller", tol=1e-18)) / 2
    finally:
        mp.mp.dps = old
