/* vpgen.c - workload loader and runtime monitor used by the checks in /verif.
 *
 * problem() loads an arbitrary initial state (written by lib/ath.py) from problem/init_file, Userwork_in_loop()
 * observes the state after every step and appends a line per Grid to mon.<rank>.txt, and the final (optionally every
 * n-th) state is dumped raw.  Only the documented problem-generator interface and public structures are used.
 *
 * File format (init file and dumps), native doubles/int64:
 *   repeat: int64 hdr[16] = {MAGIC, level, dom, n1,n2,n3, disp1,disp2,disp3, ncell vars, mhd, ghost, nstep, 0,0,0}
 *           double x[8]   = {time, dt, min1,min2,min3, dx1,dx2,dx3}
 *           U[n3][n2][n1][nv], then if mhd B1i[n3][n2][n1+1], B2i[n3][n2+a2][n1], B3i[n3+a3][n2][n1]
 *           (a2=1 if n2>1, ...; in ghost dumps all face arrays have the cell shape)
 *   cell vars: d,M1,M2,M3,[E],[B1c,B2c,B3c],[s...],[Phi (dumps only)]
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#ifdef PARTICLES
#include "particles/particle.h"
#endif

#define MAGIC 0x56504731
static double gA[3], gK[3], gP[3], rmin[3], rlen[3];  /* static potential: sum A cos(2 pi K x/L + P) */
static int have_grav = 0, grav_lin = 0;
static double coolc = 0.0, coolT = 0.0;
static int64_t user_count = 0;
static double user_blob[7];
static int noinit_done = 0;

#ifdef BAROTROPIC
#define HAVE_E 0
#else
#define HAVE_E 1
#endif
#ifdef MHD
#define HAVE_B 1
#else
#define HAVE_B 0
#endif
#ifdef SELF_GRAVITY
#define HAVE_PHI 1
#else
#define HAVE_PHI 0
#endif
#define NV (4 + HAVE_E + 3*HAVE_B + NSCALARS)

static double potential(double x1, double x2, double x3)
{
  double x[3] = {x1,x2,x3}, s = 0.0;
  int a;
  for (a=0; a<3; a++) {
    if (grav_lin) s += gA[a]*x[a];
    else s += gA[a]*cos(2.0*PI*gK[a]*(x[a]-rmin[a])/rlen[a] + gP[a]);
  }
  return s;
}
static Real vp_pot(const Real x1, const Real x2, const Real x3) { return (Real)potential(x1,x2,x3); }

#ifdef SHEARING_BOX
static Real vp_shpot(const Real x1, const Real x2, const Real x3)
{
  Real phi = 0.0;
#ifndef FARGO
  phi -= qshear*Omega_0*Omega_0*x1*x1;
#endif
  return phi;
}
#endif

#ifndef BAROTROPIC
static Real vp_cool(const Real d, const Real P, const Real dt)
{ /* linear relaxation of pressure towards d*coolT: dE/dt = -rate */
  return (Real)(coolc*(P - d*coolT)/Gamma_1);
}
#endif

#ifdef CYLINDRICAL
#ifdef FARGO
static Real vp_orb(const Real R) { double n = par_getd_def("problem","orb_n",0.0); return (Real)(par_getd_def("problem","orb_om",0.0)*pow(R,n)); }
static Real vp_shear(const Real R) { return (Real)(-par_getd_def("problem","orb_n",0.0)); }
#endif
#endif

#if defined(CYLINDRICAL) && defined(FARGO)
Real csxb(void) { return (Real)par_getd_def("problem","csxb",1.0); }
#endif

/* recognisable fills of one face: momenta = 0, density optionally a function of time */
static double userbc_rate = 0.0;
static void user_fill(GridS *pG, int axis, int side, double d0, double e0)
{
  int i,j,k,n;
  int lo[3], hi[3], s[3], e[3], q[3];
  s[0]=pG->is; e[0]=pG->ie; s[1]=pG->js; e[1]=pG->je; s[2]=pG->ks; e[2]=pG->ke;
  for (n=0; n<3; n++) {
    lo[n] = s[n]; hi[n] = e[n];
    if (n < axis && pG->Nx[n] > 1) { lo[n] -= nghost; hi[n] += nghost; }
  }
  if (side == 0) { hi[axis] = s[axis]-1; lo[axis] = s[axis]-nghost; } else { lo[axis] = e[axis]+1; hi[axis] = e[axis]+nghost; }
  for (k=lo[2];k<=hi[2];k++) for (j=lo[1];j<=hi[1];j++) for (i=lo[0];i<=hi[0];i++) {
    ConsS *u = &pG->U[k][j][i];
    memset(u,0,sizeof(ConsS)); u->d = (Real)(d0 + userbc_rate*pG->time);
#ifndef BAROTROPIC
    u->E = (Real)e0;
#endif
  }
}
static void user_bc_ix1(GridS *pG) { user_fill(pG,0,0,7.0,11.0); }
static void user_bc_ox1(GridS *pG) { user_fill(pG,0,1,19.0,23.0); }
static void user_bc_ix2(GridS *pG) { user_fill(pG,1,0,29.0,31.0); }
static void user_bc_ox2(GridS *pG) { user_fill(pG,1,1,13.0,17.0); }
static void user_bc_ix3(GridS *pG) { user_fill(pG,2,0,37.0,41.0); }
static void user_bc_ox3(GridS *pG) { user_fill(pG,2,1,43.0,47.0); }

static void setup_physics(DomainS *pD)
{
  int a;
  char nm[32];
  for (a=0; a<3; a++) {
    rmin[a] = pD->RootMinX[a]; rlen[a] = pD->RootMaxX[a]-pD->RootMinX[a];
    sprintf(nm,"grav_a%d",a+1); gA[a] = par_getd_def("problem",nm,0.0);
    sprintf(nm,"grav_k%d",a+1); gK[a] = par_getd_def("problem",nm,1.0);
    sprintf(nm,"grav_p%d",a+1); gP[a] = par_getd_def("problem",nm,0.0);
  }
  have_grav = par_geti_def("problem","grav",0);
  grav_lin = (have_grav == 2);
  if (have_grav) StaticGravPot = vp_pot;
#ifndef BAROTROPIC
  coolc = par_getd_def("problem","cool_rate",0.0);
  coolT = par_getd_def("problem","cool_T",1.0);
  if (par_geti_def("problem","cool",0)) CoolingFunc = vp_cool;
#endif
#ifdef SHEARING_BOX
  Omega_0 = par_getd_def("problem","omega",1.0);
  qshear  = par_getd_def("problem","qshear",1.5);
  ShearingBoxPot = vp_shpot;
  if (pD->Nx[2] == 1) ShBoxCoord = par_geti_def("problem","xz",0) ? xz : xy;
  else ShBoxCoord = xy;
#endif
#ifdef ROTATING_FRAME
  Omega_0 = par_getd_def("problem","omega",1.0);
#endif
#ifdef SELF_GRAVITY
  four_pi_G = par_getd_def("problem","four_pi_G",1.0);
  grav_mean_rho = par_getd_def("problem","mean_rho",1.0);
#endif
#ifdef THERMAL_CONDUCTION
  kappa_iso = par_getd_def("problem","kappa_iso",0.0);
  kappa_aniso = par_getd_def("problem","kappa_aniso",0.0);
#endif
#ifdef RESISTIVITY
  eta_Ohm = par_getd_def("problem","eta_O",0.0);
  Q_Hall = par_getd_def("problem","Q_H",0.0);
  Q_AD = par_getd_def("problem","Q_A",0.0);
  d_ind = par_getd_def("problem","d_ind",0.0);
#endif
#ifdef VISCOSITY
  nu_iso = par_getd_def("problem","nu_iso",0.0);
  nu_aniso = par_getd_def("problem","nu_aniso",0.0);
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
  OrbitalProfile = vp_orb;
  ShearProfile = vp_shear;
#endif
#ifdef OPERATOR_SPLIT_COOLING
  if (pD->Grid != NULL) {
    ConstS consts;
    init_consts(&consts);
    pD->Grid->units.Dcode = 1.4*consts.mH;
    pD->Grid->units.Vcode = consts.kms;
    pD->Grid->units.Lcode = consts.pc;
    pD->Grid->units.Tcode = pD->Grid->units.Lcode/pD->Grid->units.Vcode;
    pD->Grid->heat0 = par_getd_def("problem","heat0",2.e-26);
    pD->Grid->heat_ratio = par_getd_def("problem","heat_ratio",1.0);
  }
#endif
  a = par_geti_def("problem","userbc",0);
  if (a & 1) bvals_mhd_fun(pD, left_x1, user_bc_ix1);
  if (a & 2) bvals_mhd_fun(pD, right_x2, user_bc_ox2);
  if (a & 4) bvals_mhd_fun(pD, right_x1, user_bc_ox1);
  if (a & 8) bvals_mhd_fun(pD, left_x2, user_bc_ix2);
  if (a & 16) bvals_mhd_fun(pD, left_x3, user_bc_ix3);
  if (a & 32) bvals_mhd_fun(pD, right_x3, user_bc_ox3);
  userbc_rate = par_getd_def("problem","userbc_rate",0.0);
#ifdef PARTICLES
  if (pD->Level == 0) {
    for (a=0; a<npartypes; a++) {
      sprintf(nm,"tstop%d",a); tstop0[a] = par_getd_def("problem",nm,1.0);
      sprintf(nm,"grrhoa%d",a); grrhoa[a] = par_getd_def("problem",nm,0.0);
      sprintf(nm,"prad%d",a); grproperty[a].rad = par_getd_def("problem",nm,0.0);
#ifdef FEEDBACK
      sprintf(nm,"pmass%d",a); grproperty[a].m = par_getd_def("problem",nm,1.0);
#endif
    }
    alamcoeff = par_getd_def("problem","alamcoeff",0.0);
  }
#endif
}

static void rd(void *p, size_t n, FILE *f) { if (fread(p,1,n,f) != n) ath_error("[vpgen]: short init file\n"); }

static void *xm(size_t n) { void *p = malloc(n ? n : 1); if (p == NULL) ath_error("[vpgen]: malloc\n"); return p; }

static void set_cell(ConsS *u, const double *v)
{
  int n = 0;
#if (NSCALARS > 0)
  int m;
#endif
  u->d = v[n++]; u->M1 = v[n++]; u->M2 = v[n++]; u->M3 = v[n++];
#ifndef BAROTROPIC
  u->E = v[n++];
#endif
#ifdef MHD
  u->B1c = v[n++]; u->B2c = v[n++]; u->B3c = v[n++];
#endif
#if (NSCALARS > 0)
  for (m=0; m<NSCALARS; m++) u->s[m] = v[n++];
#endif
}
static int get_cell(const ConsS *u, double *v)
{
  int n = 0;
#if (NSCALARS > 0)
  int m;
#endif
  v[n++] = u->d; v[n++] = u->M1; v[n++] = u->M2; v[n++] = u->M3;
#ifndef BAROTROPIC
  v[n++] = u->E;
#endif
#ifdef MHD
  v[n++] = u->B1c; v[n++] = u->B2c; v[n++] = u->B3c;
#endif
#if (NSCALARS > 0)
  for (m=0; m<NSCALARS; m++) v[n++] = u->s[m];
#endif
  return n;
}

static void load(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int64_t h[16];
  double x[8];
  int found = 0, i,j,k, o[3], a;
  FILE *f = fopen(par_gets("problem","init_file"),"rb");
  if (f == NULL) ath_error("[vpgen]: cannot open init file\n");
  while (!found && fread(h,sizeof(h),1,f) == 1) {
    size_t nc, nb = 0, nf[3] = {0,0,0};
    double *buf;
    if (h[0] != MAGIC || h[9] != NV || h[10] != HAVE_B) ath_error("[vpgen]: init file does not fit this build\n");
    rd(x,sizeof(x),f);
    nc = (size_t)(h[3]*h[4]*h[5]);
    if (HAVE_B) {
      nf[0] = (size_t)((h[3]+1)*h[4]*h[5]);
      nf[1] = (size_t)(h[3]*(h[4]+(h[4]>1))*h[5]);
      nf[2] = (size_t)(h[3]*h[4]*(h[5]+(h[5]>1)));
    }
    nb = nf[0]+nf[1]+nf[2];
    buf = (double*)xm((nc*NV+nb)*sizeof(double));
    rd(buf,(nc*NV+nb)*sizeof(double),f);
    if (h[1] == pD->Level && h[2] == pD->DomNumber) {
      found = 1;
      for (a=0; a<3; a++) {
        if (h[3+a] != pD->Nx[a]) ath_error("[vpgen]: init file shape mismatch\n");
        o[a] = pG->Disp[a] - pD->Disp[a];
      }
      for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<pG->Nx[0]; i++)
        set_cell(&pG->U[k+pG->ks][j+pG->js][i+pG->is], buf + ((((size_t)(k+o[2])*h[4]+(j+o[1]))*h[3]+(i+o[0]))*NV));
#ifdef MHD
      {
        double *b1 = buf + nc*NV, *b2 = b1 + nf[0], *b3 = b2 + nf[1];
        int e2 = pG->Nx[1]>1, e3 = pG->Nx[2]>1;
        for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<=pG->Nx[0]; i++)
          pG->B1i[k+pG->ks][j+pG->js][i+pG->is] = b1[((size_t)(k+o[2])*h[4]+(j+o[1]))*(h[3]+1)+(i+o[0])];
        for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]+e2; j++) for (i=0; i<pG->Nx[0]; i++)
          pG->B2i[k+pG->ks][j+pG->js][i+pG->is] = b2[((size_t)(k+o[2])*(h[4]+(h[4]>1))+(j+o[1]))*h[3]+(i+o[0])];
        for (k=0; k<pG->Nx[2]+e3; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<pG->Nx[0]; i++)
          pG->B3i[k+pG->ks][j+pG->js][i+pG->is] = b3[((size_t)(k+o[2])*h[4]+(j+o[1]))*h[3]+(i+o[0])];
      }
#endif
    }
    free(buf);
  }
  fclose(f);
  if (!found) ath_error("[vpgen]: no initial data for level %d domain %d\n",pD->Level,pD->DomNumber);
}

#ifdef PARTICLES
/* particle file: int64 n; then per particle int64 id, int64 type, double x[3], v[3]; only those inside this Grid are kept */
static void load_particles(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int64_t n, q[2], c;
  double x[6];
  int a, in, nt;
  FILE *f;
  if (pD->Level != 0) return;
  pG->nparticle = 0;
  for (nt=0; nt<npartypes; nt++) grproperty[nt].num = 0;
  if (!par_exist("problem","part_file")) return;
  f = fopen(par_gets("problem","part_file"),"rb");
  if (f == NULL) ath_error("[vpgen]: cannot open particle file\n");
  rd(&n,sizeof(n),f);
  for (c=0; c<n; c++) {
    rd(q,sizeof(q),f); rd(x,sizeof(x),f);
    in = 1;
    for (a=0; a<3; a++) if (pG->Nx[a] > 1 && !(x[a] >= pG->MinX[a] && x[a] < pG->MaxX[a])) in = 0;
    if (in) {
      GrainS *g;
      if (pG->nparticle+2 > pG->arrsize) particle_realloc(pG, pG->nparticle+2);
      g = &pG->particle[pG->nparticle++];
      g->x1 = x[0]; g->x2 = x[1]; g->x3 = x[2]; g->v1 = x[3]; g->v2 = x[4]; g->v3 = x[5];
      g->property = (int)q[1]; g->my_id = (long)q[0]; g->pos = 1;
#ifdef MPI_PARALLEL
      g->init_id = myID_Comm_world;
#endif
      grproperty[g->property].num++;
    }
  }
  fclose(f);
}
static void ledger(MeshS *pM, const char *tag, int append)
{
  GridS *pG = pM->Domain[0][0].Grid;
  char fn[80];
  int64_t h[4];
  long p;
  FILE *f;
  sprintf(fn,"part.%s.%d.bin",tag,myID_Comm_world);
  f = fopen(fn,append ? "ab" : "wb");
  if (f == NULL) ath_error("[vpgen]: ledger\n");
  h[0] = MAGIC; h[1] = pM->nstep; h[2] = 0; h[3] = myID_Comm_world;
  for (p=0; p<pG->nparticle; p++) h[2]++;
  fwrite(h,sizeof(h),1,f);
  for (p=0; p<pG->nparticle; p++) {
    GrainS *g = &pG->particle[p];
    double x[6] = {g->x1,g->x2,g->x3,g->v1,g->v2,g->v3};
    int64_t q[4] = {g->my_id, g->property, g->pos, 0};
#ifdef MPI_PARALLEL
    q[3] = g->init_id;
#endif
    fwrite(q,sizeof(q),1,f); fwrite(x,sizeof(x),1,f);
  }
  fclose(f);
}
#endif

/* is cell (i,j,k) covered by a child Grid? */
static int covered(GridS *pG, int i, int j, int k)
{
#ifdef STATIC_MESH_REFINEMENT
  int n;
  for (n=0; n<pG->NCGrid; n++) {
    GridOvrlpS *c = &pG->CGrid[n];
    if (i>=c->ijks[0] && i<=c->ijke[0] && (pG->Nx[1]==1 || (j>=c->ijks[1] && j<=c->ijke[1]))
        && (pG->Nx[2]==1 || (k>=c->ijks[2] && k<=c->ijke[2]))) return 1;
  }
#endif
  return 0;
}

static void monitor_grid(FILE *f, MeshS *pM, DomainS *pD, const char *ev, double t, int step)
{
  GridS *pG = pD->Grid;
  int i,j,k,n,nnan=0, ncov=0;
  double v[NV+1], vol0 = 1.0, vol, mind=1e300, minP=1e300, maxdiv=0.0, maxcc=0.0, maxB=0.0, maxBall=0.0, dtl=1e300;
  long double s[NV+2], as[NV+2], volsum=0.0;
  double dx[3] = {pG->dx1,pG->dx2,pG->dx3};
  for (n=0; n<NV+2; n++) s[n] = as[n] = 0.0;
  for (n=0; n<3; n++) if (pG->Nx[n] > 1) vol0 *= dx[n];
  for (k=pG->ks; k<=pG->ke; k++) for (j=pG->js; j<=pG->je; j++) for (i=pG->is; i<=pG->ie; i++) {
    double x1 = pG->MinX[0]+(i-pG->is+0.5)*dx[0], x2 = pG->MinX[1]+(j-pG->js+0.5)*dx[1], x3 = pG->MinX[2]+(k-pG->ks+0.5)*dx[2];
    double P = 1.0, bsq = 0.0;
    ConsS *u = &pG->U[k][j][i];
    get_cell(u,v);
    vol = vol0;
#ifdef CYLINDRICAL
    vol *= x1;
    v[2] *= x1;  /* angular momentum */
#endif
    for (n=0; n<NV; n++) if (!isfinite(v[n])) nnan++;
    v[NV] = have_grav ? v[0]*potential(x1,x2,x3) : 0.0;
    if (covered(pG,i,j,k)) ncov++;
    else {
      volsum += vol;
      for (n=0; n<=NV; n++) { s[n] += (long double)v[n]*vol; as[n] += fabsl((long double)v[n]*vol); }
    }
#ifdef MHD
    {
      double b1l=pG->B1i[k][j][i], b1r=pG->B1i[k][j][i+1], b2l=pG->B2i[k][j][i], b2r=b2l, b3l=pG->B3i[k][j][i], b3r=b3l, div, sc, m;
      double lsf=1.0, rsf=1.0, dy=dx[1];
#ifdef CYLINDRICAL
      lsf = (x1-0.5*dx[0])/x1; rsf = (x1+0.5*dx[0])/x1; dy *= x1;
#endif
      if (pG->Nx[1] > 1) b2r = pG->B2i[k][j+1][i];
      if (pG->Nx[2] > 1) b3r = pG->B3i[k+1][j][i];
      div = (rsf*b1r-lsf*b1l)/dx[0];
      sc = (fabs(b1r)+fabs(b1l))/dx[0];
      if (pG->Nx[1] > 1) { div += (b2r-b2l)/dy; sc += (fabs(b2r)+fabs(b2l))/dy; }
      if (pG->Nx[2] > 1) { div += (b3r-b3l)/dx[2]; sc += (fabs(b3r)+fabs(b3l))/dx[2]; }
      if (!isfinite(div)) nnan++;
      if (fabs(div) > maxdiv) maxdiv = fabs(div);
      if (sc > maxB) maxB = sc;
      m = fabs(u->B1c - 0.5*(lsf*b1l+rsf*b1r)); if (m > maxcc) maxcc = m;
      m = fabs(u->B2c - 0.5*(b2l+b2r)); if (m > maxcc) maxcc = m;
      m = fabs(u->B3c - 0.5*(b3l+b3r)); if (m > maxcc) maxcc = m;
      bsq = u->B1c*u->B1c+u->B2c*u->B2c+u->B3c*u->B3c;
      if (sqrt(bsq) > maxBall) maxBall = sqrt(bsq);
    }
#endif
    if (u->d < mind) mind = u->d;
#if !defined(BAROTROPIC) && !defined(SPECIAL_RELATIVITY)
    P = Gamma_1*(u->E - 0.5*(u->M1*u->M1+u->M2*u->M2+u->M3*u->M3)/u->d - 0.5*bsq);
    if (P < minP) minP = P;
#endif
#ifndef SPECIAL_RELATIVITY
    { /* signal-crossing time from cell-centred state (independent formula) */
      double M[3] = {u->M1,u->M2,u->M3}, B[3] = {0,0,0}, asq, cf2;
      int a;
#ifdef MHD
      B[0]=u->B1c; B[1]=u->B2c; B[2]=u->B3c;
#endif
#ifdef ISOTHERMAL
      asq = Iso_csound2;
#else
      asq = Gamma*(P>0?P:0)/u->d;
#endif
      for (a=0; a<3; a++) if (pG->Nx[a] > 1) {
        double bb = bsq/u->d + asq, va = M[a]/u->d, w, len = dx[a];
        double disc = bb*bb - 4.0*asq*B[a]*B[a]/u->d;
        cf2 = 0.5*(bb + sqrt(disc > 0 ? disc : 0));
#ifdef CYLINDRICAL
        if (a == 1) len *= x1;
#endif
#if defined(CYLINDRICAL) && defined(FARGO)
        if (a == 1) va -= 0.0; /* stored velocity already excludes the orbital part */
#endif
        w = len/(fabs(va)+sqrt(cf2));
        if (w < dtl) dtl = w;
      }
    }
#endif
  }
  fprintf(f,"%s %d %.17g %.17g %d %d %d %.21Lg",ev,step,t,(double)pM->dt,pD->Level,pD->DomNumber,ncov,volsum);
  for (n=0; n<=NV; n++) fprintf(f," %.21Lg",s[n]);
  for (n=0; n<=NV; n++) fprintf(f," %.21Lg",as[n]);
  fprintf(f," %.17g %.17g %.17g %.17g %.17g %.17g %d %.17g\n",mind,minP,maxdiv,maxB,maxcc,maxBall,nnan,dtl);
}

static void monitor(MeshS *pM, const char *ev, double t, int step)
{
  char fn[64];
  int nl,nd;
  FILE *f;
  sprintf(fn,"mon.%d.txt",myID_Comm_world);
  f = fopen(fn,"a");
  if (f == NULL) ath_error("[vpgen]: monitor file\n");
  for (nl=0; nl<pM->NLevels; nl++) for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++)
    if (pM->Domain[nl][nd].Grid != NULL) monitor_grid(f,pM,&pM->Domain[nl][nd],ev,t,step);
  fclose(f);
}

static void dump(MeshS *pM, const char *tag, int ghost)
{
  char fn[96];
  int nl,nd,i,j,k;
  FILE *f;
  sprintf(fn,"dump.%s.%d.bin",tag,myID_Comm_world);
  f = fopen(fn,"wb");
  if (f == NULL) ath_error("[vpgen]: dump file\n");
  for (nl=0; nl<pM->NLevels; nl++) for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++) {
    DomainS *pD = &pM->Domain[nl][nd];
    GridS *pG = pD->Grid;
    int g[3], il,iu,jl,ju,kl,ku,a;
    int64_t h[16];
    double x[8], v[NV+1];
    if (pG == NULL) continue;
    for (a=0; a<3; a++) g[a] = (ghost && pG->Nx[a]>1) ? nghost : 0;
    il = pG->is-g[0]; iu = pG->ie+g[0]; jl = pG->js-g[1]; ju = pG->je+g[1]; kl = pG->ks-g[2]; ku = pG->ke+g[2];
    memset(h,0,sizeof(h));
    h[0]=MAGIC; h[1]=nl; h[2]=nd; h[3]=iu-il+1; h[4]=ju-jl+1; h[5]=ku-kl+1;
    for (a=0; a<3; a++) h[6+a]=pG->Disp[a];
    h[9]=NV+HAVE_PHI; h[10]=HAVE_B; h[11]=ghost ? nghost : 0; h[12]=pM->nstep;
    x[0]=pM->time; x[1]=pM->dt; for (a=0; a<3; a++) x[2+a]=pG->MinX[a];
    x[5]=pG->dx1; x[6]=pG->dx2; x[7]=pG->dx3;
    fwrite(h,sizeof(h),1,f); fwrite(x,sizeof(x),1,f);
    for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++) {
      int n = get_cell(&pG->U[k][j][i],v);
#ifdef SELF_GRAVITY
      v[n++] = pG->Phi[k][j][i];
#endif
      fwrite(v,sizeof(double),n,f);
    }
#ifdef MHD
    {
      int e1 = !ghost, e2 = (!ghost && pG->Nx[1]>1), e3 = (!ghost && pG->Nx[2]>1);
      double b;
      for (k=kl;k<=ku;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu+e1;i++) { b = pG->B1i[k][j][i]; fwrite(&b,8,1,f); }
      for (k=kl;k<=ku;k++) for (j=jl;j<=ju+e2;j++) for (i=il;i<=iu;i++) { b = pG->B2i[k][j][i]; fwrite(&b,8,1,f); }
      for (k=kl;k<=ku+e3;k++) for (j=jl;j<=ju;j++) for (i=il;i<=iu;i++) { b = pG->B3i[k][j][i]; fwrite(&b,8,1,f); }
    }
#endif
  }
  fclose(f);
}

/* ---------------------------------------------------------------------------------------------------------------- */
static Real hst_probe(const GridS *pG, const int i, const int j, const int k)
{ return pG->U[k][j][i].d*pG->U[k][j][i].d + 0.25*pG->U[k][j][i].M1; }

void problem(DomainS *pD)
{
  char fn[64];
  int n;
  FILE *f;
  static int first = 1;
  setup_physics(pD);
  load(pD);
#ifdef PARTICLES
  load_particles(pD);
#endif
  if (first) {
    sprintf(fn,"mon.%d.txt",myID_Comm_world);
    remove(fn);
    for (n=0; n<7; n++) user_blob[n] = sqrt(2.0+n) * (n%2 ? -1.0 : 1.0);
    user_count = 1000;
    if (par_geti_def("problem","enroll",0)) dump_history_enroll(hst_probe,"<probe>");
    first = 0;
  }
}

void problem_write_restart(MeshS *pM, FILE *fp)
{
  int64_t h[2] = {MAGIC, user_count};
  fwrite(h,sizeof(h),1,fp);
  fwrite(user_blob,sizeof(user_blob),1,fp);
}

void problem_read_restart(MeshS *pM, FILE *fp)
{
  int64_t h[2] = {0,0};
  int n, bad = 0, nl, nd;
  char fn[64];
  FILE *f;
  if (fread(h,sizeof(h),1,fp) != 1 || h[0] != MAGIC) bad = 1;
  if (fread(user_blob,sizeof(user_blob),1,fp) != 1) bad = 2;
  for (n=0; n<7; n++) if (user_blob[n] != sqrt(2.0+n) * (n%2 ? -1.0 : 1.0)) bad = 3;
  user_count = h[1];
  sprintf(fn,"user.%d.txt",myID_Comm_world);
  f = fopen(fn,"a");
  fprintf(f,"%d %ld %d\n",bad,(long)user_count,pM->nstep);
  fclose(f);
  for (nl=0; nl<pM->NLevels; nl++) for (nd=0; nd<pM->DomainsPerLevel[nl]; nd++)
    if (pM->Domain[nl][nd].Grid != NULL || (nl==0 && nd==0)) setup_physics(&pM->Domain[nl][nd]);
  if (par_geti_def("problem","enroll",0)) dump_history_enroll(hst_probe,"<probe>");
}

static Real expr_probe(const GridS *pG, const int i, const int j, const int k)
{ return pG->U[k][j][i].d + 3.0*pG->U[k][j][i].M1 - 2.0*pG->U[k][j][i].M2; }

ConsFun_t get_usr_expr(const char *expr)
{
  if (strcmp(expr,"probe")==0) return expr_probe;
  return NULL;
}

static void usr_out(MeshS *pM, OutputS *pOut)
{
  char fn[96];
  FILE *f;
  sprintf(fn,"usrout.%d.txt",myID_Comm_world);
  f = fopen(fn,"a");
  fprintf(f,"%d %d %.17g %d\n",pOut->n,pOut->num,(double)pM->time,pM->nstep);
  fclose(f);
  /* raw state written at the very moment the outputs of this step are taken */
  if (par_geti_def("problem","usrdump",0)) {
    char tag[64];
    sprintf(tag,"out%05d",pOut->num);
    dump(pM,tag,par_geti_def("problem","usrdump",0)==2);
#ifdef PARTICLES
    ledger(pM,tag,0);
#endif
  }
}

VOutFun_t get_usr_out_fun(const char *name)
{
  if (strcmp(name,"usrout")==0) return usr_out;
  return NULL;
}

#ifdef RESISTIVITY
void get_eta_user(GridS *pG, int i, int j, int k, Real *eta_O, Real *eta_H, Real *eta_A)
{
  *eta_O = eta_Ohm*(1.0 + 0.5*pG->U[k][j][i].d);
  *eta_H = 0.0;
  *eta_A = 0.0;
}
#endif

#ifdef PARTICLES
static int prop_type0(const GrainS *gr, const GrainAux *grsub) { return gr->property == 0; }
PropFun_t get_usr_par_prop(const char *name)
{
  if (strcmp(name,"type0")==0) return prop_type0;
  return NULL;
}
void gasvshift(const Real x1, const Real x2, const Real x3, Real *u1, Real *u2, Real *u3) { return; }
void Userforce_particle(Real3Vect *ft, const Real x1, const Real x2, const Real x3, const Real v1, const Real v2, const Real v3)
{
  ft->x1 += par_getd_def("problem","pforce1",0.0);
  ft->x2 += par_getd_def("problem","pforce2",0.0);
  ft->x3 += par_getd_def("problem","pforce3",0.0);
}
#endif

void Userwork_in_loop(MeshS *pM)
{
  int every = par_geti_def("problem","dumpevery",0);
  int sig = par_geti_def("problem","raise_step",-1);
  double slp = par_getd_def("problem","usleep",0.0);
  char tag[64];
  user_count++;
  if (pM->nstep == 0 && !noinit_done) noinit_done = 1;
  if (par_geti_def("problem","mon",1)) monitor(pM,"step",pM->time+pM->dt,pM->nstep+1);
  if (every > 0 && (pM->nstep+1) % every == 0) {
    sprintf(tag,"s%06d",pM->nstep+1);
    dump(pM,tag,0);
  }
#ifdef PARTICLES
  if (par_geti_def("problem","ledger",0)) ledger(pM,"all",1);
#endif
  if (slp > 0.0) usleep((useconds_t)slp);
  if (par_geti_def("problem","walllog",0)) {
    struct timeval tv;
    FILE *f;
    gettimeofday(&tv,NULL);
    sprintf(tag,"wall.%d.txt",myID_Comm_world);
    if ((f = fopen(tag,"a")) != NULL) { fprintf(f,"%d %.6f\n",pM->nstep+1,tv.tv_sec+1e-6*tv.tv_usec); fclose(f); }
  }
  if (sig == pM->nstep+1) {
    int rk = par_geti_def("problem","raise_rank",-1), n = par_geti_def("problem","raise_times",1);
    int us = par_geti_def("problem","raise_us",0);
    if (rk < 0 || rk == myID_Comm_world) {
      if (us > 0) {   /* asynchronous: the signal arrives us microseconds later, wherever the program is by then */
        struct sigevent se;
        struct itimerspec it;
        timer_t id;
        memset(&se,0,sizeof(se)); memset(&it,0,sizeof(it));
        se.sigev_notify = SIGEV_SIGNAL; se.sigev_signo = par_geti_def("problem","raise_sig",SIGTERM);
        timer_create(CLOCK_MONOTONIC,&se,&id);
        it.it_value.tv_sec = us/1000000; it.it_value.tv_nsec = (us%1000000)*1000L;
        if (n > 1) it.it_interval = it.it_value;
        timer_settime(id,0,&it,NULL);
      } else while (n-- > 0) raise(par_geti_def("problem","raise_sig",SIGTERM));
    }
  }
}

void Userwork_after_loop(MeshS *pM)
{
  monitor(pM,"end",pM->time,pM->nstep);
  dump(pM,"final",0);
  if (par_geti_def("problem","ghostdump",0)) dump(pM,"ghost",1);
#ifdef PARTICLES
  ledger(pM,"final",0);
#endif
}
