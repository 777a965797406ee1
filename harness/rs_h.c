/* Record-driven driver of the Riemann solver, variable conversions, wave speeds and eigensystems.
 * Usage: rs_h MODE IN OUT. IN: int64 n, then n records of doubles; OUT: n records of doubles, flushed record by record in order.
 *   flux: [gas, Bx, Wl, Wr, Ul, Ur] -> F               (Prim1D/Cons1D order, scalars last; + Pflux in cylindrical builds)
 *   conv: [gas, Bx, W]   -> P2C1D | C2P1D(U) | P2C 3D | C2P 3D | cfast(U) cfast_prim(W) | check_Prim1D(U), check_Prim(U) in SR MHD
 *   roe:  [gas, d, v1, v2, v3, h, b1, b2, b3, x, y] -> ev | R | L | ev with NULL matrices
 *   prim: [gas, d, v1, p, b1, b2, b3] -> ev | R | L
 * gas = adiabatic index or isothermal sound speed. Nothing is computed here except by the code under test. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
#include "rsolvers/prototypes.h"
#include "reconstruction/prototypes.h"

#define N1 (NWAVE+NSCALARS)
static void gas(double g)
{
#ifdef ISOTHERMAL
  Iso_csound = g; Iso_csound2 = g*g;
#else
  Gamma = g; Gamma_1 = g-1.0; Gamma_2 = g-2.0;
#endif
}
static void w1(Prim1DS *W, const double *p)
{
  int n;
  memset(W,0,sizeof *W);
  W->d = *p++; W->Vx = *p++; W->Vy = *p++; W->Vz = *p++;
#ifndef BAROTROPIC
  W->P = *p++;
#endif
#ifdef MHD
  W->By = *p++; W->Bz = *p++;
#endif
#if (NSCALARS > 0)
  for (n=0; n<NSCALARS; n++) W->r[n] = *p++;
#endif
}
static void u1(Cons1DS *U, const double *p)
{
  int n;
  memset(U,0,sizeof *U);
  U->d = *p++; U->Mx = *p++; U->My = *p++; U->Mz = *p++;
#ifndef BAROTROPIC
  U->E = *p++;
#endif
#ifdef MHD
  U->By = *p++; U->Bz = *p++;
#endif
#if (NSCALARS > 0)
  for (n=0; n<NSCALARS; n++) U->s[n] = *p++;
#endif
}
static int pu1(const Cons1DS *U, double *p)
{
  int n; double *q = p;
  *p++ = U->d; *p++ = U->Mx; *p++ = U->My; *p++ = U->Mz;
#ifndef BAROTROPIC
  *p++ = U->E;
#endif
#ifdef MHD
  *p++ = U->By; *p++ = U->Bz;
#endif
#if (NSCALARS > 0)
  for (n=0; n<NSCALARS; n++) *p++ = U->s[n];
#endif
  return p-q;
}
static int pw1(const Prim1DS *W, double *p)
{
  int n; double *q = p;
  *p++ = W->d; *p++ = W->Vx; *p++ = W->Vy; *p++ = W->Vz;
#ifndef BAROTROPIC
  *p++ = W->P;
#endif
#ifdef MHD
  *p++ = W->By; *p++ = W->Bz;
#endif
#if (NSCALARS > 0)
  for (n=0; n<NSCALARS; n++) *p++ = W->r[n];
#endif
  return p-q;
}

int main(int argc, char *argv[])
{
  FILE *in = fopen(argv[2],"rb"), *out = fopen(argv[3],"wb");
  int64_t n, k;
  double a[64], o[256];
  const char *m = argv[1];
  if (!in || !out || fread(&n,8,1,in) != 1) return 3;
  ath_log_set_level(-1,-1);
  etah = 0.0;
  for (k=0; k<n; k++) {
    int no = 0, i;
    memset(o,0,sizeof o);
    if (!strcmp(m,"flux")) {
      Cons1DS Ul,Ur,F; Prim1DS Wl,Wr;
      Real Bx;
      double *f = (double*)&F;
      if (fread(a,8,2+4*N1,in) != 2+4*N1) return 4;
      gas(a[0]); Bx = a[1];
      w1(&Wl,a+2); w1(&Wr,a+2+N1); u1(&Ul,a+2+2*N1); u1(&Ur,a+2+3*N1);
      for (i=0; i<(int)(sizeof F/sizeof(double)); i++) f[i] = NAN;     /* a component that is never set stays NaN */
      fluxes(Ul,Ur,Wl,Wr,Bx,&F);
      no = pu1(&F,o);
#ifdef CYLINDRICAL
      o[no++] = F.Pflux;
#endif
    } else if (!strcmp(m,"conv")) {
      Prim1DS W, W2; Cons1DS U; PrimS W3, W4; ConsS U3;
      Real Bx;
      if (fread(a,8,2+N1,in) != 2+N1) return 4;
      gas(a[0]); Bx = a[1]; w1(&W,a+2);
      U = Prim1D_to_Cons1D(&W,&Bx);
      no += pu1(&U,o+no);
      W2 = Cons1D_to_Prim1D(&U,&Bx);
      no += pw1(&W2,o+no);
      memset(&W3,0,sizeof W3);
      W3.d = W.d; W3.V1 = W.Vx; W3.V2 = W.Vy; W3.V3 = W.Vz;
#ifndef BAROTROPIC
      W3.P = W.P;
#endif
#ifdef MHD
      W3.B1c = Bx; W3.B2c = W.By; W3.B3c = W.Bz;
#endif
#if (NSCALARS > 0)
      for (i=0; i<NSCALARS; i++) W3.r[i] = W.r[i];
#endif
      U3 = Prim_to_Cons(&W3);
      memcpy(o+no,&U3,sizeof U3); no += sizeof U3/8;
      W4 = Cons_to_Prim(&U3);
      memcpy(o+no,&W4,sizeof W4); no += sizeof W4/8;
#ifndef SPECIAL_RELATIVITY
      o[no++] = cfast(&U,&Bx); o[no++] = cfast_prim(&W,&Bx);
#elif defined(MHD)
      W2 = check_Prim1D(&U,&Bx); no += pw1(&W2,o+no);
      W4 = check_Prim(&U3); memcpy(o+no,&W4,sizeof W4); no += sizeof W4/8;
#endif
    } else {
      Real ev[NWAVE], R[NWAVE][NWAVE], L[NWAVE][NWAVE], e2[NWAVE];
      int j;
      for (i=0; i<NWAVE; i++) for (j=0; j<NWAVE; j++) R[i][j] = L[i][j] = 0.0;
      for (i=0; i<NWAVE; i++) ev[i] = e2[i] = NAN;
#ifndef SPECIAL_RELATIVITY
      if (!strcmp(m,"roe")) {
        if (fread(a,8,11,in) != 11) return 4;
        gas(a[0]);
#if defined(HYDRO) && defined(ISOTHERMAL)
        esys_roe_iso_hyd(a[2],a[3],a[4],ev,R,L); esys_roe_iso_hyd(a[2],a[3],a[4],e2,NULL,NULL);
#elif defined(HYDRO)
        esys_roe_adb_hyd(a[2],a[3],a[4],a[5],ev,R,L); esys_roe_adb_hyd(a[2],a[3],a[4],a[5],e2,NULL,NULL);
#elif defined(ISOTHERMAL)
        esys_roe_iso_mhd(a[1],a[2],a[3],a[4],a[6],a[7],a[8],a[9],a[10],ev,R,L);
        esys_roe_iso_mhd(a[1],a[2],a[3],a[4],a[6],a[7],a[8],a[9],a[10],e2,NULL,NULL);
#else
        esys_roe_adb_mhd(a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],ev,R,L);
        esys_roe_adb_mhd(a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],e2,NULL,NULL);
#endif
      } else {
        if (fread(a,8,7,in) != 7) return 4;
        gas(a[0]);
#if defined(HYDRO) && defined(ISOTHERMAL)
        esys_prim_iso_hyd(a[1],a[2],ev,R,L);
#elif defined(HYDRO)
        esys_prim_adb_hyd(a[1],a[2],a[0]*a[3],ev,R,L);
#elif defined(ISOTHERMAL)
        esys_prim_iso_mhd(a[1],a[2],a[4],a[5],a[6],ev,R,L);
#else
        esys_prim_adb_mhd(a[1],a[2],a[0]*a[3],a[4],a[5],a[6],ev,R,L);
#endif
        memcpy(e2,ev,sizeof ev);
      }
#endif
      for (i=0; i<NWAVE; i++) o[no++] = ev[i];
      for (i=0; i<NWAVE; i++) for (j=0; j<NWAVE; j++) o[no++] = R[i][j];
      for (i=0; i<NWAVE; i++) for (j=0; j<NWAVE; j++) o[no++] = L[i][j];
      for (i=0; i<NWAVE; i++) o[no++] = e2[i];
    }
    fwrite(o,8,no,out);
  }
  fclose(out);
  return 0;
}
