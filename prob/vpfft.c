/* Workload and monitor for the Fourier transforms: random complex data (a function of the global index and of the transform number) are
 * transformed through the public interface; every process records its block after each transform. */
#include "copyright.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static double rnd(uint64_t s)
{
  s += 0x9E3779B97F4A7C15ULL; s = (s ^ (s >> 30))*0xBF58476D1CE4E5B9ULL; s = (s ^ (s >> 27))*0x94D049BB133111EBULL; s ^= s >> 31;
  return (double)(s >> 11)/9007199254740992.0 - 0.5;
}

static void put(FILE *f, GridS *pG, DomainS *pD, int64_t what, int64_t n, ath_fft_data *w, int cnt)
{
  int64_t h[12];
  int a;
  memset(h,0,sizeof(h));
  h[0] = 0x5646465400000001LL; h[1] = what; h[2] = n; h[9] = cnt;
  for (a=0; a<3; a++) { h[3+a] = pG->Nx[a]; h[6+a] = pG->Disp[a] - pD->Disp[a]; }
  fwrite(h,sizeof(h),1,f);
  fwrite(w,sizeof(ath_fft_data),cnt,f);
}

void problem(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int i,j,k,n,two = (pG->Nx[2] == 1), cnt, rep = par_geti("problem","reps");
  uint64_t seed = (uint64_t)par_geti("problem","seed");
  struct ath_3d_fft_plan *f3[2] = {NULL,NULL}, *b3[2] = {NULL,NULL};
  struct ath_2d_fft_plan *f2[2] = {NULL,NULL}, *b2[2] = {NULL,NULL};
  ath_fft_data *w;
  char fn[64];
  FILE *f;
  for (k=0; k<=pG->ke+(pG->Nx[2]>1?nghost:0); k++) for (j=0; j<=pG->je+(pG->Nx[1]>1?nghost:0); j++) for (i=0; i<=pG->ie+nghost; i++) {
    memset(&pG->U[k][j][i],0,sizeof(ConsS));
    pG->U[k][j][i].d = 1.0;
#ifndef BAROTROPIC
    pG->U[k][j][i].E = 1.0;
#endif
  }
  sprintf(fn,"fft%d.%d.bin",pD->Level,myID_Comm_world);
  if ((f = fopen(fn,"wb")) == NULL) ath_error("[vpfft]: output\n");
  for (n=0; n<2; n++) {   /* two sets of plans, used in turn */
    if (two) {
      f2[n] = ath_2d_fft_quick_plan(pD,NULL,ATH_FFT_FORWARD); b2[n] = ath_2d_fft_quick_plan(pD,NULL,ATH_FFT_BACKWARD);
    } else {
      f3[n] = ath_3d_fft_quick_plan(pD,NULL,ATH_FFT_FORWARD); b3[n] = ath_3d_fft_quick_plan(pD,NULL,ATH_FFT_BACKWARD);
    }
  }
  w = two ? ath_2d_fft_malloc(f2[0]) : ath_3d_fft_malloc(f3[0]);
  cnt = two ? f2[0]->cnt : f3[0]->cnt;
  if (cnt != pG->Nx[0]*pG->Nx[1]*pG->Nx[2] || (two ? f2[0]->gcnt : f3[0]->gcnt) != pD->Nx[0]*pD->Nx[1]*pD->Nx[2]) ath_error("[vpfft]: counts\n");
  for (n=0; n<rep; n++) {
    for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<pG->Nx[0]; i++) {
      uint64_t g = (uint64_t)((pG->Disp[2]-pD->Disp[2]+k)*pD->Nx[1] + pG->Disp[1]-pD->Disp[1]+j)*pD->Nx[0] + pG->Disp[0]-pD->Disp[0]+i;
      int q = two ? F2DI(i,j,pG->Nx[0],pG->Nx[1]) : F3DI(i,j,k,pG->Nx[0],pG->Nx[1],pG->Nx[2]);
      w[q][0] = rnd(seed*1000003ULL + n*100000007ULL + 2*g); w[q][1] = rnd(seed*1000003ULL + n*100000007ULL + 2*g + 1);
    }
    put(f,pG,pD,0,n,w,cnt);
    if (n%2 == 0) {
      if (two) ath_2d_fft(f2[n%4/2],w); else ath_3d_fft(f3[n%4/2],w);
      put(f,pG,pD,1,n,w,cnt);
      if (two) ath_2d_fft(b2[n%4/2],w); else ath_3d_fft(b3[n%4/2],w);
      put(f,pG,pD,3,n,w,cnt);
    } else {
      if (two) ath_2d_fft(b2[n%4/2],w); else ath_3d_fft(b3[n%4/2],w);
      put(f,pG,pD,2,n,w,cnt);
      if (two) ath_2d_fft(f2[n%4/2],w); else ath_3d_fft(f3[n%4/2],w);
      put(f,pG,pD,3,n,w,cnt);
    }
  }
  /* wavenumbers as the code labels them */
  for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<pG->Nx[0]; i++) {
    int q = two ? F2DI(i,j,pG->Nx[0],pG->Nx[1]) : F3DI(i,j,k,pG->Nx[0],pG->Nx[1],pG->Nx[2]);
    w[q][0] = KCOMP(i,pG->Disp[0]-pD->Disp[0],pD->Nx[0]) + 1000.0*KCOMP(j,pG->Disp[1]-pD->Disp[1],pD->Nx[1]);
    w[q][1] = KCOMP(k,pG->Disp[2]-pD->Disp[2],pD->Nx[2]);
  }
  put(f,pG,pD,4,0,w,cnt);
  for (n=0; n<2; n++) {
    if (two) { ath_2d_fft_destroy_plan(f2[n]); ath_2d_fft_destroy_plan(b2[n]); }
    else { ath_3d_fft_destroy_plan(f3[n]); ath_3d_fft_destroy_plan(b3[n]); }
  }
  if (two) ath_2d_fft_free(w); else ath_3d_fft_free(w);
  fclose(f);
}
void problem_write_restart(MeshS *pM, FILE *fp) { return; }
void problem_read_restart(MeshS *pM, FILE *fp) { return; }
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) { }
void Userwork_after_loop(MeshS *pM) { }
