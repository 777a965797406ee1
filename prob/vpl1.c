/* Workload for the error report: the state and the reference solution are known functions of the global cell index. */
#include "copyright.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static ConsS ***Ref = NULL;

static double rnd(uint64_t s)
{
  s += 0x9E3779B97F4A7C15ULL; s = (s ^ (s >> 30))*0xBF58476D1CE4E5B9ULL; s = (s ^ (s >> 27))*0x94D049BB133111EBULL; s ^= s >> 31;
  return (double)(s >> 11)/9007199254740992.0 - 0.5;
}

static void fill(ConsS *u, uint64_t o)
{
  int n;
  u->d = 1.0 + rnd(o); u->M1 = rnd(o+1); u->M2 = rnd(o+2); u->M3 = rnd(o+3);
#ifndef ISOTHERMAL
  u->E = 10.0 + rnd(o+4);
#endif
#ifdef MHD
  u->B1c = rnd(o+5); u->B2c = rnd(o+6); u->B3c = rnd(o+7);
#endif
#if (NSCALARS > 0)
  for (n=0; n<NSCALARS; n++) u->s[n] = rnd(o+8+n);
#endif
}

void problem(DomainS *pD)
{
  GridS *pG = pD->Grid;
  int i,j,k;
  uint64_t seed = (uint64_t)par_geti("problem","seed");
  Ref = (ConsS***)calloc_3d_array(pG->ke+1+nghost,pG->je+1+nghost,pG->ie+1+nghost,sizeof(ConsS));
  for (k=0; k<=pG->ke+(pG->Nx[2]>1?nghost:0); k++) for (j=0; j<=pG->je+(pG->Nx[1]>1?nghost:0); j++) for (i=0; i<=pG->ie+nghost; i++) {
    memset(&pG->U[k][j][i],0,sizeof(ConsS));
    fill(&pG->U[k][j][i],77); fill(&Ref[k][j][i],99);
  }
  for (k=0; k<pG->Nx[2]; k++) for (j=0; j<pG->Nx[1]; j++) for (i=0; i<pG->Nx[0]; i++) {
    uint64_t g = (uint64_t)((pG->Disp[2]+k)*pD->Nx[1] + pG->Disp[1]+j)*pD->Nx[0] + pG->Disp[0]+i;
    fill(&pG->U[pG->ks+k][pG->js+j][pG->is+i],seed*1000003ULL + 64*g);
    fill(&Ref[pG->ks+k][pG->js+j][pG->is+i],seed*1000003ULL + 64*g + 32);
  }
}
void problem_write_restart(MeshS *pM, FILE *fp) { return; }
void problem_read_restart(MeshS *pM, FILE *fp) { return; }
ConsFun_t get_usr_expr(const char *expr) { return NULL; }
VOutFun_t get_usr_out_fun(const char *name) { return NULL; }
void Userwork_in_loop(MeshS *pM) { }
void Userwork_after_loop(MeshS *pM)
{
  compute_l1_error("vp",pM,(const ConsS***)Ref,0);
  compute_l1_error("vp",pM,(const ConsS***)Ref,1);
}
