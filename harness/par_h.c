/* Script-driven driver of the parameter database (src/par.c). Usage: par_h SCRIPTFILE OUTFILE
 * The script holds blocks separated by "RUN" lines; each block runs in a forked child, so that ath_error() (exit) ends only that block.
 * Every line: op hexarg...; results go to OUTFILE as text. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "defs.h"
#include "athena.h"
#include "prototypes.h"

static char *unhex(const char *h)
{
  size_t n = strlen(h)/2, i;
  char *s = malloc(n+1);   /* exactly sized: ASan sees over-reads */
  for (i=0; i<n; i++) { unsigned v; sscanf(h+2*i,"%2x",&v); s[i] = (char)v; }
  s[n] = '\0';
  return s;
}
static void hex(FILE *f, const char *s) { fputc('x',f); for (; *s; s++) fprintf(f,"%02x",(unsigned char)*s); fputc('\n',f); }

static void run(char **lines, int n, FILE *out)
{
  int i, k;
  for (i=0; i<n; i++) {
    char *tok[64], *sv = NULL, *a[64];
    int nt = 0;
    char *p = strtok_r(lines[i]," \n",&sv);
    while (p && nt < 64) { tok[nt++] = p; p = strtok_r(NULL," \n",&sv); }
    if (!nt) continue;
    for (k=1; k<nt; k++) a[k] = unhex(tok[k]+1);
    if (!strcmp(tok[0],"open")) { par_open(a[1]); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"cmd")) { char *v[65]; v[0] = "prog"; for (k=1; k<nt; k++) v[k] = a[k]; par_cmdline(nt,v); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"exist")) fprintf(out,"%d\n",par_exist(a[1],a[2]));
    else if (!strcmp(tok[0],"gets")) { char *s = par_gets(a[1],a[2]); hex(out,s); free(s); }
    else if (!strcmp(tok[0],"geti")) fprintf(out,"%d\n",par_geti(a[1],a[2]));
    else if (!strcmp(tok[0],"getd")) fprintf(out,"%.17g\n",par_getd(a[1],a[2]));
    else if (!strcmp(tok[0],"defs")) { char *s = par_gets_def(a[1],a[2],a[3]); hex(out,s); free(s); }
    else if (!strcmp(tok[0],"defi")) fprintf(out,"%d\n",par_geti_def(a[1],a[2],atoi(a[3])));
    else if (!strcmp(tok[0],"defd")) fprintf(out,"%.17g\n",par_getd_def(a[1],a[2],atof(a[3])));
    else if (!strcmp(tok[0],"sets")) { par_sets(a[1],a[2],a[3],nt > 4 ? a[4] : NULL); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"seti")) { par_seti(a[1],a[2],"%d",atoi(a[3]),nt > 4 ? a[4] : NULL); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"setd")) { par_setd(a[1],a[2],"%.16e",atof(a[3]),nt > 4 ? a[4] : NULL); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"dump")) { FILE *f = fopen(a[2],"w"); par_dump(atoi(a[1]),f); fclose(f); fprintf(out,"ok\n"); }
    else if (!strcmp(tok[0],"close")) { par_close(); fprintf(out,"ok\n"); }
#ifdef MPI_PARALLEL
    else if (!strcmp(tok[0],"dist")) { par_dist_mpi(0,MPI_COMM_WORLD); fprintf(out,"ok\n"); }
#endif
    else { fprintf(out,"badop %s\n",tok[0]); }
    for (k=1; k<nt; k++) free(a[k]);
    fflush(out);
  }
}

#ifndef MPI_PARALLEL
int main(int argc, char *argv[])
{
  FILE *f = fopen(argv[1],"r");
  char **L = NULL, *line = NULL;
  size_t cap = 0;
  int n = 0, m = 0, first, id = 0;
  while (getline(&line,&cap,f) > 0) { if (n == m) { m = 2*m+64; L = realloc(L,m*sizeof(char*)); } L[n++] = strdup(line); }
  fclose(f);
  remove(argv[2]);
  for (first=0; first<n; ) {
    int e = first+1, st;
    pid_t p;
    FILE *o;
    while (e < n && strcmp(L[e],"RUN\n")) e++;
    o = fopen(argv[2],"a"); fprintf(o,"RUN %d\n",id++); fclose(o);
    p = fork();
    if (p == 0) {
      o = fopen(argv[2],"a");
      alarm(20);
      run(L+first+1,e-first-1,o);
      fclose(o);
      exit(0);
    }
    waitpid(p,&st,0);
    o = fopen(argv[2],"a"); fprintf(o,"END %d\n",WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st)); fclose(o);
    first = e;
  }
  return 0;
}
#else
/* MPI: rank 0 opens argv[1] with overrides argv[2..], distributes, every rank dumps its database to par.<rank> */
int main(int argc, char *argv[])
{
  int r;
  char fn[64];
  FILE *f;
  MPI_Init(&argc,&argv);
  MPI_Comm_rank(MPI_COMM_WORLD,&r);
  if (r == 0) { par_open(argv[1]); par_cmdline(argc-1,argv+1); }
  par_dist_mpi(r,MPI_COMM_WORLD);
  sprintf(fn,"par.%d",r);
  f = fopen(fn,"w"); par_dump(2,f); fclose(f);
  par_close();
  MPI_Finalize();
  return 0;
}
#endif
