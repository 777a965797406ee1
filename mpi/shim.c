/* PMPI shim preloaded into MPI runs: seeded delays around communication, adversarial (but legal) completion order of
 * MPI_Waitany, synchronous sends, and a log of what was observed (messages, completion orders).  VP_MPI_SEED=0: log only. */
#define _GNU_SOURCE
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>

static uint64_t rng_state = 0;
static long seed = 0, nsend = 0, nrecv = 0, nwait = 0, nreorder = 0;
static int rank = 0, mode = 0;      /* mode bit 0: delays, 1: reorder completions, 2: synchronous sends */
static double maxus = 400.0;
static uint64_t order_hash = 1469598103934665603ULL;

static double rnd(void)
{
  rng_state += 0x9E3779B97F4A7C15ULL;
  uint64_t z = rng_state;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
  return (double)(z >> 11) / 9007199254740992.0;
}
static void pause_(void)
{
  if ((mode & 1) && rnd() < 0.3) usleep((useconds_t)(maxus * rnd() * (rnd() < 0.05 ? 8.0 : 1.0)));
}
/* VP_MPI_RAISE=n: SIGTERM arrives while rank VP_MPI_RAISE_RANK is in its n-th MPI_Allreduce since the program installed its own handler */
static long raise_at = 0, raise_rank = 0, nall = 0;
static void (*handler0)(int) = SIG_DFL;
static void (*handler(void))(int) { struct sigaction a; sigaction(SIGTERM, NULL, &a); return a.sa_handler; }

static void start(void)
{
  const char *s = getenv("VP_MPI_SEED");
  seed = s ? atol(s) : 0;
  mode = (s = getenv("VP_MPI_MODE")) ? atoi(s) : 0;
  if ((s = getenv("VP_MPI_US"))) maxus = atof(s);
  PMPI_Comm_rank(MPI_COMM_WORLD, &rank);
  raise_at = (s = getenv("VP_MPI_RAISE")) ? atol(s) : 0;
  raise_rank = (s = getenv("VP_MPI_RAISE_RANK")) ? atol(s) : 0;
  rng_state = (uint64_t)seed * 1000003ULL + (uint64_t)rank * 7919ULL + 17ULL;
}
static void mix(int v) { order_hash = (order_hash ^ (uint64_t)(v + 1)) * 1099511628211ULL; }

int MPI_Init(int *c, char ***v) { int e = PMPI_Init(c, v); start(); handler0 = handler(); return e; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ nsend++; pause_(); return (mode & 4) ? PMPI_Ssend(b,n,t,d,tag,c) : PMPI_Send(b,n,t,d,tag,c); }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ nsend++; pause_(); return (mode & 4) ? PMPI_Issend(b,n,t,d,tag,c,r) : PMPI_Isend(b,n,t,d,tag,c,r); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
{ nrecv++; pause_(); return PMPI_Irecv(b,n,t,s,tag,c,r); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{ nrecv++; pause_(); return PMPI_Recv(b,n,t,s,tag,c,st); }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { nwait++; pause_(); return PMPI_Wait(r,s); }
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[]) { nwait++; pause_(); return PMPI_Waitall(n,r,s); }
int MPI_Waitany(int n, MPI_Request r[], int *ix, MPI_Status *st)
{
  nwait++;
  if ((mode & 2) && n > 1) {
    int i, k, live = 0, flag, spin, e;
    for (i=0; i<n; i++) if (r[i] != MPI_REQUEST_NULL) live++;
    if (live > 1) {
      usleep((useconds_t)(maxus*rnd()));
      for (spin=0; spin<200; spin++) {
        int o = (int)(rnd()*n), dir = rnd() < 0.5 ? 1 : n-1;
        for (k=0; k<n; k++) {
          i = (int)(((long)o + (long)dir*k) % n);
          if (r[i] == MPI_REQUEST_NULL) continue;
          e = PMPI_Test(&r[i], &flag, st);
          if (e != MPI_SUCCESS) return e;
          if (flag) { *ix = i; nreorder++; mix(i); return MPI_SUCCESS; }
        }
        usleep(20);
      }
    }
  }
  { int e = PMPI_Waitany(n,r,ix,st); mix(*ix); return e; }
}
int MPI_Allreduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) 
{
  int e;
  pause_();
  e = PMPI_Allreduce(a,b,n,t,o,c);
  if (raise_at > 0 && rank == raise_rank && handler() != handler0 && ++nall == raise_at) raise(SIGTERM);
  return e;
}
int MPI_Reduce(const void *a, void *b, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { pause_(); return PMPI_Reduce(a,b,n,t,o,root,c); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { pause_(); return PMPI_Bcast(b,n,t,root,c); }
int MPI_Barrier(MPI_Comm c) { pause_(); return PMPI_Barrier(c); }
int MPI_Finalize(void)
{
  const char *d = getenv("VP_MPI_LOG");
  if (d) {
    char fn[4096];
    FILE *f;
    snprintf(fn,sizeof fn,"%s/mpilog.%d",d,rank);
    if ((f = fopen(fn,"w"))) {
      fprintf(f,"%ld %ld %ld %ld %016llx\n",nsend,nrecv,nwait,nreorder,(unsigned long long)order_hash);
      fclose(f);
    }
  }
  return PMPI_Finalize();
}
