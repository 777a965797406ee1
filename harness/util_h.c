/* Driver of the shared utilities. Usage: util_h SEED N. Each function is called with generated arguments and its answer compared with an
 * independently computed one. Prints "CASE name calls" per function and "BAD name detail" for every wrong answer (at most 3 per name). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <float.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"

static uint64_t s0;
static uint64_t rnd(void) { s0 ^= s0 << 13; s0 ^= s0 >> 7; s0 ^= s0 << 17; return s0 * 0x2545F4914F6CDD1DULL; }
static double U(double a, double b) { return a + (b-a)*((rnd() >> 11)*(1.0/9007199254740992.0)); }
static int I(int a, int b) { return a + (int)(rnd() % (uint64_t)(b-a+1)); }
static const char *name; static long calls; static int bad;
static void begin(const char *n) { name = n; calls = 0; bad = 0; }
static void end(void) { printf("CASE %s %ld\n", name, calls); }
#define BAD(...) do { if (bad++ < 3) { printf("BAD %s ", name); printf(__VA_ARGS__); printf("\n"); } } while (0)
static int near_(double a, double b, double rel, double abs_) { return fabs(a-b) <= rel*fmax(fabs(a),fabs(b)) + abs_; }

/* a family of smooth functions with known integrals: product of cubics per axis plus an exponential */
static double ca[3][4], ce, ke_[3];
static void newfun(void) { int a,b; for (a=0;a<3;a++) { for (b=0;b<4;b++) ca[a][b] = U(-1,1); ca[a][0] += 3; ke_[a] = U(-1,1); } ce = U(0.5,1); }
static double P1(int a, double x) { return ca[a][0]+x*(ca[a][1]+x*(ca[a][2]+x*ca[a][3])); }
static double I1(int a, double l, double h, int w) { /* integral of x^w P1 */
  double s=0; int b; for (b=0;b<4;b++) s += ca[a][b]*(pow(h,b+w+1)-pow(l,b+w+1))/(b+w+1); return s; }
static Real F3(Real x, Real y, Real z) { return P1(0,x)*P1(1,y)*P1(2,z); }
static Real FX(Real x) { return P1(0,x) + ce*exp(ke_[0]*x); }
static Real A1(Real x, Real y, Real z) { return P1(0,x)*P1(1,y)*P1(2,z); }
static Real A2(Real x, Real y, Real z) { return P1(1,x)*P1(2,y)*P1(0,z); }
static Real A3(Real x, Real y, Real z) { return P1(2,x)*P1(0,y)*P1(1,z); }
static double root0; static int kind;
static Real RF(const Real x, const Real y) { double t = y - root0; switch (kind) { case 0: return x*t; case 1: return -x*t*(1+t*t); case 2: return x*tanh(3*t); default: return -x*(exp(t)-1); } }
static int nv; static double om[8];
static void DER(Real x, Real y[], Real d[]) { int i; for (i=0;i<nv;i+=2) { d[i] = om[i]*y[i+1]; d[i+1] = -om[i]*y[i]; } }
static void DEX(Real x, Real y[], Real d[]) { int i; for (i=0;i<nv;i++) d[i] = om[i]*y[i]*cos(x); }

int main(int argc, char *argv[])
{
  int N = atoi(argv[2]), t, i, j, k, n;
  s0 = 0x9E3779B97F4A7C15ULL * (uint64_t)(atoi(argv[1])+1); for (i=0;i<20;i++) rnd();
  ath_log_set_level(-1,-1);

  begin("ath_gcd");
  for (t=0;t<N;t++) {
    int g = I(1,50), a = g*I(1,2000), b = g*I(1,2000), x, y, r;
    if (t % 10 == 0) b = a;
    if (t % 11 == 0) b = 1;
    x=a; y=b; while (y) { int q=x%y; x=y; y=q; }
    r = ath_gcd(a,b); calls++;
    if (r != x || ath_gcd(b,a) != x) BAD("gcd(%d,%d)=%d, expected %d",a,b,r,x);
  }
  end();

  begin("ath_bswap");
  for (t=0;t<N;t++) {
    static const int lens[] = {1,2,4,8,3,6,16,10};
    int len = lens[I(0,7)], cnt = I(0,5);
    unsigned char *a = malloc(len*cnt+1), *b = malloc(len*cnt+1);
    for (i=0;i<len*cnt;i++) a[i] = b[i] = rnd();
    a[len*cnt] = 0xA5;
    ath_bswap(a,len,cnt); calls++;
    for (k=0;k<cnt;k++) for (i=0;i<len;i++) if (a[k*len+i] != b[k*len+len-1-i]) { BAD("len %d cnt %d: element %d not reversed",len,cnt,k); k=cnt; break; }
    if (a[len*cnt] != 0xA5) BAD("wrote past the end");
    free(a); free(b);
  }
  end();

  begin("ath_big_endian"); calls++; { union { uint32_t u; char c[4]; } u; u.u=1; if (ath_big_endian() != (u.c[0]==0)) BAD("wrong"); } end();

  begin("ath_strdup");
  for (t=0;t<N/10+1;t++) { char b[300]; char *p; n=I(0,299); for (i=0;i<n;i++) b[i]=I(1,127); b[n]=0; p=ath_strdup(b); calls++; if (p==b||strcmp(p,b)) BAD("copy differs"); free(p); }
  end();

  begin("calloc_arrays");
  for (t=0;t<N;t++) {
    int nt=I(1,6), nr=I(1,7), nc=I(1,9), sz[]={1,2,4,8,24}, s=sz[I(0,4)], z;
    char *a1 = calloc_1d_array(nc,s), **a2 = (char**)calloc_2d_array(nr,nc,s), ***a3 = (char***)calloc_3d_array(nt,nr,nc,s);
    calls += 3;
    for (i=0;i<nc*s;i++) if (a1[i]) BAD("1d not zero");
    for (j=0;j<nr;j++) { for (i=0;i<nc*s;i++) if (a2[j][i]) BAD("2d not zero"); if (j && a2[j]-a2[j-1] != nc*s) BAD("2d stride"); }
    for (k=0;k<nt;k++) for (j=0;j<nr;j++) { for (i=0;i<nc*s;i++) if (a3[k][j][i]) BAD("3d not zero"); if (a3[k][j]-a3[0][0] != (long)(k*nr+j)*nc*s) BAD("3d stride %d %d of %d %d %d",k,j,nt,nr,nc); }
    /* every element is its own storage */
    for (k=0;k<nt;k++) for (j=0;j<nr;j++) for (i=0;i<nc*s;i++) a3[k][j][i] = (char)(k*31+j*7+i);
    for (k=0;k<nt;k++) for (j=0;j<nr;j++) for (i=0;i<nc*s;i++) if (a3[k][j][i] != (char)(k*31+j*7+i)) BAD("3d elements overlap");
    memset(a1,1,nc*s); for (j=0;j<nr;j++) memset(a2[j],1,nc*s);
    free_1d_array(a1); free_2d_array(a2); free_3d_array(a3);
  }
  end();

  begin("minmax");
  for (t=0;t<N;t++) {
    int nt=I(1,5), nr=I(1,6), nc=I(1,8); Real ***d = (Real***)calloc_3d_array(nt,nr,nc,sizeof(Real)); Real lo=1e300, hi=-1e300, lo2=1e300, hi2=-1e300, lo1=1e300, hi1=-1e300, a, b;
    double off = t%3==0 ? -1000 : t%3==1 ? 1000 : 0;
    for (k=0;k<nt;k++) for (j=0;j<nr;j++) for (i=0;i<nc;i++) { Real v = d[k][j][i] = off+U(-10,10); if(v<lo)lo=v; if(v>hi)hi=v; if(k==0){if(v<lo2)lo2=v; if(v>hi2)hi2=v; if(j==0){if(v<lo1)lo1=v; if(v>hi1)hi1=v;}} }
    minmax3(d,nt,nr,nc,&a,&b); if (a!=lo||b!=hi) BAD("minmax3 %g %g expected %g %g",a,b,lo,hi);
    minmax2(d[0],nr,nc,&a,&b); if (a!=lo2||b!=hi2) BAD("minmax2 %g %g expected %g %g",a,b,lo2,hi2);
    minmax1(d[0][0],nc,&a,&b); if (a!=lo1||b!=hi1) BAD("minmax1 %g %g expected %g %g",a,b,lo1,hi1);
    calls += 3; free_3d_array(d);
  }
  end();

  begin("roots");
  for (t=0;t<N/2;t++) {
    Real a,b,r; double lo = U(-5,4), hi = lo + U(0.2,6), x = U(0.3,3); int ok;
    root0 = U(lo+0.013*(hi-lo),hi-0.017*(hi-lo)); kind = I(0,3);
    if (fabs(root0) < 1e-3) continue;
    ok = sign_change(RF,lo,hi,x,&a,&b); calls++;
    if (!ok || a > root0 || b < root0 || a < lo-1e-12 || b > hi+1e-9) BAD("sign_change: (%g,%g) root %.17g gave %d (%.17g,%.17g)",lo,hi,root0,ok,a,b);
    ok = bisection(RF,lo,hi,x,&r); calls++;
    if (ok != 1 || fabs(r-root0) > 4e-9*(1+fabs(root0))) BAD("bisection: root %.17g gave %d %.17g",root0,ok,r);
    kind = 0; root0 = lo - U(0.1,3);
    if (t < 40) { ok = sign_change(RF,lo,hi,x,&a,&b); calls++; if (ok) BAD("sign_change found a root that is not there"); }
  }
  end();

  begin("odeint");
  for (t=0;t<N/20+5;t++) {
    Real y[8], y0[8]; double x1=U(-2,2), x2=x1+(t%2?1:-1)*U(0.1,4), eps = t%3 ? 1e-9 : 1e-6;
    nv = 2*I(1,4); for (i=0;i<nv;i++) { om[i]=U(-2,2); y[i]=y0[i]=U(0.5,2); }
    odeint_lite(y,nv,x1,x2,eps,U(1e-3,1),0.0,DER); calls++;
    for (i=0;i<nv;i+=2) { double c=cos(om[i]*(x2-x1)), s=sin(om[i]*(x2-x1)); if (!near_(y[i],c*y0[i]+s*y0[i+1],0,1e4*eps) || !near_(y[i+1],c*y0[i+1]-s*y0[i],0,1e4*eps)) BAD("rotation %g over %g eps %g: %g %g",om[i],x2-x1,eps,y[i]-(c*y0[i]+s*y0[i+1]),y[i+1]-(c*y0[i+1]-s*y0[i])); }
    for (i=0;i<nv;i++) y[i]=y0[i];
    odeint_lite(y,nv,x1,x2,eps,U(1e-3,1),0.0,DEX); calls++;
    for (i=0;i<nv;i++) if (!near_(y[i],y0[i]*exp(om[i]*(sin(x2)-sin(x1))),1e4*eps,0)) BAD("growth: %g expected %g (eps %g)",y[i],y0[i]*exp(om[i]*(sin(x2)-sin(x1))),eps);
  }
  for (t=0;t<N/100+3;t++) {   /* stored intermediate results, xp[1..kount], yp[1..nvar][1..kount] */
    enum { KM = 60 }; int nok,nbad,kount; double x1=U(-2,2), x2=x1+U(0.5,4); Real *xp = (Real*)calloc_1d_array(KM+1,sizeof(Real)), **yp, y[8], y0[8];
    nv = I(1,6); yp = (Real**)calloc_2d_array(nv+1,KM+1,sizeof(Real));
    for (i=0;i<nv;i++) { om[i]=U(-1,1); y[i]=y0[i]=U(0.5,2); }
    odeint(y,nv,x1,x2,1e-8,0.01,0.0,&nok,&nbad,KM,&kount,xp,yp,0.01,DEX,rkqs); calls++;
    if (kount < 2 || kount > KM || xp[1] != x1 || !near_(xp[kount],x2,1e-12,1e-12)) BAD("stored points: kount %d first %g last %g of (%g,%g)",kount,xp[1],xp[kount],x1,x2);
    else for (k=1;k<=kount;k++) for (i=0;i<nv;i++) if (!near_(yp[i+1][k],y0[i]*exp(om[i]*(sin(xp[k])-sin(x1))),1e-4,0)) { BAD("stored y[%d] at %g: %g expected %g",i,xp[k],yp[i+1][k],y0[i]*exp(om[i]*(sin(xp[k])-sin(x1)))); k=kount; break; }
    free_1d_array(xp); free_2d_array(yp);
  }
  end();

  begin("quadrature");
  for (t=0;t<N/4;t++) {
    double a=U(-2,2), b=a+(t%4?1:-1)*U(1e-3,3), want, s; Real st=0;
    newfun();
    want = I1(0,a,b,0) + (fabs(ke_[0])<1e-8 ? ce*(b-a) : ce*(exp(ke_[0]*b)-exp(ke_[0]*a))/ke_[0]);
    s = qsimp(FX,a,b); calls++;
    if (!near_(s,want,1e-6,1e-8)) BAD("qsimp (%g,%g): %.12g expected %.12g",a,b,s,want);
    for (n=1;n<=7;n++) { int m = 1<<(n-1); double h=(b-a)/m, tr=0; for (i=0;i<=m;i++) tr += (i==0||i==m?0.5:1.0)*FX(a+i*h); tr*=h;
      st = trapzd(FX,a,b,n,st); calls++; if (!near_(st,tr,1e-11,1e-12)) { BAD("trapzd stage %d: %.15g expected %.15g",n,st,tr); break; } }
  }
  end();

  begin("ath_fname");
  for (t=0;t<N;t++) {
    char path[80], base[60], lev[20], dom[20], id[30], ext[20], want[400], num[40]; int hp=I(0,1),hl=I(0,1),hd=I(0,1),hi=I(0,1),dlen=I(0,14),idump=t%5==0?-1:t%5==1?I(0,9):t%5==2?2147483647:I(0,99999); char *f;
#define RS(s,m) do { int q_=I(1,m),z_; for (z_=0;z_<q_;z_++) s[z_]="abcXYZ019_-./"[I(0,12)]; s[q_]=0; } while (0)
    RS(path,70); RS(base,50); RS(lev,8); RS(dom,8); RS(id,20); RS(ext,10);
    want[0]=0; if (hp) { strcat(want,path); if (path[strlen(path)-1] != '/') strcat(want,"/"); }
    strcat(want,base); if (hl) { strcat(want,"-"); strcat(want,lev); } if (hd) { strcat(want,"-"); strcat(want,dom); }
    if (dlen>0 && idump>=0) { sprintf(num,".%0*d",dlen,idump); strcat(want,num); }
    if (hi) { strcat(want,"."); strcat(want,id); } strcat(want,"."); strcat(want,ext);
    f = ath_fname(hp?path:NULL,base,hl?lev:NULL,hd?dom:NULL,dlen,idump,hi?id:NULL,ext); calls++;
    if (!f || strcmp(f,want)) BAD("\"%s\" expected \"%s\"",f?f:"NULL",want);
    free(f);
  }
  end();

  begin("units");
  for (t=0;t<N/10+1;t++) {
    UnitS u; ConstS k_; double L=pow(10,U(-3,22)), M=pow(10,U(-3,34)), T=pow(10,U(-3,14));
    memset(&u,0,sizeof u); u.Lcode=L; u.Mcode=M; u.Tcode=T; init_units(&u); init_consts(&k_); calls++;
#define CK(f,w) if (!near_(f,w,1e-13,0)) BAD(#f " = %.15g expected %.15g",(double)(f),(double)(w))
    CK(u.Vcode,L/T); CK(u.Dcode,M/L/L/L); CK(u.cm,1/L); CK(u.g,1/M); CK(u.s,1/T); CK(u.dyne,T*T/(M*L)); CK(u.erg,T*T/(M*L*L)); CK(u.K,1.0);
    CK(u.G,k_.G*M*T*T/(L*L*L)); CK(u.Msun,k_.Msun/M); CK(u.Lsun,k_.Lsun*T*T*T/(M*L*L)); CK(u.Myr,k_.Myr/T); CK(u.pc,k_.pc/L); CK(u.kpc,1000*k_.pc/L);
    CK(u.kms,1e5*T/L); CK(u.mH,k_.mH/M); CK(u.aR,k_.aR*T*T*L/M); CK(u.kB,k_.kB*T*T/(M*L*L)); CK(u.c,k_.c*T/L);
    if (!near_(k_.G,6.674e-8,2e-3,0)||!near_(k_.c,2.99792458e10,1e-12,0)||!near_(k_.kB,1.3806e-16,1e-3,0)||!near_(k_.aR,7.5657e-15,1e-3,0)||!near_(k_.mH,1.6735e-24,1e-3,0)||!near_(k_.Msun,1.989e33,1e-3,0)||!near_(k_.Lsun,3.83e33,1e-2,0)||!near_(k_.pc,3.0857e18,1e-4,0)||!near_(k_.Myr,3.1557e13,1e-3,0)) BAD("a physical constant is off");
  }
  end();

  {
    GridS *g = calloc(1,sizeof *g);
    begin("positions");
    for (t=0;t<N;t++) {
      Real x,y,z; double h[3]; int c[3], a;
      memset(g,0,sizeof *g);
      g->is=4; g->js=I(0,1)?4:0; g->ks=I(0,1)?4:0; g->Nx[0]=I(1,64); g->Nx[1]=g->js?I(2,64):1; g->Nx[2]=g->ks?I(2,64):1;
      g->ie=g->is+g->Nx[0]-1; g->je=g->js+g->Nx[1]-1; g->ke=g->ks+g->Nx[2]-1;
      for (a=0;a<3;a++) { g->MinX[a]=U(-10,10); h[a]=pow(10,U(-3,1)); c[a]=I(-4,70); }
      g->dx1=h[0]; g->dx2=h[1]; g->dx3=h[2];
      cc_pos(g,c[0],c[1],c[2],&x,&y,&z); calls++;
      { double w[3]={g->MinX[0]+(c[0]-g->is+0.5)*h[0],g->MinX[1]+(c[1]-g->js+0.5)*h[1],g->MinX[2]+(c[2]-g->ks+0.5)*h[2]};
        if (!near_(x,w[0],1e-14,1e-14)||!near_(y,w[1],1e-14,1e-14)||!near_(z,w[2],1e-14,1e-14)) BAD("cc_pos"); }
      fc_pos(g,c[0],c[1],c[2],&x,&y,&z); calls++;
      { double w[3]={g->MinX[0]+(c[0]-g->is)*h[0],g->MinX[1]+(c[1]-g->js)*h[1],g->MinX[2]+(c[2]-g->ks)*h[2]};
        if (!near_(x,w[0],1e-14,1e-14)||!near_(y,w[1],1e-14,1e-14)||!near_(z,w[2],1e-14,1e-14)) BAD("fc_pos"); }
#ifdef CYLINDRICAL
      g->MinX[0]=U(0.5,10)+5*h[0]; { double r=g->MinX[0]+(c[0]-g->is+0.5)*h[0], lo=r-h[0]/2, hi=r+h[0]/2, w=(hi*hi*hi-lo*lo*lo)/3/((hi*hi-lo*lo)/2); x=x1vc(g,c[0]); calls++; if (lo>0 && !near_(x,w,1e-12,0)) BAD("x1vc %g expected %g",x,w); }
#endif
#ifdef PARTICLES
      { int ci; Real fa; double e, want; int half;
        for (a=0;a<3;a++) {
          int s_ = a==0?g->is:a==1?g->js:g->ks, n_=g->Nx[a]; double f=U(0.001,0.999), q;
          if (fabs(f-0.5)<1e-3) f=0.25;
          ci=I(s_?s_-4:0,s_+n_+3);
          q = g->MinX[a] + (ci-s_+f)*h[a];
          if (fabs(q) > 1e6*h[a]) continue;
          half = a==0?celli(g,q,1/h[0],&i,&fa):a==1?cellj(g,q,1/h[1],&i,&fa):cellk(g,q,1/h[2],&i,&fa); calls++;
          if (s_==0 && ci<0) continue;
          if (i!=ci || half!=(f>=0.5) || !near_(fa,ci+f,1e-9,1e-6)) BAD("cell map axis %d: x=%.17g in cell %d at %g gave cell %d half %d coordinate %g",a+1,q,ci,f,i,half,fa);
          e = a==0?x1cc(g,ci):a==1?x2cc(g,ci):x3cc(g,ci); want=g->MinX[a]+(ci-s_+0.5)*h[a]; calls++;
          if (!near_(e,want,1e-14,1e-14)) BAD("x%dcc",a+1);
          half = a==0?celli(g,e,1/h[0],&i,&fa):a==1?cellj(g,e,1/h[1],&i,&fa):cellk(g,e,1/h[2],&i,&fa);
          if (i!=ci) BAD("cell map does not invert x%dcc",a+1);
        } }
#endif
    }
    end();

    begin("cell_averages");
    for (t=0;t<N/400+4;t++) {
      double l[3],u[3],w; int a;
      memset(g,0,sizeof *g); newfun();
      g->is=g->js=g->ks=4; g->dx1=U(0.05,0.4); g->dx2=U(0.05,0.4); g->dx3=U(0.05,0.4); for (a=0;a<3;a++) g->MinX[a]=U(0.3,0.8);
      i=I(4,6); j=I(4,6); k=I(4,6);
      l[0]=g->MinX[0]+(i-4)*g->dx1; u[0]=l[0]+g->dx1; l[1]=g->MinX[1]+(j-4)*g->dx2; u[1]=l[1]+g->dx2; l[2]=g->MinX[2]+(k-4)*g->dx3; u[2]=l[2]+g->dx3;
#ifdef CYLINDRICAL
      w = I1(0,l[0],u[0],1)/((u[0]*u[0]-l[0]*l[0])/2);
#else
      w = I1(0,l[0],u[0],0)/g->dx1;
#endif
      { double my=I1(1,l[1],u[1],0)/g->dx2, mz=I1(2,l[2],u[2],0)/g->dx3, cy=P1(1,0.5*(l[1]+u[1])), cz=P1(2,0.5*(l[2]+u[2])), r;
        r=avg1d(F3,g,i,j,k); calls++; if (!near_(r,w*cy*cz,1e-6,1e-9)) BAD("avg1d %g expected %g",r,w*cy*cz);
        r=avg2d(F3,g,i,j,k); calls++; if (!near_(r,w*my*cz,1e-6,1e-9)) BAD("avg2d %g expected %g",r,w*my*cz);
        r=avg3d(F3,g,i,j,k); calls++; if (!near_(r,w*my*mz,1e-6,1e-9)) BAD("avg3d %g expected %g",r,w*my*mz);
        r=avgXZ(F3,g,i,j,k); calls++; w=I1(0,l[0],u[0],0)/g->dx1*cy*mz; if (!near_(r,w,1e-6,1e-9)) BAD("avgXZ %g expected %g",r,w); }
    }
    end();

    begin("vector_potential");
    for (t=0;t<N/20+4;t++) {
      double l[3],u[3],b,w,dl; int a, m; Real (*p1)(Real,Real,Real), (*p2)(Real,Real,Real), (*p3)(Real,Real,Real);
      memset(g,0,sizeof *g); newfun();
      g->is=g->js=g->ks=4; g->dx1=U(0.05,0.4); g->dx2=U(0.05,0.4); g->dx3=U(0.05,0.4); for (a=0;a<3;a++) g->MinX[a]=U(0.3,0.8);
      i=I(4,6); j=I(4,6); k=I(4,6); m=I(1,7); p1=m&1?A1:NULL; p2=m&2?A2:NULL; p3=m&4?A3:NULL;
      l[0]=g->MinX[0]+(i-4)*g->dx1; u[0]=l[0]+g->dx1; l[1]=g->MinX[1]+(j-4)*g->dx2; u[1]=l[1]+g->dx2; l[2]=g->MinX[2]+(k-4)*g->dx3; u[2]=l[2]+g->dx3;
#ifdef CYLINDRICAL
#define RR(x) (x)
#define RC (0.5*(l[0]+u[0]))
#else
#define RR(x) 1.0
#define RC 1.0
#endif
      /* line integrals of the potential around each face */
      w=0; if (p3) w += P1(2,l[0])*I1(1,l[2],u[2],0)*(P1(0,u[1])-P1(0,l[1])); if (p2) w -= RR(l[0])*P1(1,l[0])*I1(2,l[1],u[1],0)*(P1(0,u[2])-P1(0,l[2]));
      w /= RR(l[0])*g->dx2*g->dx3; b=vecpot2b1i(p2,p3,g,i,j,k); calls++; if (!near_(b,w,1e-6,1e-5)) BAD("b1 %g expected %g",b,w);
      w=0; if (p1) w += I1(0,l[0],u[0],0)*P1(1,l[1])*(P1(2,u[2])-P1(2,l[2])); if (p3) w -= P1(0,l[1])*I1(1,l[2],u[2],0)*(P1(2,u[0])-P1(2,l[0]));
      w /= g->dx1*g->dx3; b=vecpot2b2i(p1,p3,g,i,j,k); calls++; if (!near_(b,w,1e-6,1e-5)) BAD("b2 %g expected %g",b,w);
      w=0; if (p2) w += I1(2,l[1],u[1],0)*P1(0,l[2])*(RR(u[0])*P1(1,u[0])-RR(l[0])*P1(1,l[0])); if (p1) w -= I1(0,l[0],u[0],0)*P1(2,l[2])*(P1(1,u[1])-P1(1,l[1]));
      w /= g->dx1*RC*g->dx2; b=vecpot2b3i(p1,p2,g,i,j,k); calls++; if (!near_(b,w,1e-6,1e-5)) BAD("b3 %g expected %g",b,w);
    }
    end();

#ifdef MHD
    begin("compute_div_b");
    for (t=0;t<N/20+2;t++) {
      int dim=I(1,3), n1=I(4,8), n2=dim>1?I(4,8):1, n3=dim>2?I(4,8):1; double m=0, got;
      memset(g,0,sizeof *g); g->is=4; g->ie=3+n1; g->js=dim>1?4:0; g->je=g->js+n2-1; g->ks=dim>2?4:0; g->ke=g->ks+n3-1; g->dx1=U(0.1,1); g->dx2=U(0.1,1); g->dx3=U(0.1,1); g->MinX[0]=1;
      { int s3=n3+10,s2=n2+10,s1=n1+10; g->B1i=(Real***)calloc_3d_array(s3,s2,s1,sizeof(Real)); g->B2i=(Real***)calloc_3d_array(s3,s2,s1,sizeof(Real)); g->B3i=(Real***)calloc_3d_array(s3,s2,s1,sizeof(Real));
        for (k=0;k<s3;k++) for (j=0;j<s2;j++) for (i=0;i<s1;i++) { int in = i>=g->is&&i<=g->ie+1&&j>=g->js&&j<=g->je+1&&k>=g->ks&&k<=g->ke+1; double sc=in?1:1e3; g->B1i[k][j][i]=sc*U(-1,1); g->B2i[k][j][i]=sc*U(-1,1); g->B3i[k][j][i]=sc*U(-1,1); } }
      for (k=g->ks;k<=g->ke;k++) for (j=g->js;j<=g->je;j++) for (i=g->is;i<=g->ie;i++) {
        double r=1+(i-4+0.5)*g->dx1, d;
#ifdef CYLINDRICAL
        d=((r+g->dx1/2)*g->B1i[k][j][i+1]-(r-g->dx1/2)*g->B1i[k][j][i])/(r*g->dx1); if (dim>1) d+=(g->B2i[k][j+1][i]-g->B2i[k][j][i])/(r*g->dx2);
#else
        d=(g->B1i[k][j][i+1]-g->B1i[k][j][i])/g->dx1; if (dim>1) d+=(g->B2i[k][j+1][i]-g->B2i[k][j][i])/g->dx2;
#endif
        if (dim>2) d+=(g->B3i[k+1][j][i]-g->B3i[k][j][i])/g->dx3; if (fabs(d)>m) m=fabs(d); }
      got=compute_div_b(g); calls++; if (!near_(got,m,1e-12,0)) BAD("max |div B| %g expected %g (%dD)",got,m,dim);
      free_3d_array(g->B1i); free_3d_array(g->B2i); free_3d_array(g->B3i);
    }
    end();
#endif
    free(g);
  }

#ifdef PARTICLES
  begin("matrices");
  for (t=0;t<N/4;t++) {
    int m=I(1,8), l=I(1,6), q=I(1,6); Real **a=(Real**)calloc_2d_array(m,m,sizeof(Real)), **b=(Real**)calloc_2d_array(m,m,sizeof(Real)), **c=(Real**)calloc_2d_array(m,m,sizeof(Real));
    Real **x=(Real**)calloc_2d_array(m,l,sizeof(Real)), **y=(Real**)calloc_2d_array(l,q,sizeof(Real)), **z=(Real**)calloc_2d_array(m,q,sizeof(Real)); double dom=t%2?0:4;
    for (i=0;i<m;i++) for (j=0;j<m;j++) a[i][j]=c[i][j]=U(-1,1)*pow(10,t%3-1)+(i==(j+t)%m?dom+1:0);
    InverseMatrix(a,m,b); calls++;
    { double e=0, nb=0, na=0; for (i=0;i<m;i++) for (j=0;j<m;j++) { double s=0; for (k=0;k<m;k++) s+=c[i][k]*b[k][j]; e=fmax(e,fabs(s-(i==j))); nb=fmax(nb,fabs(b[i][j])); na=fmax(na,fabs(c[i][j])); }
      if (!(e<=1e-13*m*m*(1+na*nb)*100)) BAD("inverse of a %dx%d matrix: |A A^-1 - 1| = %g, |A||A^-1| = %g",m,m,e,na*nb); }
    for (i=0;i<m;i++) for (j=0;j<l;j++) x[i][j]=U(-1,1); for (i=0;i<l;i++) for (j=0;j<q;j++) y[i][j]=U(-1,1); for (i=0;i<m;i++) for (j=0;j<q;j++) z[i][j]=99;
    MatrixMult(x,y,m,l,q,z); calls++;
    for (i=0;i<m;i++) for (j=0;j<q;j++) { double s=0; for (k=0;k<l;k++) s+=x[i][k]*y[k][j]; if (!near_(s,z[i][j],1e-13,1e-13)) BAD("product (%dx%d)(%dx%d)",m,l,l,q); }
    free_2d_array(a); free_2d_array(b); free_2d_array(c); free_2d_array(x); free_2d_array(y); free_2d_array(z);
  }
  end();
#endif
  printf("DONE\n");
  return 0;
}
