/* Driver of the interstellar cooling function. Reads lines "d P dt" and prints the rate. */
#include <stdio.h>
#include "defs.h"
#include "athena.h"
#include "globals.h"
#include "prototypes.h"
int main(int c, char **v)
{
  double d, P, dt;
  Gamma = 5.0/3.0; Gamma_1 = Gamma - 1.0; Gamma_2 = Gamma - 2.0;
  while (scanf("%lf %lf %lf", &d, &P, &dt) == 3) printf("%.17g\n", (double)KoyInut((Real)d, (Real)P, (Real)dt));
  return 0;
}
