#include "ska-sdp-func/utility/sdp_sky_coord.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static double rnd(void) { return (rand() / (double) RAND_MAX - 0.5) * 2000.; }
#define CHECK(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); return 1; } } while (0)
int main(int argc, char** argv)
{
    int seed = argc > 1 ? atoi(argv[1]) : 1;
    srand(seed);
    enum { N = 20 };
    for (int round = 0; round < 50; ++round)
    {
        sdp_SkyCoord* c[N]; double v[N][3], ep[N]; char* ty[N];
        for (int i = 0; i < N; ++i)
        {
            int len = rand() % 60;
            ty[i] = (char*) malloc(len + 1);
            for (int k = 0; k < len; ++k) ty[i][k] = 'a' + rand() % 26;
            ty[i][len] = 0;
            for (int k = 0; k < 3; ++k) v[i][k] = rnd();
            char* s = strdup(ty[i]);
            c[i] = sdp_sky_coord_create(s, v[i][0], v[i][1], v[i][2]);
            memset(s, 'X', len); free(s);
            ep[i] = 2000.;
        }
        int freed[N] = {0};
        for (int step = 0; step < 200; ++step)
        {
            int i = rand() % N;
            if (freed[i]) continue;
            int d = rand() % 9 - 3;
            if (rand() % 20 == 0) d = (rand() % 2 ? 1 : -1) * (1 << 30);
            double want = d >= 0 && d < 3 ? v[i][d] : 0.;
            CHECK(sdp_sky_coord_value(c[i], d) == want, "value(%d) = %.17g, expected %.17g (coordinate %d of %d, seed %d)", d,
                    sdp_sky_coord_value(c[i], d), want, i, N, seed);
            CHECK(sdp_sky_coord_epoch(c[i]) == ep[i], "epoch = %.17g, expected %.17g (seed %d)", sdp_sky_coord_epoch(c[i]), ep[i], seed);
            CHECK(sdp_sky_coord_type(c[i]) && !strcmp(sdp_sky_coord_type(c[i]), ty[i]), "type = '%s', expected '%s' (seed %d)",
                    sdp_sky_coord_type(c[i]) ? sdp_sky_coord_type(c[i]) : "(null)", ty[i], seed);
            if (rand() % 3 == 0) { ep[i] = rand() % 4 ? 1900. + rand() % 200 : rnd(); sdp_sky_coord_set_epoch(c[i], ep[i]); }
            if (rand() % 30 == 0) { sdp_sky_coord_free(c[i]); freed[i] = 1; }
        }
        for (int i = 0; i < N; ++i) { if (!freed[i]) sdp_sky_coord_free(c[i]); free(ty[i]); }
    }
    sdp_sky_coord_free(0); sdp_sky_coord_set_epoch(0, 1.);
    CHECK(sdp_sky_coord_value(0, 0) == 0. && sdp_sky_coord_epoch(0) == 0. && sdp_sky_coord_type(0) == 0, "null coordinate");
    return 0;
}
