/* Mahalanobis distance and elliptic envelope. MODE 1: all symbolic; MODE 2: a generated model (gen.h) with concrete numbers */
#include "vh.h"
#include <eml_distance.h>
#if MODE == 2
#include "gen.h"
#endif
void harness(void)
{
    VH_ARRAY(float, x, N);
    float x0[N]; for (int i = 0; i < N; i++) { x0[i] = x[i]; }
#if MODE == 1
    VH_ARRAY(float, mean, N);
    VH_BUFFER(float, prec, N * N);
    for (int i = 0; i < N; i++) { for (int j = 0; j <= i; j++) { VH_IN(float, p); prec[i * N + j] = p; prec[j * N + i] = p; } }
    VH_IN(float, boundary);
    float want = 0.0f;
    for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { want += (x[i] - mean[i]) * prec[i * N + j] * (x[j] - mean[j]); } }
    VASSERT(eml_mahalanobis_distance_squared(x, mean, prec, N) == want, "squared Mahalanobis distance");
    EmlEllipticEnvelope m = { N, boundary, mean, prec };
    float dist = 12345.0f;
    const int res = eml_elliptic_envelope_predict(&m, x, N, &dist);
    VASSERT(dist == want, "distance returned");
    VASSERT(res == (-want < boundary ? 1 : 0), "outlier exactly when the negated distance is below the boundary");
    VASSERT(eml_elliptic_envelope_predict(&m, x, N, NULL) == res, "same without distance output");
    VH_IN(int, length); VASSUME(length != N);
    dist = 12345.0f;
    VASSERT(eml_elliptic_envelope_predict(&m, x, length, &dist) < 0, "wrong feature count is an error");
    VASSERT(dist == 12345.0f, "no distance on error");
    if (res) { VH_REACH("outlier"); } else { VH_REACH("inlier"); }
#else
    for (int i = 0; i < N; i++) { VASSUME(x[i] >= -100.0f && x[i] <= 100.0f); }
    double want = 0.0;
    for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) { want += (x[i] - REF_MEANS[i]) * REF_PRECISION[i][j] * (x[j] - REF_MEANS[j]); } }
    VASSERT(GEN(predict)(x, N) == want, "distance of the sample by the generated code");
    float dist = 12345.0f;
    const int res = eml_elliptic_envelope_predict(&GEN(classifier), x, N, &dist);
    VASSERT(dist == want, "distance returned");
    VASSERT(res == (-want < REF_OFFSET ? 1 : 0), "outlier exactly when the negated distance is below the boundary");
    if (res) { VH_REACH("outlier"); } else { VH_REACH("inlier"); }
#endif
    for (int i = 0; i < N; i++) { VASSERT(x[i] == x0[i], "input only read"); }
}
