// families of boundaries that exist for every n: lower bounds follow the diagonal w below, upper bounds v above it (in
// sixteenths of n, 17 or more = no constraint; plus a constant in the hundreds digits), in steps of g equal bounds;
// t and s in [0,1] shift them by up to 1/n
#pragma once
#include <vector>
static inline int shape_width(int w, int n) { return w >= 1000 ? w / 1000 : n * w / 16; }
static inline std::vector<double> shape_lower(int n, int w, int g, double t)
{
    std::vector<double> b(n, 0.0);
    int d = shape_width(w, n);
    for (int i = 0; i < n; ++i) {
        int k = i / g * g - d;
        if (w < 17 || w >= 1000) if (k >= 0) b[i] = (k + t) / n;
    }
    return b;
}
static inline std::vector<double> shape_upper(int n, int w, int g, double s)
{
    std::vector<double> B(n, 1.0);
    int d = shape_width(w, n);
    for (int i = 0; i < n; ++i) {
        int k = i / g * g + d;
        if (w < 17 || w >= 1000) if (k < n) B[i] = (k + s) / n;
    }
    return B;
}
