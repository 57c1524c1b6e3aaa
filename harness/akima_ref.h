#ifndef AKIMA_REF_H
#define AKIMA_REF_H
#include "pbt.h"
#include <algorithm>
// Akima's interpolant in long double, straight from the definition.
struct AkimaRef
{
    std::vector<long double> x, y, m, s;
    std::vector<bool> unsure;   // the slope weights vanish up to rounding: any convex combination is right
    AkimaRef(const std::vector<double>& px, const std::vector<double>& py) : x(px.begin(), px.end()), y(py.begin(), py.end())
    {
        size_t n = x.size();
        m.resize(n + 3);
        for (size_t i = 0; i + 1 < n; i++) m[i + 2] = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
        m[1] = 2 * m[2] - m[3];
        m[0] = 2 * m[1] - m[2];
        m[n + 1] = 2 * m[n] - m[n - 1];
        m[n + 2] = 2 * m[n + 1] - m[n];
        s.resize(n);
        unsure.assign(n, false);
        for (size_t i = 0; i < n; i++)
        {
            // slope at point i from m1 m2 | m3 m4
            long double m1 = m[i], m2 = m[i + 1], m3 = m[i + 2], m4 = m[i + 3];
            long double a = fabsl(m4 - m3), b = fabsl(m2 - m1);
            // error of the differences as evaluated in double
            long double yerr = 0;
            for (size_t k = i >= 3 ? i - 3 : 0; k < n && k <= i + 3; k++) yerr = std::max(yerr, fabsl(y[k]));
            long double dx = 1e4000L;
            for (size_t k = i >= 3 ? i - 3 : 0; k + 1 < n && k <= i + 3; k++) dx = std::min(dx, x[k + 1] - x[k]);
            long double noise = 1e-15L * 8 * (fabsl(m1) + fabsl(m2) + fabsl(m3) + fabsl(m4) + yerr / dx);
            if (a + b == 0) s[i] = (m2 + m3) / 2;
            else
            {
                s[i] = (a * m2 + b * m3) / (a + b);
                // weights are known to noise/(a+b)
                if (noise > 1e-7L * (a + b)) unsure[i] = true;
            }
            if (a + b == 0 && noise > 0 && !(m1 == m2 && m3 == m4)) unsure[i] = true;
        }
    }
    size_t interval(double v) const
    {
        size_t i = (size_t)(std::upper_bound(x.begin(), x.end(), (long double)v) - x.begin());
        if (i == x.size()) i--;
        return i ? i - 1 : 0;
    }
    long double value(size_t i, long double v) const
    {
        long double h = x[i + 1] - x[i], t = (v - x[i]) / h;
        // Hermite form
        long double h00 = (1 + 2 * t) * (1 - t) * (1 - t), h10 = t * (1 - t) * (1 - t), h01 = t * t * (3 - 2 * t), h11 = t * t * (t - 1);
        return h00 * y[i] + h10 * h * s[i] + h01 * y[i + 1] + h11 * h * s[i + 1];
    }
    // how far a double evaluation may be off in interval i
    long double tol(size_t i) const
    {
        long double h = x[i + 1] - x[i];
        long double sc = fabsl(y[i]) + fabsl(y[i + 1]) + h * (fabsl(s[i]) + fabsl(s[i + 1]));
        for (int k = -2; k <= 3; k++)
        {
            long long q = (long long)i + k;
            if (q >= 0 && q < (long long)y.size()) sc += 1e-3L * fabsl(y[(size_t)q]);
        }
        long double ns = 0;
        for (size_t k = i; k <= i + 4 && k < m.size(); k++) ns += fabsl(m[k]);
        long double cond = 1e-7L * 0;
        return 1e-12L * (sc + h * ns) + cond;
    }
    // when a slope is only known to be between its neighbouring chord slopes
    long double slack(size_t i) const
    {
        long double h = x[i + 1] - x[i], r = 0;
        if (unsure[i]) r += h * fabsl(m[i + 2] - m[i + 1]);
        if (unsure[i + 1]) r += h * fabsl(m[i + 3] - m[i + 2]);
        return r * (4.0L / 27 + 0.01L);
    }
};
#endif
