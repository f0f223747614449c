// Reference lens distortion in double precision, from the published formulae, with a Newton inverse. Shared by C23 and C25.
#pragma once
#include <cmath>
#include <array>
struct RD { // kind: 0 none, 1 Brown-Conrady (k1 k2 k3 p1 p2), 2 OpenCV (k1..k6 p1 p2 s1..s4), 3 Owen (e1..e6)
    int kind = 0; std::array<double, 12> c{};
    static double radial(double a, double b, double d, double r2) { return a * r2 + b * r2 * r2 + d * r2 * r2 * r2; }
    void fwd(double x, double y, double& u, double& v) const
    {
        double r2 = x * x + y * y; u = x; v = y;
        if (kind == 1) { double k = 1 + radial(c[0], c[1], c[2], r2); u = k * x + 2 * c[3] * x * y + c[4] * (r2 + 2 * x * x); v = k * y + c[3] * (r2 + 2 * y * y) + 2 * c[4] * x * y; }
        if (kind == 2) { double k = (1 + radial(c[0], c[1], c[2], r2)) / (1 + radial(c[3], c[4], c[5], r2)); u = k * x + 2 * c[6] * x * y + c[7] * (r2 + 2 * x * x) + c[8] * r2 + c[9] * r2 * r2; v = k * y + c[6] * (r2 + 2 * y * y) + 2 * c[7] * x * y + c[10] * r2 + c[11] * r2 * r2; }
        if (kind == 3) { double r = std::sqrt(r2), k = 1 + c[1] * r2 + c[3] * r2 * r2 + c[4] * y + c[5] * x, w = c[0] * r + c[2] * r * r2; u = k * x - w * y; v = k * y + w * x; }
    }
    bool inv(double u, double v, double& x, double& y) const
    {
        x = u; y = v; if (!kind) return true;
        for (int i = 0; i < 60; ++i) { double a, b, ax, bx, ay, by, h = 1e-6; fwd(x, y, a, b); fwd(x + h, y, ax, bx); fwd(x, y + h, ay, by); double j00 = (ax - a) / h, j10 = (bx - b) / h, j01 = (ay - a) / h, j11 = (by - b) / h, det = j00 * j11 - j01 * j10; if (!(std::fabs(det) > 1e-6)) return false; double e = u - a, f = v - b; x += (e * j11 - f * j01) / det; y += (f * j00 - e * j10) / det; if (e * e + f * f < 1e-26) return true; }
        double a, b; fwd(x, y, a, b); return std::hypot(a - u, b - v) < 1e-10;
    }
    // largest singular value of d(delta)/d(point): the inversion by fixed-point iteration contracts when below one
    double contraction(double x, double y) const
    {
        double a, b, ax, bx, ay, by, h = 1e-6; fwd(x, y, a, b); fwd(x + h, y, ax, bx); fwd(x, y + h, ay, by); double j00 = (ax - a) / h - 1, j10 = (bx - b) / h, j01 = (ay - a) / h, j11 = (by - b) / h - 1; double s = j00 * j00 + j01 * j01 + j10 * j10 + j11 * j11, d = j00 * j11 - j01 * j10; return std::sqrt((s + std::sqrt(std::max(0.0, s * s - 4 * d * d))) / 2);
    }
};
