#include "native.h"
#include <stdexcept>
#include <iostream>
#include <envire/tools/RadialLookUpTable.hpp>
#include <envire/tools/BoxLookUpTable.hpp>
using namespace envire;
static void radial(RadialLookUpTable& t, double sc, double rad)
{
    CASE(); std::ostringstream c; c.precision(17); c << "radial table, scale " << sc << " radius " << rad; g_ctx = c.str();
    t.recompute(sc, rad); int h = (int)(rad / sc);
    for(int y = -h; y <= h; y++) for(int x = -h; x <= h; x++) {
        CHECK(fabs(t.getDistance(x, y) - sc * sqrt((double)x * x + (double)y * y)) < 1e-9 * (1 + rad), "the distance of a cell", x << "," << y << ": " << t.getDistance(x, y));
        CHECK(fabs(t.getAngle(x, y) - atan2((double)y, (double)x)) < 1e-9, "the angle of a cell", x << "," << y << ": " << t.getAngle(x, y)); }
}
static double dist(double x, double y, double sx, double sy) { double a = std::max(0., fabs(x) - sx / 2), b = std::max(0., fabs(y) - sy / 2); return sqrt(a * a + b * b); }
static void box(BoxLookUpTable& t, double sc, double sx, double sy, double md, bool kept = false)
{
    CASE(); std::ostringstream c; c.precision(17); c << "box table, scale " << sc << " size " << sx << "," << sy << " distance " << md; g_ctx = c.str();
    t.recompute(sc, sx, sy, md);
    for(int i = 0; i < 300; i++) {
        double X = sx / 2 + md, Y = sy / 2 + md, x = rndd(-X, X), y = rndd(-Y, Y); if(i % 10 == 0) x = i % 20 ? -X : -X + 1e-9; if(i % 15 == 0) y = -Y;
        try { double d = t.getDistanceToBox(x, y), e = dist(x, y, sx, sy);
            CHECK(d <= e + 1.5 * sc, "the distance is not larger than that of the cell", x << "," << y << ": " << d << " instead of " << e);
            if(fabs(x) < X - .25 * sc && fabs(y) < Y - .25 * sc) CHECK(d >= e - .3 * sc, "the distance is not smaller than that of the cell", x << "," << y << ": " << d << " instead of " << e);
        } catch(std::runtime_error const&) { CHECK(false, "the table covers the box and the distance around it", x << "," << y); }
    }
    for(int k = 0; k < 8 && !kept; k++) {
        double X = (sx / 2 + md + 1.01 * sc + (k % 3) * 5) * (k & 1 ? 1 : -1), Y = (sy / 2 + md + 1.01 * sc) * (k & 2 ? 1 : -1); if(k >= 4) (k & 1 ? X : Y) = 0; if(k & 1) X += 2 * sc; if(k & 2) Y += 2 * sc;
        bool thrown = false; std::cout.setstate(std::ios::failbit); try { t.getDistanceToBox(X, Y); } catch(std::runtime_error const&) { thrown = true; } std::cout.clear();
        CHECK(thrown, "asking for a distance outside of the table is refused", X << "," << Y);
    }
}
void run_all()
{
    { BoxLookUpTable t; bool thrown = false; try { t.getDistanceToBox(0, 0); } catch(std::runtime_error const&) { thrown = true; } CASE(); CHECK(thrown, "a table that was not computed is refused", ""); }
    RadialLookUpTable t; BoxLookUpTable b;
    for(int i = 0; i < 120 * g_scale; i++) { double sc = i % 3 ? rndd(.05, 2) : .25 * rnd(1, 8); radial(t, sc, i % 4 ? rndd(0, 20) * sc : rnd(0, 12) * sc); if(i % 5 == 0) { RadialLookUpTable u; radial(u, sc, rnd(0, 9) * sc); } }
    radial(t, 1, 5); radial(t, 1, 5); radial(t, 1, 7); radial(t, 2, 7);
    for(int i = 0; i < 120 * g_scale; i++) { double sc = i % 3 ? rndd(.05, 2) : .25 * rnd(1, 8); double sx = rndd(0, 12) * sc, sy = rndd(0, 12) * sc, md = rndd(0, 5) * sc; box(b, sc, sx, sy, md); if(i % 4 == 0) box(b, sc, sx, sy, md * .5, true); if(i % 5 == 0) box(b, sc, sx, sy * 1.5, md); if(i % 5 == 1) box(b, sc, sx * 1.3, sy, md); if(i % 5 == 2) box(b, sc, sx, sy, md * 1.7); if(i % 7 == 0) box(b, sc, sx, sy * .5, md); if(i % 7 == 1) box(b, sc, sx * .4, sy, md); if(i % 7 == 2) box(b, sc * 2, sx, sy, md); if(i % 7 == 3) box(b, sc * .6, sx, sy, md); }
}
