#include <vc.h>
#include <cmath>
#include <envire/tools/RadialLookUpTable.cpp>
#include <envire/tools/BoxLookUpTable.cpp>
using namespace envire;
static RadialLookUpTable* R; static int gx, gy;      // the cell looked at, arbitrary
static double dist_of(int x, int y) { const double xd = x * R->scale, yd = y * R->scale; return sqrt(xd * xd + yd * yd); }
static double angle_of(int x, int y) { const double xd = x * R->scale, yd = y * R->scale; return atan2(yd, xd); }
static bool dist_ok() { return R->distanceTable[R->numElementsPerLine * gy + gx] == dist_of(gx - R->numElementsPerLineHalf, gy - R->numElementsPerLineHalf); }
static bool angle_ok() { return R->angleTable[R->numElementsPerLine * gy + gx] == angle_of(gx - R->numElementsPerLineHalf, gy - R->numElementsPerLineHalf); }
VC_SPEC bool inv_rng(int y) { return y >= 0; }
VC_SPEC bool inv_rows_d(int y) { return gy >= y || gx >= R->numElementsPerLine || dist_ok(); }
VC_SPEC bool inv_cols_d(int y, int x) { return !(gy < y || (gy == y && gx < x)) || gx >= R->numElementsPerLine || dist_ok(); }
VC_SPEC bool inv_rows_a(int y) { return gy >= y || gx >= R->numElementsPerLine || angle_ok(); }
VC_SPEC bool inv_cols_a(int y, int x) { return !(gy < y || (gy == y && gx < x)) || gx >= R->numElementsPerLine || angle_ok(); }
VC_HARNESS h_radial()
{
    R = (RadialLookUpTable*)vc_fixed_object(1); double sc = vc_nondet_double("scale"), rad = vc_nondet_double("maxRadius"); vc_assume(sc > 0 && rad >= 0 && rad < 10000 * sc); vc_assume(R->scale != sc || R->maxRadius != rad);
    gx = vc_nondet_int("gx"); gy = vc_nondet_int("gy"); vc_assume(gx >= 0 && gy >= 0);
    R->recompute(sc, rad);
    vc_cover("recompute");
    vc_assert(R->scale == sc && R->maxRadius == rad, "the parameters of the table are those asked for");
    int h = R->numElementsPerLineHalf, n = R->numElementsPerLine;
    vc_assert(h * sc <= rad && (h + 1) * sc > rad && n >= 2 * h + 1, "the table covers the radius in both directions");
    vc_assume(gx < n && gy < n);
    vc_assert(dist_ok(), "every entry is the distance of its cell");
    vc_assert(angle_ok(), "every entry is the angle of its cell");
}
VC_HARNESS h_radial_get()
{
    R = (RadialLookUpTable*)vc_fixed_object(1); vc_assume(R->scale > 0); int h = R->numElementsPerLineHalf, n = R->numElementsPerLine; vc_assume(h >= 0 && h < 20000 && n >= 2 * h + 1 && n <= 2 * h + 2);
    int x = vc_nondet_int("x"), y = vc_nondet_int("y"); vc_assume(x >= -h && x <= h && y >= -h && y <= h); gx = x + h; gy = y + h; vc_assume(dist_ok() && angle_ok());
    vc_cover("get");
    vc_assert(R->getDistance(x, y) == dist_of(x, y), "the distance of a cell");
    vc_assert(R->getAngle(x, y) == angle_of(x, y), "the angle of a cell");
}
VC_HARNESS h_radial_again()
{
    R = (RadialLookUpTable*)vc_fixed_object(1); int n = R->numElementsPerLine, h = R->numElementsPerLineHalf; double* d = R->distanceTable, *a = R->angleTable, sc = R->scale, m = R->maxRadius;
    R->recompute(sc, m);
    vc_cover("recompute again");
    vc_assert(n == R->numElementsPerLine && h == R->numElementsPerLineHalf && d == R->distanceTable && a == R->angleTable && sc == R->scale && m == R->maxRadius, "recomputing with the same parameters keeps the table");
}
// --- box table
static BoxLookUpTable* B;
// an entry lies between zero and the largest distance covered (at the corners)
static bool entry_ok() { double v = B->distanceTable[B->cellSizeX * gy + gx], m = B->maxDistFromBox; return v >= 0 && v * v <= 2 * m * m; }
VC_SPEC bool inv_zero_rows(int y) { return gy >= y || gx >= B->cellSizeX || B->distanceTable[B->cellSizeX * gy + gx] == 0; }
VC_SPEC bool inv_zero_cols(int y, int x) { return !(gy < y || (gy == y && gx < x)) || gx >= B->cellSizeX || B->distanceTable[B->cellSizeX * gy + gx] == 0; }
VC_SPEC bool inv_entry() { return gx >= B->cellSizeX || gy >= B->cellSizeY || entry_ok(); }
static int n_computed;
VC_SPEC void c_compute(BoxLookUpTable*) { n_computed++; }
VC_SPEC bool inv_fx(double x) { return x >= -(B->sizeXHalf + B->maxDistFromBox); }
VC_SPEC bool inv_fy(double y) { return y >= -(B->sizeYHalf + B->maxDistFromBox); }
VC_HARNESS h_box()
{
    B = (BoxLookUpTable*)vc_fixed_object(1); double sc = vc_nondet_double("scale"), sx = vc_nondet_double("sizeX"), sy = vc_nondet_double("sizeY"), md = vc_nondet_double("maxDist");
    vc_assume(sc > 0 && sx >= 0 && sy >= 0 && md >= 0 && sx + sy + md < 1000 * sc); bool again = fabs(B->scale - sc) < 0.00001 && fabs(sx - B->sizeX) < 0.00001 && fabs(sy - B->sizeY) < 0.00001 && B->maxDistFromBox + 0.00001 > md; vc_assume(!again);
    n_computed = 0;
    B->recompute(sc, sx, sy, md);
    vc_cover("recompute");
    vc_assert(B->scale == sc && B->sizeX == sx && B->sizeY == sy && B->maxDistFromBox == md && 2 * B->sizeXHalf == sx && 2 * B->sizeYHalf == sy, "the parameters of the table are those asked for");
    vc_assert(B->centerX >= sx / 2 + md && B->cellSizeX * sc >= B->centerX + sx / 2 + md, "the table covers the box and the distance around it in x");
    vc_assert(B->centerY >= sy / 2 + md && B->cellSizeY * sc >= B->centerY + sy / 2 + md, "the table covers the box and the distance around it in y");
    vc_assert(n_computed == 1 && B->cellSizeX >= 1 && B->cellSizeY >= 1, "the table is computed");
}
VC_HARNESS h_box_compute()
{
    B = (BoxLookUpTable*)vc_fixed_object(1); gx = vc_nondet_int("gx"); gy = vc_nondet_int("gy"); 
    vc_assume(B->scale > 0 && B->maxDistFromBox >= 0 && B->sizeXHalf >= 0 && B->sizeYHalf >= 0 && B->cellSizeX >= 1 && B->cellSizeX < 30000 && B->cellSizeY >= 1 && B->cellSizeY < 30000 && B->centerX >= B->sizeXHalf + B->maxDistFromBox && B->centerY >= B->sizeYHalf + B->maxDistFromBox && B->cellSizeX * B->scale >= B->centerX + B->sizeXHalf + B->maxDistFromBox && B->cellSizeY * B->scale >= B->centerY + B->sizeYHalf + B->maxDistFromBox && gx >= 0 && gy >= 0);
    B->computeDistances();
    vc_cover("computeDistances");
    vc_assume(gx < B->cellSizeX && gy < B->cellSizeY);
    vc_assert(entry_ok(), "every entry is a distance within the range covered");
}
VC_HARNESS h_box_again()
{
    B = (BoxLookUpTable*)vc_fixed_object(1); double* d = B->distanceTable, md = vc_nondet_double("maxDist"), m = B->maxDistFromBox, sc = B->scale; int cx = B->cellSizeX, cy = B->cellSizeY; vc_assume(md <= m);
    B->recompute(B->scale, B->sizeX, B->sizeY, md);
    vc_cover("recompute again");
    vc_assert(d == B->distanceTable && m == B->maxDistFromBox && sc == B->scale && cx == B->cellSizeX && cy == B->cellSizeY, "a table that already covers what is asked for is kept");
}
VC_HARNESS h_box_get()
{
    B = (BoxLookUpTable*)vc_fixed_object(1); vc_assume(B->scale > 0 && B->cellSizeX > 0 && B->cellSizeX < 30000 && B->cellSizeY > 0 && B->cellSizeY < 30000);
    double x = vc_nondet_double("x"), y = vc_nondet_double("y"), px = x + B->centerX, py = y + B->centerY, s = B->scale; vc_assume(px > -1000000000 * s && px < 1000000000 * s && py > -1000000000 * s && py < 1000000000 * s);
    bool in = px >= 0 && px < B->cellSizeX * s && py >= 0 && py < B->cellSizeY * s, thrown = false; const double* r = 0; double* t = B->distanceTable;
    gx = vc_nondet_int("gx"); gy = vc_nondet_int("gy"); vc_assume(!in || (gx * s <= px && px < (gx + 1) * s && gy * s <= py && py < (gy + 1) * s));
    try { r = &B->getDistanceToBox(x, y); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("getDistanceToBox");
    vc_assert(thrown == (!t || !in), "asking for a distance is refused exactly outside of the table");
    vc_assert(thrown || r == t + (B->cellSizeX * gy + gx), "the distance is that of the cell that contains the point");
}
