#include <vc.h>
#include <envire/tools/BresenhamLine.cpp>
using namespace envire;
// representation invariant of a line walk with start (xs,ys), X / Y steps already taken along the axes
struct Ghost { int xs, ys, xe, ye; long X, Y; };
static long labs_(long v) { return v < 0 ? -v : v; }
static bool dir(int s, int a, int b) { return (s == 1 || s == -1) && (a < b ? s == 1 : a > b ? s == -1 : true); }   // direction of travel, any if there is none
static bool inv(Bresenham const& l, Ghost const& g)
{
    long a = labs_((long)g.xe - g.xs), b = labs_((long)g.ye - g.ys);
    long d = g.Y * a - g.X * b;      // a*Y - b*X: deviation from the ideal line, times the major extent
    return l.x1 == g.xe && l.y1 == g.ye && l.dx == a && l.dy == -b
        && dir(l.sx, g.xs, g.xe) && dir(l.sy, g.ys, g.ye)
        && 0 <= g.X && g.X <= a && 0 <= g.Y && g.Y <= b
        && l.x0 == g.xs + l.sx * g.X && l.y0 == g.ys + l.sy * g.Y
        && l.err == (a - b) + d
        && (a >= b ? 2 * d <= a && -a <= 2 * d : 2 * d <= b && -b <= 2 * d)
        && (a > b || b > a || d == 0);
}
static void lim(int v) { vc_assume(v > -100000000 && v < 100000000); }
VC_HARNESS h_init()
{
    Ghost g; g.xs = vc_nondet_int("x0"); g.ys = vc_nondet_int("y0"); g.xe = vc_nondet_int("x1"); g.ye = vc_nondet_int("y1"); g.X = g.Y = 0;
    lim(g.xs); lim(g.ys); lim(g.xe); lim(g.ye);
    Bresenham l((Eigen::Vector2i(0, 0)), Eigen::Vector2i(0, 0));
    l.init(g.xs, g.ys, g.xe, g.ye);
    vc_cover("init");
    vc_assert(l.hasP, "a freshly initialised line has points");
    vc_assert(inv(l, g), "init establishes the line invariant at the start cell");
}
VC_HARNESS h_step()
{
    Ghost g; g.xs = vc_nondet_int("x0"); g.ys = vc_nondet_int("y0"); g.xe = vc_nondet_int("x1"); g.ye = vc_nondet_int("y1");
    g.X = vc_nondet_long("X"); g.Y = vc_nondet_long("Y");
    lim(g.xs); lim(g.ys); lim(g.xe); lim(g.ye);
    Bresenham l((Eigen::Vector2i(0, 0)), Eigen::Vector2i(0, 0));
    vc_havoc(&l, sizeof(l));
    vc_assume(l.hasP); vc_assume(inv(l, g));
    int px = l.x0, py = l.y0;
    int x, y;
    bool r = l.getNextPoint(x, y);
    vc_cover("step");
    vc_assert(r, "a point is delivered while the line has points");
    vc_assert(x == px && y == py, "the delivered point is the current cell");
    bool end = px == g.xe && py == g.ye;
    vc_assert(l.hasP == !end, "the walk stops exactly at the end cell");
    if (!end) {
        Ghost n = g; n.X += l.x0 != px; n.Y += l.y0 != py;
        long a = labs_((long)g.xe - g.xs), b = labs_((long)g.ye - g.ys);
        vc_assert(a >= b ? n.X == g.X + 1 : n.Y == g.Y + 1, "every step advances one cell along the major axis");
        vc_assert(inv(l, n), "a step preserves the line invariant (neighbouring cell, on the line, towards the end)");
    }
}
