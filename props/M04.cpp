#include <vc.h>
#include <envire/maps/GridBase.cpp>
#include <envire/maps/Grid.hpp>
namespace envire { template class Grid<uint8_t>; }
#include <envire/maps/TraversabilityGrid.cpp>
using namespace envire;
typedef Grid<uint8_t> G; typedef G::ArrayType A; typedef TraversabilityClass TC; typedef TraversabilityStatistic TS;
static TraversabilityGrid* g; static A* ARR[2]; static TC* CL; static long NCL;
static uint8_t* BASE(int b) { return ((boost::multi_array_ref<uint8_t, 2>*)ARR[b])->base_; }
static void lay(A* a, void* d)
{
    a->extent_list_.elems[0] = g->cellSizeY; a->extent_list_.elems[1] = g->cellSizeX; a->stride_list_.elems[0] = g->cellSizeX; a->stride_list_.elems[1] = 1; a->index_base_list_.elems[0] = 0; a->index_base_list_.elems[1] = 0; a->origin_offset_ = 0; a->directional_offset_ = 0;
    a->num_elements_ = g->cellSizeX * g->cellSizeY; ((boost::multi_array_ref<uint8_t, 2>*)a)->base_ = (uint8_t*)d;
}
// a traversability grid with NCL classes at CL
static void mk()
{
    g = (TraversabilityGrid*)vc_fixed_object(1); vc_assume(g->scalex > 0 && g->scaley > 0 && g->cellSizeX < 1000000 && g->cellSizeY < 1000000);
    ARR[0] = (A*)vc_fixed_object(2); ARR[1] = (A*)vc_fixed_object(3); lay(ARR[0], vc_fixed_object(4)); lay(ARR[1], vc_fixed_object(5));
    CL = (TC*)vc_fixed_object(6); NCL = vc_nondet_long("classes"); vc_assume(NCL >= 0 && NCL <= 256);
    g->traversabilityClasses._M_impl._M_start = CL; g->traversabilityClasses._M_impl._M_finish = CL + NCL; g->traversabilityClasses._M_impl._M_end_of_storage = CL + 256;
    if(g->traversabilityArray) g->traversabilityArray = ARR[0];
    if(g->probabilityArray) g->probabilityArray = ARR[1];
}
VC_SPEC A* c_data(Layer const*, std::string const& k) { vc_assert(&k == &TraversabilityGrid::TRAVERSABILITY || &k == &TraversabilityGrid::PROBABILITY, "the bands of the grid are used"); return &k == &TraversabilityGrid::TRAVERSABILITY ? ARR[0] : ARR[1]; }
VC_SPEC A* c_resize(A* a, void*) { vc_assert(a == ARR[0] || a == ARR[1], "a band of the grid is given its size"); return a; }
VC_SPEC void c_classes_resize(std::vector<TC>* v, size_t n)
{
    vc_assert(v == &g->traversabilityClasses, "the list of classes is resized"); vc_assert(n <= 256, "at most 256 classes");
    for(int once = 0; once < 1; once++) if((long)n > NCL) { long j = vc_nondet_long("new class"); vc_assume(j >= NCL && j < (long)n); vc_assume(CL[j].drivability == -1); }
    v->_M_impl._M_finish = v->_M_impl._M_start + n; v->_M_impl._M_end_of_storage = v->_M_impl._M_start + 256;
}
// --- classes
VC_HARNESS h_class()
{
    double d = vc_nondet_double("drivability"); bool thrown = false, set = false, tr = false; double dd = 0;
    try { TC c(d); set = c.isSet(); tr = c.isTraversable(); dd = c.getDrivability(); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("TraversabilityClass");
    vc_assert(!(d >= 0 && d <= 1) || !thrown, "every drivability from zero to one is accepted");
    vc_assert(!(d < 0 || d > 1.0001) || thrown, "a drivability outside of zero to one is refused");
    vc_assert(thrown || (set && dd == d && tr == (d > 0)), "a class has the drivability it was given");
    TC u; vc_assert(!u.isSet() && !u.isTraversable() && u.getDrivability() == 0, "a class without drivability is not set and not traversable");
}
VC_HARNESS h_class_set()
{
    mk(); uint8_t num = vc_nondet_int("num"); TC k; k.drivability = vc_nondet_double("drivability"); long j = vc_nondet_long("other"); vc_assume(j >= 0 && j < NCL && j != num); double o = CL[j].drivability; size_t t = g->traversabilityArray == 0;
    g->setTraversabilityClass(num, k);
    vc_cover("setTraversabilityClass");
    vc_assert((long)g->traversabilityClasses.size() == (NCL > num ? NCL : num + 1), "the class becomes known, none is forgotten");
    vc_assert(CL[num].drivability == k.drivability && g->getTraversabilityClass(num).drivability == k.drivability, "the class is the one given");
    vc_assert(CL[j].drivability == o && &g->getTraversabilityClass(j) == CL + j, "other classes are not changed");
}
VC_HARNESS h_class_get()
{
    mk(); uint8_t num = vc_nondet_int("num"); bool thrown = false; const TC* r = 0;
    try { r = &g->getTraversabilityClass(num); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("getTraversabilityClass");
    vc_assert(thrown == (num >= NCL), "asking for an unknown class is refused"); vc_assert(thrown || r == CL + num, "the class with this number");
}
VC_HARNESS h_register()
{
    mk(); uint8_t id = vc_nondet_int("id"), id0 = id; TC k; k.drivability = vc_nondet_double("drivability"); long j = vc_nondet_long("other"); vc_assume(j >= 0 && j < NCL); double o = CL[j].drivability;
    bool ok = g->registerNewTraversabilityClass(id, k);
    vc_cover("registerNewTraversabilityClass");
    vc_assert(ok || NCL >= 255, "registering fails only if the grid is full"); vc_assert(!ok || id >= NCL, "a new class gets a number that was not in use");
    vc_assert(!ok || (id < g->traversabilityClasses.size() && CL[id].drivability == k.drivability), "a new class is known under its number"); vc_assert(CL[j].drivability == o, "other classes are not changed");
}
// --- cells
VC_HARNESS h_cell()
{
    mk(); size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY); long e = vc_nondet_long("other"); long at = y * g->cellSizeX + x; vc_assume(e >= 0 && e != at);
    uint8_t k = vc_nondet_int("class"), o = BASE(0)[e], p = BASE(1)[at]; vc_assume(k < NCL);
    g->setTraversability(k, x, y);
    vc_cover("setTraversability");
    vc_assert(BASE(0)[at] == k && BASE(0)[e] == o && BASE(1)[at] == p, "the class of this cell and nothing else is set");
    vc_assert(&((const TraversabilityGrid*)g)->getTraversability(x, y) == CL + k, "the class of a cell is the one that was set");
}
VC_HARNESS h_prob()
{
    mk(); size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY); long e = vc_nondet_long("other"); long at = y * g->cellSizeX + x; vc_assume(e >= 0 && e != at);
    double p = vc_nondet_double("probability"); vc_assume(p >= 0 && p <= 1); uint8_t o = BASE(1)[e], k = BASE(0)[at];
    g->setProbability(p, x, y); double r = ((const TraversabilityGrid*)g)->getProbability(x, y);
    vc_cover("setProbability");
    vc_assert(BASE(1)[e] == o && BASE(0)[at] == k, "the probability of this cell and nothing else is set");
    vc_assert(r <= p && 255 * (p - r) < 1, "a probability is kept up to the resolution of the cell"); vc_assert(p != 1 || r == 1, "certainty is kept");
}
VC_HARNESS h_both()
{
    mk(); size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY); double p = vc_nondet_double("probability"); vc_assume(p >= 0 && p <= 1); uint8_t k = vc_nondet_int("class"); vc_assume(k < NCL);
    g->setTraversabilityAndProbability(k, p, x, y); double r = g->getProbability(x, y);
    vc_cover("setTraversabilityAndProbability");
    vc_assert(r <= p && 255 * (p - r) < 1 && &g->getTraversability(x, y) == CL + k, "class and probability of the cell are set");
}
VC_HARNESS h_probability_cb()
{
    mk(); size_t x = vc_nondet_size("x"), y = vc_nondet_size("y"); vc_assume(x < g->cellSizeX && y < g->cellSizeY); double w = vc_nondet_double("worst"), w0 = w, p = g->getProbability(x, y);
    g->probabilityCallback(x, y, w);
    vc_cover("probabilityCallback");
    vc_assert(w <= w0 && w <= p && (w == w0 || w == p), "the worst probability is the smallest one seen"); vc_assert(p >= 0 && p <= 1, "a probability is from zero to one");
}
// --- statistics
static double* DIST; static size_t* CNT; static int n_rs;
VC_SPEC void c_resize_d(std::vector<double>* v, size_t n, double const& d) { vc_assert(n >= 256 && d == std::numeric_limits<double>::max(), "there is a distance for every class"); n_rs++; v->_M_impl._M_start = DIST; v->_M_impl._M_finish = DIST + n; }
VC_SPEC void c_resize_s(std::vector<size_t>* v, size_t n) { vc_assert(n >= 256, "there is a counter for every class"); n_rs++; v->_M_impl._M_start = CNT; v->_M_impl._M_finish = CNT + n; }
VC_SPEC void* c_print(void* o, void*) { return o; }
VC_SPEC void c_dtor(TS*) { }
static void mkstat() { DIST = (double*)vc_fixed_object(8); CNT = (size_t*)vc_fixed_object(9); }
VC_HARNESS h_stat_new()
{
    mkstat(); n_rs = 0; TS t;
    vc_cover("TraversabilityStatistic");
    vc_assert(n_rs == 2 && t.getTotalCount() == 0 && t.getHighestTraversabilityClass() == 0 && t.counts.size() >= 256 && t.minDistance.size() >= 256, "a new statistic is empty and has room for every class");
}
VC_HARNESS h_stat_add()
{
    mkstat(); TS t; t.countTotal = vc_nondet_size("total"); t.highestTraversabilityClass = vc_nondet_int("highest"); uint8_t h = t.highestTraversabilityClass, k = vc_nondet_int("class"), j = vc_nondet_int("other"); vc_assume(j != k); size_t n = t.countTotal, c = CNT[k], cj = CNT[j]; double d = vc_nondet_double("distance"), dk = DIST[k], dj = DIST[j];
    vc_assume(n < 1000000000 && c < 1000000000);
    t.addMeasurement(k, d);
    vc_cover("addMeasurement");
    vc_assert(t.getTotalCount() == n + 1 && t.getClassCount(k) == c + 1, "the measurement is counted"); double r; size_t rc; t.getStatisticForClass(k, r, rc);
    vc_assert(rc == c + 1 && r == (d < dk ? d : dk), "the smallest distance of the class is kept"); t.getStatisticForClass(j, r, rc);
    vc_assert(rc == cj && r == dj && t.getClassCount(j) == cj, "other classes are not changed"); vc_assert(t.getHighestTraversabilityClass() == (k > h ? k : h), "the highest class seen is kept");
}
static long n_cs, gk, n_seen; static bool known;
static bool unseen(long k, void*) { return k <= gk || k > 255 || CNT[k] == 0; }
static bool all_known(long k, void*) { return k < 0 || k > 255 || k < NCL || CNT[k] == 0; }
VC_SPEC void c_compute(TraversabilityGrid const*, base::Pose2D const*, double, double, TS& s)
{
    n_cs++; s.countTotal = vc_nondet_size("total"); uint8_t h = vc_nondet_int("highest"); s.highestTraversabilityClass = h; gk = h; 
    vc_assume(vc_forall_int(unseen, 0));
    if(!vc_forall_int(all_known, 0)) known = false;
}
static double drv(long k) { double d = CL[k].drivability; return d < 0 ? 0 : d; }
static long gc;     // an arbitrary class that was seen
VC_SPEC bool inv_rng(int i) { return i >= 0; }
VC_SPEC bool inv_seen(double cur, int i) { return i <= gc || CNT[gc] == 0 || cur <= drv(gc); }
VC_SPEC bool inv_cur(double cur, int cls) { return cls < 0 || (cls <= 255 && cls < NCL && CNT[cls] != 0 && cur == drv(cls)); }
VC_SPEC bool inv_none(int i, int cls) { return cls >= 0 || i <= gc || CNT[gc] == 0; }
VC_SPEC bool inv_lo(double cur, int cls) { return cls >= -1 && (cls >= 0 || cur == std::numeric_limits<double>::max()); }
VC_HARNESS h_worst()
{
    mk(); mkstat(); known = true; n_cs = 0; gc = vc_nondet_long("class"); vc_assume(gc >= 0 && gc <= 255); long e = vc_nondet_long("e"); 
    base::Pose2D* pose = (base::Pose2D*)vc_fixed_object(10); const TC* r = 0; bool thrown = false; vc_assume(gc >= NCL || CL[gc].drivability < std::numeric_limits<double>::max());
    try { r = &g->getWorstTraversabilityClassInRectangle(*pose, vc_nondet_double("sizeX"), vc_nondet_double("sizeY")); } catch(std::runtime_error const&) { thrown = true; }
    vc_cover("getWorstTraversabilityClassInRectangle");
    vc_assert(n_cs == 1, "the statistic of the rectangle is used");
    vc_assert(thrown || (r >= CL && r < CL + NCL && CNT[r - CL] > 0), "the worst class is one that was seen");
    vc_assert(thrown || CNT[gc] == 0 || gc >= NCL || r->getDrivability() <= drv(gc), "no class that was seen is worse");
    vc_assert(!thrown || !known || CNT[gc] == 0, "there is a worst class if any class was seen and all are known");
}
