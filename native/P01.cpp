#include "envmodel.h"
#include <envire/maps/Pointcloud.hpp>
#include <envire/operators/CutPointcloud.hpp>
#include <envire/operators/MergePointcloud.hpp>
typedef Eigen::Vector3d V; typedef Pointcloud PC; typedef std::vector<V> VV;
static V rv(double a) { return V(rndd(-a, a), rndd(-a, a), rndd(-a, a)); }
static Transform tf() { Transform t(Eigen::Affine3d::Identity()); if(rnd(0, 3)) { V r = rv(2); t.linear() = Eigen::AngleAxisd(r.norm(), r / r.norm()).toRotationMatrix(); t.translation() = rv(3); } return t; }
static bool eq(VV const& a, VV const& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!((a[i] - b[i]).norm() < 1e-9)) return false; return true; }
static PC* cloud(int n) { PC* p = new PC; for(int i = 0; i < n; i++) p->vertices.push_back(rnd(0, 2) ? rv(3) : V(rnd(-2, 2), rnd(-2, 2), rnd(-2, 2))); return p; }
static V* col(PC* p, const std::string& k, int i) { return p->hasData(k) ? &p->getVertexData<V>(k)[i] : 0; }
// give the cloud vertex data
static void data(PC* p, int m) { size_t n = p->vertices.size();
    if(m & 1) for(size_t i = 0; i < n; i++) p->getVertexData<V>(PC::VERTEX_NORMAL).push_back(rv(1)); if(m & 2) for(size_t i = 0; i < n; i++) p->getVertexData<V>(PC::VERTEX_COLOR).push_back(rv(1));
    if(m & 4) for(size_t i = 0; i < n; i++) p->getVertexData<PC::attr_flag>(PC::VERTEX_ATTRIBUTES).push_back((PC::attr_flag)rnd(0, 1)); if(m & 8) for(size_t i = 0; i < n; i++) p->getVertexData<double>(PC::VERTEX_VARIANCE).push_back(rndd(0, 1));
    if(m & 1 && !n) p->getVertexData<V>(PC::VERTEX_NORMAL); if(m & 2 && !n) p->getVertexData<V>(PC::VERTEX_COLOR); }
struct Env { Environment* e; std::vector<FrameNode*> F; std::vector<Transform> G; Env() : e(new Environment) { F.push_back(e->getRootNode()); G.push_back(Transform(Eigen::Affine3d::Identity())); for(int i = 0; i < 3; i++) { int p = rnd(0, i); Transform t = tf(); FrameNode* f = new FrameNode(t); F[p]->addChild(f); F.push_back(f); G.push_back(Transform(G[p] * t)); } }
    int put(PC* p) { int f = rnd(0, 3); e->attachItem(p); p->setFrameNode(F[f]); return f; } Transform rel(int a, int b) { return Transform(G[b].inverse() * G[a]); } ~Env() { delete e; } };
static void basics()
{
    CASE(); Env E; PC *a = cloud(rnd(0, 12)), *b = cloud(rnd(0, 5)); int fa = E.put(a), fb = E.put(b); VV old = a->vertices; g_ctx = "cloud";
    PC::Extents x = a->getExtents(); if(old.empty()) CHECK(x.isEmpty(), "without points the extents are empty", ""); else for(int d = 0; d < 3; d++) { double lo = 1e300, hi = -1e300; for(auto& v : old) { lo = std::min(lo, v[d]); hi = std::max(hi, v[d]); } CHECK(x.min()[d] == lo && x.max()[d] == hi, "the extents are the smallest box that contains every point", d); }
    data(b, rnd(0, 15)); bool tr = rnd(0, 1); b->copyFrom(a, tr); VV want; Transform r = tr ? E.rel(fa, fb) : Transform(Eigen::Affine3d::Identity()); for(auto& v : old) want.push_back(r * v); CHECK(eq(b->vertices, want), "a copied cloud has the same points, in its own frame if asked for", tr << " " << old.size()); CHECK(a->vertices == old, "copying keeps the source", "");
    CHECK(!b->hasData(PC::VERTEX_COLOR) || b->getVertexData<V>(PC::VERTEX_COLOR).empty(), "the data of former points is gone", "");
    Transform s = tf(); a->setSensorOrigin(s); CHECK(a->getSensorOrigin().matrix() == s.matrix(), "a cloud keeps its sensor origin", "");
    std::stringstream o; o.precision(17); a->writeText(o); PC c; c.readText(o, 1, PC::XYZ); CHECK(eq(c.vertices, old) || old.empty(), "a cloud written as text is read back", c.vertices.size() << " of " << old.size());
    data(a, 15); a->clear(); CHECK(a->vertices.empty() && a->getVertexData<V>(PC::VERTEX_COLOR).empty() && a->getVertexData<V>(PC::VERTEX_NORMAL).empty() && a->getVertexData<PC::attr_flag>(PC::VERTEX_ATTRIBUTES).empty() && a->getVertexData<double>(PC::VERTEX_VARIANCE).empty(), "clearing removes points and their data", "");
}
static void cut()
{
    CASE(); Env E; PC *a = cloud(rnd(0, 12)), *b = cloud(rnd(0, 3)); int fa = E.put(a), fb = E.put(b), m = rnd(0, 15); data(a, m); data(b, m); std::ostringstream c; c << "cutting, data " << m; g_ctx = c.str();
    CutPointcloud* op = new CutPointcloud; E.e->attachItem(op); op->addInput(a); op->addOutput(b); bool t = false; try { op->addInput(b); } catch(std::runtime_error const&) { t = true; } CHECK(t, "there is one input", ""); t = false; try { op->addOutput(a); } catch(std::runtime_error const&) { t = true; } CHECK(t, "there is one output", "");
    std::vector<ExclusionBox> B(rnd(0, 4)); std::set<int> on; for(size_t i = 0; i < B.size(); i++) { V p = rv(2), q = rv(2); if(rnd(0, 1)) { p = V(rnd(-2, 2), rnd(-2, 2), rnd(-2, 2)); q = V(rnd(-2, 2), rnd(-2, 2), rnd(-2, 2)); } B[i].box = Eigen::AlignedBox<double, 3>(p.cwiseMin(q), p.cwiseMax(q)); if(rnd(0, 2) == 0) B[i].exclude = false; }
    for(int i = 0; i < 8 && B.size(); i++) { int k = rnd(0, B.size() - 1); if(rnd(0, 2)) { op->addBox(&B[k]); on.insert(k); } else { op->removeBox(&B[k]); on.erase(k); } }
    CHECK(op->exclusion_boxes.size() == on.size(), "every box is kept once", ""); VV old = a->vertices; std::vector<Event> ev; op->updateAll(); Transform r = E.rel(fa, fb); size_t k = 0;
    for(size_t i = 0; i < old.size(); i++) { bool in = true; for(int j : on) { bool ins = true; for(int d = 0; d < 3; d++) ins = ins && B[j].box.min()[d] <= old[i][d] && old[i][d] <= B[j].box.max()[d]; if(ins == B[j].exclude) in = false; }
        CHECK(op->isIncluded(old[i]) == in, "a point survives if no excluding box and every including box holds it", old[i].transpose()); if(!in) continue;
        CHECK(k < b->vertices.size() && (b->vertices[k] - r * old[i]).norm() < 1e-9, "the surviving points are in the output, in order and in its frame", i);
        if(m & 1) CHECK((b->getVertexData<V>(PC::VERTEX_NORMAL)[k] - r.linear() * a->getVertexData<V>(PC::VERTEX_NORMAL)[i]).norm() < 1e-9, "normals are turned into the frame of the output", i); if(m & 2) CHECK(*col(b, PC::VERTEX_COLOR, k) == *col(a, PC::VERTEX_COLOR, i), "surviving points keep their colour", i);
        if(m & 4) CHECK(b->getVertexData<PC::attr_flag>(PC::VERTEX_ATTRIBUTES)[k] == a->getVertexData<PC::attr_flag>(PC::VERTEX_ATTRIBUTES)[i], "surviving points keep their attributes", i); if(m & 8) CHECK(b->getVertexData<double>(PC::VERTEX_VARIANCE)[k] == a->getVertexData<double>(PC::VERTEX_VARIANCE)[i], "surviving points keep their variance", i); k++; }
    CHECK(b->vertices.size() == k, "no other points are in the output", b->vertices.size() << " instead of " << k); CHECK(a->vertices == old, "cutting keeps the input", "");
    if(m & 1) CHECK(b->getVertexData<V>(PC::VERTEX_NORMAL).size() == k, "one normal per point", ""); if(m & 2) CHECK(b->getVertexData<V>(PC::VERTEX_COLOR).size() == k, "one colour per point", ""); if(m & 4) CHECK(b->getVertexData<PC::attr_flag>(PC::VERTEX_ATTRIBUTES).size() == k, "one attribute per point", ""); if(m & 8) CHECK(b->getVertexData<double>(PC::VERTEX_VARIANCE).size() == k, "one variance per point", "");
}
static void merge()
{
    CASE(); Env E; int n = rnd(1, 4), m = rnd(0, 3); bool clr = rnd(0, 1), twice = rnd(0, 1); std::ostringstream c; c << "merging " << n << ", data " << m << (clr ? ", cleared" : "") << (twice ? ", twice" : ""); g_ctx = c.str();
    PC* b = cloud(rnd(0, 3)); data(b, m); int fb = E.put(b); VV want, wn, wc; if(!clr) { want = b->vertices; if(m & 1) wn = b->getVertexData<V>(PC::VERTEX_NORMAL); if(m & 2) wc = b->getVertexData<V>(PC::VERTEX_COLOR); }
    MergePointcloud* op = new MergePointcloud; E.e->attachItem(op); op->setClearOutput(clr); op->addOutput(b); bool t = false; try { op->addOutput(b); } catch(std::runtime_error const&) { t = true; } CHECK(t, "there is one output", "");
    std::vector<PC*> A; std::vector<int> f; for(int i = 0; i < n; i++) { A.push_back(cloud(rnd(0, 6))); data(A[i], m); f.push_back(E.put(A[i])); op->addInput(A[i]); }
    for(int r = 0; r <= twice; r++) { if(clr) { want.clear(); wn.clear(); wc.clear(); } op->updateAll();
        // inputs in the order the environment lists them
        for(Layer* l : E.e->getInputs(op)) { int i = std::find(A.begin(), A.end(), l) - A.begin(); Transform x = E.rel(f[i], fb); for(size_t j = 0; j < A[i]->vertices.size(); j++) { want.push_back(x * A[i]->vertices[j]); if(m & 1) wn.push_back(x.linear() * *col(A[i], PC::VERTEX_NORMAL, j)); if(m & 2) wc.push_back(*col(A[i], PC::VERTEX_COLOR, j)); } } }
    CHECK(eq(b->vertices, want), "a merged cloud holds every point of every input, in its frame", b->vertices.size() << " of " << want.size()); if(m & 1) CHECK(eq(b->getVertexData<V>(PC::VERTEX_NORMAL), wn), "normals are turned into the frame of the output", ""); if(m & 2) CHECK(eq(b->getVertexData<V>(PC::VERTEX_COLOR), wc), "merged points keep their colour", "");
}
static void mixed()
{
    CASE(); g_ctx = "merging different data"; Env E; int n = rnd(2, 4), odd = rnd(0, n - 1), k = rnd(1, 2); bool most = rnd(0, 1); PC* b = cloud(0); E.put(b); MergePointcloud* op = new MergePointcloud; E.e->attachItem(op); op->addOutput(b);
    for(int i = 0; i < n; i++) { PC* a = cloud(2); if((i == odd) != most) data(a, k); E.put(a); op->addInput(a); }
    bool t = false; try { op->updateAll(); } catch(std::runtime_error const&) { t = true; } CHECK(t, "merging clouds with different data is refused", odd << " of " << n << (most ? " lacks it" : " has it"));
}
void run_all() { for(int i = 0; i < 600 * g_scale; i++) { basics(); cut(); merge(); if(i % 4 == 0) mixed(); } }
