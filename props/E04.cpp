#include "env.h"
#define IN (&G.env->operatorGraphInput)
#define OUT (&G.env->operatorGraphOutput)
#define CIN(o, l) vc_mm_count(IN, o, l)
#define COUT_(o, l) vc_mm_count(OUT, o, l)
#define OIN(o, l) vc_mm_count(G.s_in, o, l)
#define OOUT(o, l) vc_mm_count(G.s_out, o, l)
// representation invariant: every connection is stored once, and connected operators and layers belong to this environment
static bool wf()
{
    return vc_forall_ptr2([](void* o, void* l, void*) { return CIN(o, l) <= 1 && COUT_(o, l) <= 1 && (CIN(o, l) + COUT_(o, l) == 0 || (o != NULL && l != NULL && ((Operator*)o)->env == G.env && ((Layer*)l)->env == G.env)); }, NULL);
}
static bool in_frame() { return vc_forall_ptr2([](void* o, void* l, void*) { return (o == G.op && l == G.lp) || CIN(o, l) == OIN(o, l); }, NULL); }
static bool out_frame() { return vc_forall_ptr2([](void* o, void* l, void*) { return (o == G.op && l == G.lp) || COUT_(o, l) == OOUT(o, l); }, NULL); }
static void pre()
{
    mkenv(); G.op = item<Operator>("operator"); G.lp = item<Layer>("layer"); vc_assume((void*)G.op != (void*)G.lp);
    vc_assume(wf()); snap_all();
}
static bool rest() { return same_tree() && same_layers() && same_maps(); }
static bool all_same() { return same_in() && same_out() && rest() && G.nev == 0 && G.nattach == 0; }
VC_SPEC bool inv_in_notseen(void* it) { return vc_mm_prefix(IN, it, G.op, G.lp) == 0; }
VC_SPEC bool inv_out_notseen(void* it) { return vc_mm_prefix(OUT, it, G.op, G.lp) == 0; }
VC_SPEC bool inv_same() { return all_same(); }
static void pre_add() { vc_assume(G.op->env == NULL || G.op->env == G.env); vc_assume(G.lp->env == NULL || G.lp->env == G.env); }
VC_HARNESS h_addInput()
{
    pre(); pre_add(); bool had = OIN(G.op, G.lp) > 0;
    bool r = G.env->addInput(G.op, G.lp);
    vc_cover("addInput");
    vc_assert(CIN(G.op, G.lp) == 1, "after adding an input the connection exists exactly once");
    vc_assert(r == !had, "addInput tells whether the connection is new");
    vc_assert(in_frame() && same_out() && rest(), "adding an input changes nothing else");
    vc_assert(G.op->env == G.env && G.lp->env == G.env, "connected operator and layer are attached");
    vc_assert(wf(), "adding an input preserves the invariant");
}
VC_HARNESS h_addOutput()
{
    pre(); pre_add(); bool had = OOUT(G.op, G.lp) > 0;
    bool r = G.env->addOutput(G.op, G.lp);
    vc_cover("addOutput");
    vc_assert(COUT_(G.op, G.lp) == 1, "after adding an output the connection exists exactly once");
    vc_assert(r == !had, "addOutput tells whether the connection is new");
    vc_assert(out_frame() && same_in() && rest(), "adding an output changes nothing else");
    vc_assert(G.op->env == G.env && G.lp->env == G.env, "connected operator and layer are attached");
    vc_assert(wf(), "adding an output preserves the invariant");
}
static bool rest_ev() { return rest() && G.nev == 0 && G.nattach == 0; }
VC_SPEC bool inv_rm_in(void* it) { return vc_mm_prefix(IN, it, G.op, G.lp) == 0 && CIN(G.op, G.lp) <= 1 && in_frame() && same_out() && rest_ev(); }
VC_SPEC bool inv_rm_out(void* it) { return vc_mm_prefix(OUT, it, G.op, G.lp) == 0 && COUT_(G.op, G.lp) <= 1 && out_frame() && same_in() && rest_ev(); }
VC_HARNESS h_removeInput()
{
    pre(); G.env->removeInput(G.op, G.lp);
    vc_cover("removeInput");
    vc_assert(CIN(G.op, G.lp) == 0, "after removing an input the connection is gone");
    vc_assert(in_frame() && same_out() && rest(), "removing an input changes nothing else");
}
VC_HARNESS h_removeOutput()
{
    pre(); G.env->removeOutput(G.op, G.lp);
    vc_cover("removeOutput");
    vc_assert(COUT_(G.op, G.lp) == 0, "after removing an output the connection is gone");
    vc_assert(out_frame() && same_in() && rest(), "removing an output changes nothing else");
}
VC_HARNESS h_removeAll()
{
    pre(); G.op->env = G.env;
    G.op->removeInputs();
    vc_assert(vc_forall_ptr2([](void* o, void* l, void*) { return CIN(o, l) == (o == G.op ? 0 : OIN(o, l)); }, NULL), "removeInputs removes exactly the inputs of the operator");
    vc_assert(same_out() && rest(), "removeInputs changes nothing else");
    G.op->removeOutputs();
    vc_cover("removeAll");
    vc_assert(vc_forall_ptr2([](void* o, void* l, void*) { return COUT_(o, l) == (o == G.op ? 0 : OOUT(o, l)); }, NULL), "removeOutputs removes exactly the outputs of the operator");
    vc_assert(rest(), "removeOutputs changes nothing else");
}
struct X { void* it; void* l; };
VC_SPEC bool inv_inputs(void* it, void* l) { X c = { it, l }; return vc_size(l) == vc_mm_keyprefix(IN, it, G.op) && vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == vc_mm_prefix(IN, x->it, G.op, v); }, &c); }
VC_SPEC bool inv_outputs(void* it, void* l) { X c = { it, l }; return vc_size(l) == vc_mm_keyprefix(OUT, it, G.op) && vc_forall_ptr([](void* v, void* c) { X* x = (X*)c; return vc_list_count(x->l, v) == vc_mm_prefix(OUT, x->it, G.op, v); }, &c); }
VC_HARNESS h_getInputs()
{
    pre(); std::list<Layer*> r = G.env->getInputs(G.op);
    vc_cover("getInputs");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OIN(G.op, v); }, &r), "the inputs of an operator are exactly those added, each once");
    vc_assert((long)r.size() == vc_mm_keycount(IN, G.op), "as many inputs are listed as there are connections");
    vc_assert(all_same(), "getInputs changes nothing");
}
VC_HARNESS h_getOutputs()
{
    pre(); std::list<Layer*> r = G.env->getOutputs(G.op);
    vc_cover("getOutputs");
    vc_assert(vc_forall_ptr([](void* v, void* l) { return vc_list_count(l, v) == OOUT(G.op, v); }, &r), "the outputs of an operator are exactly those added, each once");
    vc_assert((long)r.size() == vc_mm_keycount(OUT, G.op), "as many outputs are listed as there are connections");
    vc_assert(all_same(), "getOutputs changes nothing");
}
// nothing before the iterator generates the layer
VC_SPEC bool inv_gen(void* it) { return vc_forall_ptr([](void* o, void* it) { return vc_mm_prefix(OUT, it, o, G.lp) == 0; }, it); }
static bool generates(Operator* r) { return r == NULL ? vc_forall_ptr([](void* o, void*) { return OOUT(o, G.lp) == 0; }, NULL) : OOUT(r, G.lp) >= 1; }
VC_HARNESS h_getGenerator()
{
    pre(); Operator* r = G.env->getGenerator(G.lp);
    vc_cover("getGenerator");
    vc_assert(generates(r), "the generator of a layer is an operator with that output, or none if there is none");
    vc_assert(all_same(), "getGenerator changes nothing");
}
VC_HARNESS h_layer_gen()
{
    pre(); G.lp->env = G.env; const Layer* l = G.lp;
    Operator* g = l->getGenerator(); bool is = l->isGenerated();
    vc_cover("Layer::getGenerator");
    vc_assert(generates(g), "a layer reports its generator");
    vc_assert(is == (g != NULL), "a layer is generated exactly if it has a generator");
}
// --- the operator's own interface (arity)
VC_HARNESS h_op_addInput()
{
    pre(); G.op->env = G.env; vc_assume(G.lp->env == NULL || G.lp->env == G.env);
    int ar = G.op->inputArity; vc_assume(ar >= 0); long n = vc_mm_keycount(IN, G.op); bool threw = false;
    try { G.op->addInput(G.lp); } catch (...) { threw = true; }
    vc_cover("Operator::addInput");
    vc_assert(threw == (ar != 0 && n >= ar), "an operator refuses inputs beyond its arity");
    vc_assert(threw ? same_in() : CIN(G.op, G.lp) == 1, "the input is connected unless refused");
    vc_assert(ar == 0 || n > ar || vc_mm_keycount(IN, G.op) <= ar, "the number of inputs never exceeds the arity");
    vc_assert(in_frame() && same_out(), "no other connection changes");
}
VC_HARNESS h_op_addOutput()
{
    pre(); G.op->env = G.env; vc_assume(G.lp->env == NULL || G.lp->env == G.env);
    int ar = G.op->outputArity; vc_assume(ar >= 0); long n = vc_mm_keycount(OUT, G.op); bool threw = false;
    try { G.op->addOutput(G.lp); } catch (...) { threw = true; }
    vc_cover("Operator::addOutput");
    vc_assert(threw == (ar != 0 && n >= ar), "an operator refuses outputs beyond its arity");
    vc_assert(threw ? same_out() : COUT_(G.op, G.lp) == 1, "the output is connected unless refused");
    vc_assert(ar == 0 || n > ar || vc_mm_keycount(OUT, G.op) <= ar, "the number of outputs never exceeds the arity");
    vc_assert(out_frame() && same_in(), "no other connection changes");
}
static void pre_set() { pre(); G.op->env = G.env; vc_assume(G.lp->env == NULL || G.lp->env == G.env); vc_assume(G.op->inputArity >= 0 && G.op->outputArity >= 0); }
VC_HARNESS h_op_setInput()
{
    pre_set(); G.op->setInput(G.lp);
    vc_cover("Operator::setInput");
    vc_assert(vc_forall_ptr2([](void* o, void* l, void*) { return CIN(o, l) == (o == G.op ? (l == G.lp ? 1 : 0) : OIN(o, l)); }, NULL), "setInput makes the layer the only input"); vc_assert(same_out(), "setInput changes no output");
}
VC_HARNESS h_op_setOutput()
{
    pre_set(); G.op->setOutput(G.lp);
    vc_cover("Operator::setOutput");
    vc_assert(vc_forall_ptr2([](void* o, void* l, void*) { return COUT_(o, l) == (o == G.op ? (l == G.lp ? 1 : 0) : OOUT(o, l)); }, NULL), "setOutput makes the layer the only output"); vc_assert(same_in(), "setOutput changes no input");
}
VC_HARNESS h_op_remove()
{
    pre(); G.op->env = G.env; bool which = vc_nondet_bool("which");
    if (which) G.op->removeInput(G.lp); else G.op->removeOutput(G.lp);
    vc_cover("Operator::remove");
    vc_assert(which ? CIN(G.op, G.lp) == 0 && same_out() : COUT_(G.op, G.lp) == 0 && same_in(), "the operator drops the connection");
    vc_assert(which ? in_frame() : out_frame(), "no other connection changes");
}
// getGenerator under its contract (proved by h_getGenerator): a fixed generator exists or there is none
VC_SPEC Operator* c_generator(Environment* e, Layer* l) { vc_assert(e == G.env && l == G.lp, "the generator of this layer is asked for"); return G.op; }
static long n_upd;
VC_SPEC bool c_updateAll(Operator* o) { vc_assert(o == G.op && o != NULL, "the generator is the operator that runs"); n_upd++; if (vc_nondet_bool("operator sets dirty")) G.lp->dirty = true; return true; }
VC_HARNESS h_layer_detach()
{
    pre(); G.lp->env = G.env; if (vc_nondet_bool("no generator")) { G.op = NULL; vc_assume(vc_forall_ptr([](void* o, void*) { return OOUT(o, G.lp) == 0; }, NULL)); }
    G.lp->detachFromOperator();
    vc_cover("Layer::detachFromOperator");
    vc_assert(G.op == NULL || COUT_(G.op, G.lp) == 0, "detaching a layer from its operator disconnects it");
    vc_assert(vc_forall_ptr2([](void* o, void* l, void*) { return (G.op != NULL && o == G.op && l == G.lp) || COUT_(o, l) == OOUT(o, l); }, NULL) && same_in() && rest(), "detaching a layer from its operator changes nothing else");
}
VC_HARNESS h_layer_update()
{
    pre(); G.lp->env = G.env; if (vc_nondet_bool("no generator")) G.op = NULL;
    bool dirty = G.lp->dirty; n_upd = 0;
    G.lp->updateFromOperator();
    vc_cover("Layer::updateFromOperator");
    vc_assert(n_upd == (dirty && G.op != NULL ? 1 : 0), "the generator runs once, exactly if the layer is generated and dirty");
    vc_assert(!G.lp->isDirty() || (dirty && G.op == NULL), "an updated layer is clean");
    vc_assert(all_same(), "updating changes no connection");
}
