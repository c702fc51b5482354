// Ownership: releases of nodes, wave functions and operators, seen through free().
#include "vt.h"
#include <map>
#include <set>
#include "tools/Collector.h"
#include "tools/QDClock.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/OSum.h"
#include "qdlib/OProduct.h"
#include "qdlib/OScalar.h"
#include "qdlib/OMultistate.h"
#include "qdlib/OCheby.h"
#include "qdlib/OSIL.h"
#include "qdlib/OArnoldi.h"
#include "qdlib/ORK4.h"
#include "qdlib/OProjection.h"
using namespace QDLIB;
using namespace vt;

// --- releases of tracked addresses; they are never handed out again ---------
static const int MAXT = 4096;
static void *t_ptr[MAXT];
static long t_id[MAXT];
static int t_n = 0;
static long f_log[MAXT];
static int f_n = 0;
extern "C" void __libc_free(void *);
extern "C" void free(void *p)
{
   for (int i = 0; i < t_n; i++)
      if (t_ptr[i] == p && p) { if (f_n < MAXT) f_log[f_n++] = t_id[i]; return; }
   __libc_free(p);
}
static void *t_obj[MAXT];
// the storage, and the address the collector knows the object by
static void track(void *store, long id, void *obj = NULL) { t_ptr[t_n] = store; t_obj[t_n] = obj ? obj : store; t_id[t_n++] = id; }
static void *at(long id) { for (int i = 0; i < t_n; i++) if (t_id[i] == id) return t_obj[i]; return NULL; }

static std::vector<long> d_log;
struct Node {
   long id;
   std::vector<long> kids;
   Node(long i) : id(i) {}
   ~Node()
   {
      d_log.push_back(id);
      for (long k : kids) Collector<Node>::Instance()->Delete((Node *) at(k));
   }
   void *operator new(size_t s) { return malloc(s); }
   void operator delete(void *p) { free(p); }
};

static Log *log_;
static std::vector<long> all_;
static std::set<long> plain;
static char mode;
static bool known(long id)
{
   void *p = at(id);
   if (mode == 'n') return Collector<Node>::Instance()->IsAllocated((Node *) p);
   if (mode == 'w') return Collector<WaveFunction>::Instance()->IsAllocated((WaveFunction *) p);
   return Collector<Operator>::Instance()->IsAllocated((Operator *) p);
}
static size_t size_()
{
   if (mode == 'n') return Collector<Node>::Instance()->Elements();
   if (mode == 'w') return Collector<WaveFunction>::Instance()->Elements();
   return Collector<Operator>::Instance()->Elements();
}
static void emit(Ev e)
{
   std::vector<long> g(f_log, f_log + f_n), k;
   for (long i : all_) if (known(i)) k.push_back(i);
   e.il("gone", g).i("size", size_()).il("known", k);
   if (mode == 'n') e.il("dtor", d_log).il("plain", std::vector<long>(plain.begin(), plain.end()));
   (*log_)(e);
   f_n = 0;
   d_log.clear();
}
static std::vector<long> rest(const Line &L, size_t from) { std::vector<long> r; for (size_t i = from; i < L.w.size(); i++) r.push_back(L.n(i)); return r; }
static void del(long id)
{
   static char foreign[64];
   void *p = id == 0 ? NULL : at(id) ? at(id) : (void *) foreign;
   if (mode == 'n') Collector<Node>::Instance()->Delete((Node *) p);
   else if (mode == 'w') DELETE_WF((WaveFunction *) p);
   else DELETE_OP((Operator *) p);
}

static WFLevel *level(int n)
{
   WFLevel *w = new WFLevel();
   ParamContainer pc;
   pc.SetValue("size", n);
   w->Init(pc);
   for (int i = 0; i < n; i++) (*w)[i] = dcomplex(i + 1, 1 - i);
   return w;
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   log_ = &log;
   Line L;
   QDClock *clk = NULL;
   WaveFunction *psi = NULL, *mpsi = NULL, *dst = NULL;
   size_t base = 0;
   while (L.read(in)) {
      if (L.w.empty()) continue;
      std::string op = L.op();
      if (op == "open") {
         mode = L.s(1)[0];
         log(Ev("Open"));
         if (mode == 'o') {
            psi = level(4); dst = level(4);
            WFMultistate *m = new WFMultistate();
            m->Add(level(4), 0); m->Add(level(4), 1); m->Init(2);
            mpsi = m;
            base = Collector<WaveFunction>::Instance()->Elements();
            clk = new QDClock(); clk->Dt(0.01); clk->Steps(100);
         }
      } else if (op == "node") {      // node id aligned kids..
         long id = L.n(1);
         Node *n;
         bool al = L.n(2);
         if (al) { n = (Node *) malloc(64); plain.insert(id); }
         else { n = new Node(id); n->kids = rest(L, 3); }
         track(n, id);
         all_.push_back(id);
         Collector<Node>::Instance()->Register(n, al);
         emit(Ev("Make").i("id", id).il("kids", al ? std::vector<long>() : rest(L, 3)));
      } else if (op == "reg") {
         long id = L.n(1);
         void *p = at(id);
         if (mode == 'n') Collector<Node>::Instance()->Register((Node *) p);
         else if (mode == 'w') Collector<WaveFunction>::Instance()->Register((WaveFunction *) p);
         else Collector<Operator>::Instance()->Register((Operator *) p);
         emit(Ev("Register").i("id", id));
      } else if (op == "del") {
         del(L.n(1));
         emit(Ev("Delete").i("id", L.n(1)));
      } else if (op == "delall") {
         if (mode == 'n') Collector<Node>::Instance()->Delete();
         else if (mode == 'w') { DELETE_ALL_WF(); }
         else { DELETE_ALL_OP(); }
         emit(Ev("DeleteAll"));
      } else if (op == "wf") {
         WFLevel *w = level(L.n(2));
         track(w, L.n(1)); all_.push_back(L.n(1));
         emit(Ev("Make").i("id", L.n(1)).il("kids", {}));
      } else if (op == "ms") {        // ms id kids..
         WFMultistate *m = new WFMultistate();
         track(m, L.n(1)); all_.push_back(L.n(1));
         std::vector<long> k = rest(L, 2);
         for (size_t i = 0; i < k.size(); i++) m->Add((WaveFunction *) at(k[i]), i);
         m->Init(k.size());
         emit(Ev("Make").i("id", L.n(1)).il("kids", k));
      } else if (op == "copy") {      // copy src newid (parts get newid+1..)
         WaveFunction *s = (WaveFunction *) at(L.n(1));
         WaveFunction *r = s->NewInstance();
         *r = s;
         std::string nw;
         std::vector<long> k;
         WFMultistate *m = dynamic_cast<WFMultistate *>(r);
         long id = L.n(2);
         if (m) for (int i = 0; i < m->States(); i++) {
            long ki = id + 1 + i;
            k.push_back(ki);
            track(m->State(i), ki); all_.push_back(ki);
            nw += "{\"id\":" + std::to_string(ki) + ",\"kids\":[]},";
         }
         track(r, id); all_.push_back(id);
         std::string ks;
         for (size_t i = 0; i < k.size(); i++) ks += (i ? "," : "") + std::to_string(k[i]);
         emit(Ev("New").raw("new", "[" + nw + "{\"id\":" + std::to_string(id) + ",\"kids\":[" + ks + "]}]"));
      } else if (op == "math") {      // temporaries made by wave function arithmetic
         WaveFunction *a = (WaveFunction *) at(L.n(1)), *b = (WaveFunction *) at(L.n(2));
         std::string r = guard([&] { *a += b; a->Normalize(); (void) (*a * b); a->Retire(); a->Reaquire(); });
         emit(Ev("Use").t("r", r));
      } else if (op == "op") {        // op id type kids..
         long id = L.n(1);
         std::string t = L.s(2);
         std::vector<long> k = rest(L, 3), owned;
         Operator *o = NULL;
         ParamContainer pc;
         if (t == "mat") {
            OHermitianMatrix *m = new OHermitianMatrix();
            o = m;
            pc.SetValue("size", 4);
            o->Init(pc);
            for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) (*m)(i, j) = i == j ? i * i : 1. / (1 + i + j);
         } else if (t == "scalar") { o = new OScalar(); pc.SetValue("value", 2.); o->Init(pc); }
         else if (t == "sum" || t == "prod") {
            OList *lst = t == "sum" ? (OList *) new OSum() : (OList *) new OProduct();
            for (long i : k) lst->Add((Operator *) at(i));
            o = lst; o->Init(pc);
         } else if (t == "multi") {
            OMultistate *m = new OMultistate();
            for (size_t i = 0; i < k.size(); i++) m->Add((Operator *) at(k[i]), i == 2 ? 0 : i, i == 2 ? 1 : i);
            m->States(2);
            o = m;
         } else if (t == "proj") {
            OProjection *p = new OProjection();
            o = p; o->Init(pc); o->Init(psi);
            p->Add(psi);
         } else {
            OPropagator *p = t == "cheby" ? (OPropagator *) new OCheby() : t == "sil" ? (OPropagator *) new OSIL() :
               t == "arnoldi" ? (OPropagator *) new OArnoldi() : (OPropagator *) new ORK4();
            if (t == "sil" || t == "arnoldi") { pc.SetValue("order", 3); }
            o = p;
            p->Clock(clk); o->Init(pc);
            p->Add("hamiltonian", (Operator *) at(k[0]));
         }
         track(dynamic_cast<void *>(o), id, o); all_.push_back(id);
         if (t != "proj") o->Init(t == "multi" ? mpsi : psi);
         emit(Ev("Make").i("id", id).il("kids", owned));
      } else if (op == "use") {       // apply in all ways
         Operator *o = (Operator *) at(L.n(1));
         WaveFunction *s = dynamic_cast<OMultistate *>(o) ? mpsi : psi;
         std::string r = guard([&] {
            WaveFunction *d = s->NewInstance();
            o->Apply(d, s); *d = s; o->Apply(d); o->ApplyAdd(d, s); o->Expec(s); o->MatrixElement(s, s);
            DELETE_WF(d);
         });
         emit(Ev("Use").t("r", r));
      } else if (op == "opcopy") {    // opcopy src newid
         Operator *s = (Operator *) at(L.n(1));
         Operator *o = s->NewInstance();
         track(dynamic_cast<void *>(o), L.n(2), o); all_.push_back(L.n(2));
         emit(Ev("Make").i("id", L.n(2)).il("kids", {}));
      } else if (op == "balance") {
         log(Ev("Balance").i("now", Collector<WaveFunction>::Instance()->Elements()).i("base", base));
      }
   }
   _exit(0);
}
