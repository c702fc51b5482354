// Builds operator compositions by a script, applies them and records all contents after each call.
#define VT_POISON
#include "vt.h"
#include <map>
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OSum.h"
#include "qdlib/OProduct.h"
#include "qdlib/OScalar.h"
#include "qdlib/OProjection.h"
#include "qdlib/OMultistate.h"
#include "qdlib/ODMultistate.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/OMatDipole.h"
#include "qdlib/OGridPosition.h"
#include "qdlib/OGridSum.h"
using namespace QDLIB;
using namespace vt;
typedef WaveFunction WF;

struct Node { Operator *o; std::string k; std::vector<long> ch; std::vector<std::vector<long>> mx; };
static std::map<long, Node> nodes;
static std::map<long, WF *> wfs;
static QDClock *clk;
static ParamContainer gridp;
static long n_, s_;
static bool grid;

static WF *single()
{
   WF *w = grid ? (WF *) new WFGridCartesian() : (WF *) new WFLevel();
   w->Init(gridp);
   return w;
}
static WF *make(bool multi)
{
   if (!multi) return single();
   WFMultistate *m = new WFMultistate();
   for (long k = 0; k < s_; k++) m->Add(single(), k);
   m->Init(s_);
   return m;
}
static std::vector<long> content(WF *w)
{
   std::vector<long> r;
   cVec *v = w;
   for (lint k = 0; k < v->size(); k++) { r.push_back(clampl((*v)[k].real())); r.push_back(clampl((*v)[k].imag())); }
   return r;
}
static void fill(WF *w, Line &L, size_t at)
{
   cVec *v = w;
   for (lint k = 0; k < v->size(); k++) (*v)[k] = dcomplex(L.n(at + 2 * k), L.n(at + 1 + 2 * k));
}
static std::string world()
{
   std::string s = ",\"w\":[";
   bool first = true;
   for (auto &p : wfs) {
      Ev e("W");
      e.i("i", p.first).il("x", content(p.second));
      s += (first ? "" : ",") + e.s + "}";
      first = false;
   }
   return s + "]";
}
static Operator *op(long i) { return nodes.at(i).o; }
static std::string mat2(const std::vector<std::vector<long>> &m)
{
   std::string s = "[";
   for (size_t a = 0; a < m.size(); a++) {
      s += a ? ",[" : "[";
      for (size_t b = 0; b < m[a].size(); b++) s += (b ? "," : "") + std::to_string(m[a][b]);
      s += "]";
   }
   return s + "]";
}
// Walks a copied composition and gives its nodes ids.
static long adopt(Operator *c, long from, long id, long &next, std::string &tree)
{
   Node n{c, nodes.at(from).k, {}, {}};
   const Node old = nodes.at(from);
   std::string sub;
   if (OList *l = dynamic_cast<OList *>(c))
      for (int k = 0; k < l->Size(); k++) { long t = next++; n.ch.push_back(adopt(l->Get(k), old.ch[k], t, next, sub)); }
   else if (OGridSum *g = dynamic_cast<OGridSum *>(c))
      for (int k = 0; k < g->Size(); k++) { long t = next++; n.ch.push_back(adopt(g->Get(k), old.ch[k], t, next, sub)); }
   else if (OMultistate *m = dynamic_cast<OMultistate *>(c)) {
      std::map<Operator *, long> seen;
      n.mx.assign(s_, std::vector<long>(s_, 0));
      for (long a = 0; a < s_; a++)
         for (long b = 0; b < s_; b++) {
            Operator *e = m->State(a, b);
            if (!e) continue;
            if (!seen.count(e)) { long t = next++; seen[e] = adopt(e, old.mx[a][b], t, next, sub); }
            n.mx[a][b] = seen[e];
         }
   }
   nodes[id] = n;
   Ev e("T");
   e.i("i", id).i("o", from).il("ch", n.ch).raw("mx", mat2(n.mx));
   tree += (tree.empty() ? "" : ",") + e.s + "}" + (sub.empty() ? "" : "," + sub);
   return id;
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   clk = new QDClock();
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string c = L.op();
      long i = L.n(1), j = L.n(2), k = L.n(3);
      std::string r;
      if (c == "space") {
         // space level|grid s  n  |  N0 x0 dx0 N1 x1 dx1 ...
         grid = L.s(1) == "grid";
         s_ = j;
         long w = 1;
         if (grid) {
            int d = (L.w.size() - 3) / 3;
            gridp.SetValue("dims", d);
            n_ = 1;
            for (int q = 0; q < d; q++) {
               std::string t = std::to_string(q);
               gridp.SetValue("N" + t, (int) L.n(3 + 3 * q));
               gridp.SetValue("xmin" + t, (double) L.n(4 + 3 * q));
               gridp.SetValue("xmax" + t, (double) (L.n(4 + 3 * q) + (L.n(3 + 3 * q) - 1) * L.n(5 + 3 * q)));
               n_ *= L.n(3 + 3 * q);
               w *= L.n(5 + 3 * q);
            }
         } else { n_ = L.n(3); gridp.SetValue("size", (int) n_); }
         log(Ev("Open").i("n", n_).i("s", s_).i("v", w));
         continue;
      }
      if (c == "wf") {
         WF *w = make(j);
         fill(w, L, 3);
         wfs[i] = w;
         log(Ev("Wf").i("i", i).t("u", j ? "b" : "a").il("v", content(w)));
         continue;
      }
      if (c == "fill") {
         fill(wfs.at(i), L, 2);
         log(Ev("Fill").i("i", i).il("v", content(wfs.at(i))).t("r", "").raw("z", "0" + world()));
         continue;
      }
      if (c == "clock") {
         clk->Dt(1); clk->Steps(i);
         continue;
      }
      if (c == "time") {
         clk->TimeStep(i);
         for (size_t q = 2; q < L.w.size(); q++) op(L.n(q))->UpdateTime();
         log(Ev("Time").i("t", clk->TimeStep()).t("r", "").raw("z", "0" + world()));
         continue;
      }
      if (c == "new") {
         // new id kind unit ...
         Node n;
         n.k = L.s(2);
         Ev e("New");
         e.i("i", i).t("k", n.k).t("u", L.s(3));
         ParamContainer p;
         r = guard([&] {
            if (n.k == "scal") {
               n.o = new OScalar();
               p.SetValue("value", (double) L.n(4));
               if (L.n(5)) p.SetValue("im", (double) L.n(5));
               n.o->Init(p);
               e.il("zv", {L.n(4), L.n(5)});
            } else if (n.k == "mat" || n.k == "dip") {
               p.SetValue("size", (int) n_);
               OHermitianMatrix *m;
               if (n.k == "mat") { m = new OHermitianMatrix(); n.o = m; n.o->Init(p); }
               else {
                  OMatDipole *d = new OMatDipole();
                  p.SetValue("empty", true);
                  ((Operator *) (OHermitianMatrix *) d)->Init(p);
                  m = d;
                  n.o = (OHermitianMatrix *) d;
               }
               std::vector<std::vector<long>> M(n_, std::vector<long>(n_, 0));
               size_t at = 4;
               for (long a = 0; a < n_; a++)
                  for (long b = 0; b <= a; b++) {
                     M[a][b] = M[b][a] = L.n(at++);
                     (*m)(a, b) = (*m)(b, a) = M[a][b];
                  }
               e.raw("m", mat2(M));
               std::vector<long> lz;
               if (n.k == "dip") {
                  Laser las;
                  long sc = L.n(at++);
                  las.Dt(1); las.Nt(clk->Steps());
                  for (long q = 0; q < clk->Steps(); q++) { las[q] = L.n(at); lz.push_back(sc * L.n(at++)); }
                  las.Scale(sc);
                  dynamic_cast<OMatDipole *>(n.o)->SetLaser(las);
               }
               e.il("lz", lz);
            } else if (n.k == "gpos") {
               n.o = new OGridPosition();
               long sc = L.n(5) ? L.n(5) : 1;
               if (L.n(4) >= 0) p.SetValue("dim", (int) L.n(4));
               if (L.n(5)) p.SetValue("scale", (double) L.n(5));
               n.o->Init(p);
               // the coordinate by the grid's definition, first dimension running fastest
               std::vector<long> d;
               for (long q = 0; q < n_; q++) {
                  long rest = q, x = 0;
                  int nd; gridp.GetValue("dims", nd);
                  for (int a = 0; a < nd; a++) {
                     int N; double x0, x1;
                     std::string t = std::to_string(a);
                     gridp.GetValue("N" + t, N); gridp.GetValue("xmin" + t, x0); gridp.GetValue("xmax" + t, x1);
                     if (L.n(4) < 0 || L.n(4) == a) x += lround(x0 + (x1 - x0) / (N - 1) * (rest % N));
                     rest /= N;
                  }
                  d.push_back(sc * x);
               }
               e.il("d", d);
            } else if (n.k == "proj") {
               n.o = new OProjection();
               p.SetValue("positive", (bool) L.n(4));
               if (L.n(5)) p.SetValue("inv", true);
               n.o->Init(p);
               e.b("pos", L.n(4)).b("inv", L.n(5));
            } else if (n.k == "ms" || n.k == "odms") {
               // ... nonhermitian unity(0 1 2=not given) viaStates
               if (n.k == "ms") n.o = new OMultistate(); else n.o = (OMultistate *) new ODMultistate();
               OMultistate *m = dynamic_cast<OMultistate *>(n.o);
               if (L.n(4)) p.SetValue("nonhermitian", true);
               if (L.n(5) < 2) p.SetValue("unity", (bool) L.n(5));
               if (L.n(6)) p.SetValue("states", (int) s_); else m->States(s_);
               n.o->Init(p);
               n.mx.assign(s_, std::vector<long>(s_, 0));
               e.b("sym", !L.n(4)).b("one", L.n(5) > 0);
            } else if (n.k == "sum") n.o = new OSum();
            else if (n.k == "prod") n.o = new OProduct();
            else n.o = new OGridSum();
         });
         nodes[i] = n;
         log(e.t("r", r).raw("z", "0" + world()));
      } else if (c == "add") {
         // add list child [name]
         r = guard([&] {
            if (OGridSum *g = dynamic_cast<OGridSum *>(op(i))) g->Add(j ? dynamic_cast<OGridSystem *>(op(j)) : NULL);
            else if (k) dynamic_cast<OList *>(op(i))->Add("n" + std::to_string(k), j ? op(j) : NULL);
            else dynamic_cast<OList *>(op(i))->Add(j ? op(j) : NULL);
         });
         if (r == "") nodes[i].ch.push_back(j);
         log(Ev("Add").i("i", i).i("j", j).i("n", k).t("r", r).raw("z", "0" + world()));
      } else if (c == "set") {
         // set list index child
         r = guard([&] { dynamic_cast<OList *>(op(i))->Set((int) j, op(k)); });
         if (r == "") nodes[i].ch[j] = k;
         log(Ev("Set").i("i", i).i("p", j).i("j", k).t("r", r).raw("z", "0" + world()));
      } else if (c == "get") {
         long got = -1, size = 0;
         r = guard([&] {
            Operator *o = 0;
            if (OGridSum *g = dynamic_cast<OGridSum *>(op(i))) { size = g->Size(); o = g->Get(j); }
            else { OList *l = dynamic_cast<OList *>(op(i)); size = l->Size(); o = k ? l->Get("n" + std::to_string(k)) : l->Get((int) j); }
            for (auto &p : nodes) if (p.second.o == o) got = p.first;
         });
         log(Ev("Get").i("i", i).i("p", j).i("n", k).i("v", got).i("size", size).t("r", r).raw("z", "0" + world()));
      } else if (c == "put") {
         // put ms row col child
         r = guard([&] { dynamic_cast<OMultistate *>(op(i))->Add(op(L.n(4)), j, k); });
         if (r == "") nodes[i].mx[j][k] = L.n(4);
         log(Ev("Put").i("i", i).i("a", j).i("b", k).i("j", L.n(4)).t("r", r).raw("z", "0" + world()));
      } else if (c == "vec") {
         OProjection *p = dynamic_cast<OProjection *>(op(i));
         r = guard([&] { p->Add(wfs.at(j)); });
         log(Ev("Vec").i("i", i).i("j", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "elem") {
         OHermitianMatrix *m = dynamic_cast<OHermitianMatrix *>(op(i));
         (*m)(j, k) = L.n(4); (*m)(k, j) = L.n(4);
         log(Ev("Elem").i("i", i).i("a", j).i("b", k).i("v", L.n(4)).t("r", "").raw("z", "0" + world()));
      } else if (c == "init") {
         r = guard([&] { op(i)->Init(wfs.at(j)); });
         // elements completed by symmetry
         for (auto &p : nodes)
            if (OMultistate *m = dynamic_cast<OMultistate *>(p.second.o))
               for (long a = 0; a < s_; a++)
                  for (long b = 0; b < s_; b++)
                     if (!p.second.mx[a][b] && m->State(a, b)) p.second.mx[a][b] = p.second.mx[b][a];
         log(Ev("Init").i("o", i).i("i", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "clk") {
         r = guard([&] { op(i)->Clock(clk); });
         log(Ev("Clock").i("o", i).b("same", op(i)->Clock() == clk).t("r", r).raw("z", "0" + world()));
      } else if (c == "conj") {
         op(i)->Conj((bool) j);
         log(Ev("Conj").i("o", i).b("c", j).b("v", ((const Operator *) op(i))->Conj()).t("r", "").raw("z", "0" + world()));
      } else if (c == "tdep") {
         log(Ev("TDep").i("o", i).b("v", op(i)->isTimeDep()).t("r", "").raw("z", "0" + world()));
      } else if (c == "copy" || c == "assign") {
         // copy new src first-free-id ; assign existing src first-free-id
         Operator *o = c == "copy" ? op(j)->NewInstance() : op(i);
         Operator *res = 0;
         std::string tree;
         r = guard([&] { if (L.n(4)) res = o->Copy(op(j)); else res = (*o = op(j)); });
         long next = k;
         bool self = res == o;
         if (r == "") adopt(o, j, i, next, tree);
         log(Ev("Copy").i("i", i).i("j", j).b("self", self).raw("t", "[" + tree + "]").t("r", r).raw("z", "0" + world()));
      } else if (c == "apply" || c == "add2" || c == "parent") {
         r = guard([&] {
            if (c == "apply") op(i)->Apply(wfs.at(j), wfs.at(k));
            else if (c == "add2") op(i)->ApplyAdd(wfs.at(j), wfs.at(k));
            else op(i)->ApplyParent(wfs.at(j), wfs.at(k));
         });
         log(Ev(c == "apply" ? "Apply" : c == "add2" ? "ApplyAdd" : "Parent").i("o", i).i("i", j).i("j", k).t("r", r).raw("z", "0" + world()));
      } else if (c == "in") {
         r = guard([&] { op(i)->Apply(wfs.at(j)); });
         log(Ev("ApplyIn").i("o", i).i("i", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "mel") {
         dcomplex d(0, 0);
         r = guard([&] { d = op(i)->MatrixElement(wfs.at(j), wfs.at(k)); });
         log(Ev("Element").i("o", i).i("i", j).i("j", k).il("v", {clampl(d.real()), clampl(d.imag())}).t("r", r).raw("z", "0" + world()));
      } else if (c == "expec") {
         double d = 0;
         r = guard([&] { d = op(i)->Expec(wfs.at(j)); });
         log(Ev("Expec").i("o", i).i("i", j).i("v", clampl(d)).t("r", r).raw("z", "0" + world()));
      } else if (c == "valid") {
         bool v = false;
         r = guard([&] { v = op(i)->Valid(j ? wfs.at(j) : NULL); });
         log(Ev("Valid").i("o", i).i("i", j).b("v", v).t("r", r).raw("z", "0" + world()));
      }
   }
   fflush(0);
   _exit(0);
}
