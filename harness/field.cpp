// Laser fields, clocks and the operators coupled to them, driven by a script.
#define VT_POISON
#include "vt.h"
#include <map>
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OSum.h"
#include "qdlib/OProduct.h"
#include "qdlib/OMultistate.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/OMatDipole.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OGridRaman.h"
#include "qdlib/OGridSum.h"
#include "qdlib/ORK4.h"
using namespace QDLIB;
using namespace vt;
typedef WaveFunction WF;
static std::map<long, QDClock *> cks;
static std::map<long, Laser *> las;
static std::map<long, Operator *> ops;
static std::map<long, bool> used;
static std::map<long, long> parts;   // states an operator acts on
static ParamContainer gridp;
static bool grid;
static long n_;
static double unit;
#define FOURPI (4 * M_PI)

static WF *single()
{
   WF *w = grid ? (WF *) new WFGridCartesian() : (WF *) new WFLevel();
   w->Init(gridp);
   return w;
}
static WF *make(long size)
{
   if (size == n_) return single();
   WFMultistate *m = new WFMultistate();
   for (int k = 0; k < 2; k++) m->Add(single(), k);
   m->Init(2);
   return m;
}
static WF *fill(const std::vector<long> &v)
{
   WF *w = make(v.size() / 2);
   cVec *c = w;
   for (size_t k = 0; k < v.size() / 2; k++) (*c)[k] = dcomplex(v[2 * k], v[2 * k + 1]);
   return w;
}
static long at24(double v)
{
   double y = 24 * v, r = floor(y + 0.5);
   if (!(fabs(y) < 1e8)) return 99999999;
   return fabs(y - r) > 1e-5 ? 88888888 : (long) r;
}
static std::vector<long> content(WF *w, bool scaled)
{
   std::vector<long> r;
   cVec *v = w;
   for (lint k = 0; k < v->size(); k++) {
      dcomplex z = (*v)[k];
      r.push_back(scaled ? at24(z.real()) : clampl(z.real())); r.push_back(scaled ? at24(z.imag()) : clampl(z.imag()));
   }
   return r;
}
static std::string world()
{
   std::string s = "[";
   for (auto &p : las) {
      s += (s.size() > 1 ? ",[" : "[") + std::to_string(p.first) + "," + std::to_string(clampl(p.second->Dt() / unit));
      for (lint i = 0; i < p.second->size(); i++) s += "," + std::to_string(clampl((*p.second)[i]));
      s += "]";
   }
   return s + "]";
}
static void own(Operator *o, long i, std::vector<long> &ids)
{
   OLaser *l = dynamic_cast<OLaser *>(o);
   if (!l) return;
   for (int k = 0; k < l->NumLasers(); k++) { ids.push_back(i * 10 + k); las[i * 10 + k] = l->GetLaser(k); }
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   if (!freopen("/dev/null", "w", stdout)) return 77;
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string c = L.op();
      long i = L.n(1), j = L.n(2);
      std::string r;
      auto done = [&](Ev &e) { log(e.t("r", r).raw("w", world())); };
      auto list = [&](size_t from) { std::vector<long> v; for (size_t q = from; q < L.w.size(); q++) v.push_back(L.n(q)); return v; };
      if (c == "open") {
         grid = L.s(1) == "grid"; n_ = j; unit = L.n(3) ? 0.1 : 1;
         if (grid) {
            gridp.SetValue("dims", 1); gridp.SetValue("N0", (int) n_); gridp.SetValue("xmin0", 0.); gridp.SetValue("xmax0", (double) (n_ - 1));
         } else gridp.SetValue("size", (int) n_);
         log(Ev("Open"));
      } else if (c == "clk") {
         if (cks.count(i)) *cks[i] = QDClock(j, L.n(3) * unit); else cks[i] = new QDClock(j, L.n(3) * unit);
         Ev e("Clk"); done(e.i("i", i).i("nt", j).i("dt", L.n(3)));
      } else if (c == "step" || c == "inc" || c == "dec") {
         if (c == "step") cks.at(i)->TimeStep(j); else if (c == "inc") ++*cks.at(i); else --*cks.at(i);
         Ev e("Step"); done(e.i("i", i).i("v", c == "step" ? j : j));
      } else if (c == "las") {
         if (!las.count(i)) las[i] = new Laser();
         ParamContainer p;
         std::vector<long> d = list(3);
         p.SetValue("dt", j * unit); p.SetValue("Nt", (int) d.size());
         if (las[i]->size() == 0) r = guard([&] { las[i]->Init(p); });
         else { delete las[i]; las[i] = new Laser(); las[i]->Dt(j * unit); las[i]->Nt(d.size()); }
         for (size_t q = 0; q < d.size(); q++) (*las[i])[q] = d[q];
         Ev e("Las"); done(e.i("i", i).i("dt", j).il("d", d));
      } else if (c == "save" || c == "read") {
         r = guard([&] {
            Laser::FileLaser f = las.at(i)->File();
            f.Suffix(BINARY_O_SUFFIX); f.Name(L.s(2));
            if (c == "save") f << las[i]; else f >> las[i];
         });
         Ev e(c == "save" ? "Save" : "Read"); done(e.i("i", i).t("f", L.s(2)));
      } else if (c == "lclk") {
         r = guard([&] { las.at(i)->Clock(cks.at(j)); });
         Ev e("LClk"); done(e.i("i", i).i("c", j));
      } else if (c == "get" || c == "pot" || c == "energy") {
         double v = 0;
         Laser &x = *las.at(i);
         r = guard([&] { v = c == "get" ? x.Get() : c == "pot" ? x.GetVectorPot() / unit : x.PulseEnergy() * FOURPI / 137.0359996 / unit; });
         Ev e(c == "get" ? "Get" : c == "pot" ? "Pot" : "Energy"); done(e.i("i", i).i("v", clampl(v)));
      } else if (c == "set") {
         r = guard([&] { las.at(i)->Set(j); });
         Ev e("Set"); done(e.i("i", i).i("v", j));
      } else if (c == "fill") {
         std::vector<long> d = list(2);
         las.at(i)->Nt(d.size());
         for (size_t q = 0; q < d.size(); q++) (*las[i])[q] = d[q];
         Ev e("Fill"); done(e.i("i", i).il("d", d));
      } else if (c == "scale") {
         las.at(i)->Scale(j);
         Ev e("Scale"); done(e.i("i", i).i("v", j));
      } else if (c == "lcopy") {
         *las.at(i) = *las.at(j);
         Ev e("LCopy"); done(e.i("i", i).i("j", j));
      } else if (c == "spec") {
         std::vector<long> p;
         long n = 0;
         r = guard([&] {
            Laser &x = *las.at(i);
            dVec *w = x.PowerSpectrum();
            n = w->size();
            for (lint q = 0; q < w->size(); q++) p.push_back(clampl((*w)[q] * (*w)[q]));
            delete w;
            cVec &z = *x.Spectrum();
            for (lint q = 0; q < z.size(); q++) z[q] /= x.Clock()->Steps();
            x.ToTimeDomain();
         });
         Ev e("Spec"); done(e.i("i", i).il("p", p).i("n", n));
      } else if (c == "op") {
         // op id kind scale nlasers files.. matrix..   |   op id kind children..
         std::string k = L.s(2);
         Ev e("Op");
         e.i("i", i).t("k", k);
         Operator *o = 0;
         std::vector<long> ids, m, ch;
         std::string fs = "[";
         if (k == "sum" || k == "prod" || k == "gsum" || k == "ms" || k == "rk4") {
            ch = list(3);
            r = guard([&] {
               ParamContainer p;
               if (k == "ms") {
                  OMultistate *x = new OMultistate();
                  p.SetValue("states", 2); p.SetValue("unity", false); p.SetValue("nonhermitian", true);
                  o = x; o->Init(p);
                  for (int q = 0; q < 4; q++) if (ch[q]) x->Add(ops.at(ch[q]), q / 2, q % 2);
               } else if (k == "rk4") {
                  ORK4 *x = new ORK4();
                  o = x; o->Init(p);
                  x->Add("hamiltonian", ops.at(ch[0]));
               } else if (k == "gsum") {
                  OGridSum *x = new OGridSum();
                  for (long q : ch) x->Add(dynamic_cast<OGridSystem *>(ops.at(q)));
                  o = (OGridSystem *) x;
               } else {
                  OList *x = k == "sum" ? (OList *) new OSum() : (OList *) new OProduct();
                  for (long q : ch) x->Add(ops.at(q));
                  o = x;
               }
               parts[i] = k == "ms" ? 2 : parts[ch[0]];
               if (k != "rk4") { WF *w = make(parts[i] * n_); o->Init(w); delete w; }
            });
         } else {
            long sc = L.n(3), nl = L.n(4);
            for (size_t q = 5 + nl; q < L.w.size(); q++) m.push_back(L.n(q));
            r = guard([&] {
               ParamContainer p;
               if (k == "hm" || k == "md") {
                  OHermitianMatrix H;
                  ParamContainer q; q.SetValue("size", (int) n_); H.Init(q);
                  for (long a = 0; a < n_ * n_; a++) H(a / n_, a % n_) = m[a];
                  H.File()->Suffix(BINARY_O_SUFFIX); H.File()->Name("mat");
                  *H.File() << &H;
                  if (k == "hm") o = new OHermitianMatrix(); else o = (OHermitianMatrix *) new OMatDipole();
               } else {
                  OGridPotential V;
                  V.Init(gridp);
                  for (long a = 0; a < n_; a++) V[a] = m[a];
                  FileSingle<OGridPotential> f; f.Suffix(BINARY_O_SUFFIX); f.Name("mat");
                  f << &V;
                  if (k == "gp") o = (OGridSystem *) new OGridPotential();
                  else if (k == "gd") o = (OGridSystem *) new OGridDipole();
                  else o = (OGridSystem *) new OGridRaman();
               }
               p.SetValue("file", "mat");
               if (nl == 1 || (nl == 2 && L.s(5) == L.s(6))) p.SetValue("laser", L.s(5));
               else for (int q = 0; q < nl; q++) p.SetValue("laser" + std::to_string(q), L.s(5 + q));
               if (sc) p.SetValue("scale", (double) sc);
               parts[i] = 1;
               o->Init(p);
               WF *w = single(); o->Init(w); delete w;
            });
            for (int q = 0; q < nl; q++) fs += (q ? ",\"" : "\"") + L.s(5 + q) + "\"";
            e.i("sc", sc);
            if (r != "") o = 0;
         }
         if (o) { ops[i] = o; own(o, i, ids); }
         done(e.il("m", m).il("ids", ids).il("ch", ch).raw("fs", fs + "]"));
      } else if (c == "oclk") {
         r = guard([&] { ops.at(i)->Clock(cks.at(j)); });
         Ev e("OClk"); done(e.i("i", i).i("c", j));
      } else if (c == "copy") {
         // copy id from how size
         std::vector<long> ids;
         r = guard([&] {
            Operator *o = ops.at(j)->NewInstance();
            if (L.n(3)) o->Copy(ops[j]); else *o = ops[j];
            parts[i] = parts[j];
            WF *w = make(parts[i] * n_); o->Init(w); delete w;
            ops[i] = o; own(o, i, ids);
         });
         Ev e("Copy"); done(e.i("i", i).i("j", j).il("ids", ids));
      } else if (c == "apply") {
         // apply op mode x.. y..
         std::string m = L.s(2);
         std::vector<long> all = list(3), x(all.begin(), all.begin() + all.size() / 2), y(all.begin() + all.size() / 2, all.end()), v;
         WF *a = fill(x), *b = fill(y);
         Operator *o = ops.at(i);
         r = guard([&] {
            if (dynamic_cast<OPropagator *>(o) && !used[i]) { o->Init(a); used[i] = true; }
            if (m == "d") { o->Apply(b, a); v = content(b, true); }
            else if (m == "i") { o->Apply(a); v = content(a, true); }
            else if (m == "a") { o->ApplyAdd(b, a); v = content(b, true); }
            else if (m == "e") v.push_back(at24(o->Expec(a)));
            else { dcomplex z = o->MatrixElement(b, a); v.push_back(at24(z.real())); v.push_back(at24(z.imag())); }
         });
         Ev e("Apply"); done(e.i("o", i).t("m", m).il("x", x).il("y", y).il("v", v).il("a", m == "i" && r == "" ? x : content(a, false)));
         delete a; delete b;
      }
   }
   fflush(stdout);
   _exit(0);
}
