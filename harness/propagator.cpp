// Propagates wave functions by a script with every propagator and records norms and contents.
#define VT_POISON
#include "vt.h"
#include <map>
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OSum.h"
#include "qdlib/OMultistate.h"
#include "qdlib/ODMultistate.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/OMatDipole.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OGridDipole.h"
#include "qdlib/OGridNablaSq.h"
#include "qdlib/OGridSum.h"
#include "qdlib/OCheby.h"
#include "qdlib/OSIL.h"
#include "qdlib/OArnoldi.h"
#include "qdlib/ORK4.h"
#include "qdlib/OGSPO.h"
using namespace QDLIB;
using namespace vt;
typedef WaveFunction WF;
typedef std::vector<long> V;

struct Part { std::string form; long a, c; V k, m, p, lz; Operator *o; };
static std::map<long, Part> parts;
static std::map<long, WF *> wfs;
static std::map<long, Operator *> props;
static QDClock *clk;
static ParamContainer gridp;
static long n_, s_;
static int dims;
static bool grid;
static double f, tol;

static WF *single()
{
   WF *w = grid ? (WF *) new WFGridCartesian() : (WF *) new WFLevel();
   w->Init(gridp);
   return w;
}
static WF *make()
{
   if (!s_) return single();
   WFMultistate *m = new WFMultistate();
   for (long k = 0; k < s_; k++) m->Add(single(), k);
   m->Init(s_);
   return m;
}
static dcomplex &at(WF *w, long k)
{
   cVec *v = w;
   return v->begin(k / n_)[k % n_];
}
static long total() { return n_ * (s_ ? s_ : 1); }
static long near(double d, double scale)
{
   if (!(fabs(d) < 1e7)) return 99999999;
   return fabs(d - lround(d)) < tol * (1 + scale) ? lround(d) : 88888888;
}
static std::string world()
{
   std::string s = ",\"w\":[";
   bool first = true;
   for (auto &p : wfs) {
      V x;
      double n = 0, big = 0;
      for (long k = 0; k < total(); k++) {
         dcomplex c = at(p.second, k);
         double a = c.real() * c.real() + c.imag() * c.imag();
         n += a;
         big = std::max(big, sqrt(a));
      }
      for (long k = 0; k < total(); k++) { x.push_back(near(at(p.second, k).real(), big)); x.push_back(near(at(p.second, k).imag(), big)); }
      Ev e("W");
      e.i("i", p.first).i("n", near(n, n)).il("x", x);
      s += (first ? "" : ",") + e.s + "}";
      first = false;
   }
   return s + "]";
}
static double elem(const Part &t, long a, long b)
{
   return f * ((a == b ? t.k[a] : 0) + (t.p[a] - 1 == b && a != b ? t.m[a] : 0));
}
static void laser(OLaser *o, const Part &t)
{
   Laser las;
   las.Dt(clk->Dt()); las.Nt(t.lz.size());
   for (size_t q = 0; q < t.lz.size(); q++) las[q] = t.lz[q];
   o->SetLaser(las);
}
// the block (A, B) of a part as an operator on one state
static Operator *block(const Part &t, long A, long B)
{
   if (grid) {
      OGridPotential *p;
      OGridDipole *d = 0;
      if (t.lz.size()) p = d = new OGridDipole(); else p = new OGridPotential();
      p->OGridPotential::Init(gridp);
      for (long i = 0; i < n_; i++) (*(dVec *) p)[i] = elem(t, A * n_ + i, B * n_ + i);
      if (d) laser(d, t);
      return (OGridSystem *) p;
   }
   ParamContainer p;
   p.SetValue("size", (int) n_);
   OHermitianMatrix *m;
   if (t.lz.size()) {
      OMatDipole *d = new OMatDipole();
      p.SetValue("empty", true);
      ((Operator *) (OHermitianMatrix *) d)->Init(p);
      laser(d, t);
      m = d;
   } else { m = new OHermitianMatrix(); ((Operator *) m)->Init(p); }
   for (long i = 0; i < n_; i++)
      for (long j = 0; j < n_; j++) (*m)(i, j) = elem(t, A * n_ + i, B * n_ + j);
   return m;
}
static bool empty(const Part &t, long A, long B)
{
   for (long i = 0; i < n_; i++)
      for (long j = 0; j < n_; j++) if (elem(t, A * n_ + i, B * n_ + j) != 0) return false;
   return true;
}
static Operator *kinetic(const Part &t)
{
   OGridNablaSq *T = new OGridNablaSq();
   ParamContainer p;
   std::string masses;
   for (int d = 0; d < dims; d++) {
      std::string q = std::to_string(d);
      int N; double x0, x1;
      gridp.GetValue("N" + q, N); gridp.GetValue("xmin" + q, x0); gridp.GetValue("xmax" + q, x1);
      double L = (x1 - x0) / (N - 1) * N;
      // energies c n^2 f: (2 pi n / L)^2 / 2 mass
      char b[64];
      snprintf(b, sizeof b, "%s%.17g", d ? "," : "", d == t.a ? 4 * M_PI * M_PI / (L * L) / 2 / (t.c * f) : -1.);
      masses += b;
   }
   p.SetValue("mass", masses);
   ((Operator *) T)->Init(p);
   return (Operator *) T;
}
static OMultistate *matrix(const Part &t, bool diag, bool off, bool all)
{
   OMultistate *m = t.form == "odms" ? (OMultistate *) new ODMultistate() : new OMultistate();
   ParamContainer p;
   if (t.form != "odms") p.SetValue("states", (int) s_); else m->States(s_);
   p.SetValue("unity", false);
   ((Operator *) m)->Init(p);
   for (long A = 0; A < s_; A++)
      for (long B = 0; B <= A; B++)
         if ((A == B ? diag : off) && ((A == B && all) || !empty(t, A, B))) {
            if (t.c & 1) m->Add(block(t, A, B), A, B); else m->Add(block(t, B, A), B, A);
         }
   return m;
}
static Operator *op(Part &t)
{
   if (t.o) return t.o;
   if (t.form == "kin") {
      if (!s_) t.o = kinetic(t);
      else {
         OMultistate *m = t.c > 100 ? (OMultistate *) new ODMultistate() : new OMultistate();
         bool share = t.c > 200;
         Part u = t;
         u.c = t.c % 100;
         m->States(s_);
         Operator *k = kinetic(u);
         for (long A = 0; A < s_; A++) m->Add(share || !A ? k : kinetic(u), A, A);
         t.o = m;
      }
   } else if (s_) t.o = matrix(t, true, true, t.c & 2);
   else t.o = block(t, 0, 0);
   return t.o;
}

int main(int, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   clk = new QDClock();
   if (!freopen("/dev/null", "w", stdout)) return 77;
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string c = L.op();
      long i = L.n(1), j = L.n(2), k = L.n(3);
      std::string r;
      if (c == "open") {
         // open sc dt*100 steps tol | level|grid s n | level|grid s N0 x0 dx0 ...
         clk->Dt(j / 100.); clk->Steps(k);
         f = M_PI / 2 / (i * clk->Dt());
         tol = pow(10., -L.n(4));
         grid = L.s(5) == "grid";
         s_ = L.n(6);
         if (grid) {
            dims = (L.w.size() - 7) / 3;
            gridp.SetValue("dims", dims);
            n_ = 1;
            for (int q = 0; q < dims; q++) {
               std::string t = std::to_string(q);
               gridp.SetValue("N" + t, (int) L.n(7 + 3 * q));
               gridp.SetValue("xmin" + t, (double) L.n(8 + 3 * q));
               gridp.SetValue("xmax" + t, (double) (L.n(8 + 3 * q) + (L.n(7 + 3 * q) - 1) * L.n(9 + 3 * q) * 0.25));
               n_ *= L.n(7 + 3 * q);
            }
         } else { n_ = L.n(7); gridp.SetValue("size", (int) n_); }
         log(Ev("Open").i("s", i).i("n", total()));
      } else if (c == "part") {
         // part id form a c k.. m.. p.. lz..
         Part t;
         t.form = L.s(2); t.a = L.n(3); t.c = L.n(4); t.o = 0;
         size_t q = 5;
         for (V *v : {&t.k, &t.m, &t.p}) for (long x = 0; x < total(); x++) v->push_back(L.n(q++));
         while (q < L.w.size()) t.lz.push_back(L.n(q++));
         parts[i] = t;
         log(Ev("Part").i("i", i).il("k", t.k).il("m", t.m).il("p", t.p).il("lz", t.lz));
      } else if (c == "wf") {
         if (!wfs.count(i)) wfs[i] = make();
         V v;
         for (long x = 0; x < total(); x++) { at(wfs[i], x) = dcomplex(L.n(2 + 2 * x), L.n(3 + 2 * x)); v.push_back(L.n(2 + 2 * x)); v.push_back(L.n(3 + 2 * x)); }
         log(Ev("Wf").i("i", i).il("v", v));
      } else if (c == "prop") {
         // prop id kind order clockfirst nparts parts.. (part halfsteps)..
         std::string kind = L.s(2);
         OPropagator *u = 0;
         size_t np = L.n(5), q = 6;
         V ids;
         while (np--) ids.push_back(L.n(q++));
         std::string ps = "[";
         for (; q + 1 < L.w.size(); q += 2) ps += (ps.size() > 1 ? ",[" : "[") + std::to_string(L.n(q)) + "," + std::to_string(L.n(q + 1)) + "]";
         r = guard([&] {
            ParamContainer p;
            if (L.n(3)) p.SetValue("order", (int) L.n(3));
            if (kind == "gspo") {
               u = new OGSPO();
               for (size_t x = 0; x < ids.size(); x++) u->Add(std::string(1, 'A' + x), op(parts[ids[x]]));
            } else {
               Operator *H;
               if (ids.size() == 1 && k != 1) H = op(parts[ids[0]]);
               else if (L.n(4) & 2) {
                  OGridSum *g = new OGridSum();
                  for (long x : ids) g->Add(dynamic_cast<OGridSystem *>(op(parts[x])));
                  H = (Operator *) (OGridSystem *) g;
               } else {
                  OSum *s = new OSum();
                  for (long x : ids) s->Add(op(parts[x]));
                  H = s;
               }
               if (kind == "cheby") u = new OCheby();
               else if (kind == "sil") u = new OSIL();
               else if (kind == "arnoldi") u = new OArnoldi();
               else u = new ORK4();
               u->Add("hamiltonian", H);
            }
            ((Operator *) u)->Init(p);
            if (L.n(4) & 1) ((Operator *) u)->Clock(clk);
         });
         props[i] = u;
         log(Ev("Prop").i("i", i).t("kind", kind).raw("ps", ps + "]").t("r", r).raw("z", "0" + world()));
      } else if (c == "init") {
         r = guard([&] { props.at(i)->Clock(clk); props.at(i)->Init(wfs.at(j)); });
         log(Ev("Init").i("u", i).t("r", r).raw("z", "0" + world()));
      } else if (c == "copy") {
         r = guard([&] { Operator *o = props.at(j)->NewInstance(); if (k) o->Copy(props.at(j)); else *o = props.at(j); props[i] = o; });
         log(Ev("Copy").i("i", i).i("u", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "dir") {
         OPropagator *u = dynamic_cast<OPropagator *>(props.at(i));
         r = guard([&] {
            if (k) ((Operator *) u)->Conj(j < 0);
            else if (j > 0) u->Forward(); else u->Backward();
         });
         log(Ev("Dir").i("u", i).i("d", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "time") {
         clk->TimeStep(i);
         r = guard([&] { for (size_t q = 2; q < L.w.size(); q++) props.at(L.n(q))->UpdateTime(); });
         log(Ev("Time").i("t", clk->TimeStep()).t("r", r).raw("z", "0" + world()));
      } else if (c == "apply") {
         r = guard([&] { props.at(i)->Apply(wfs.at(j)); });
         log(Ev("Apply").i("u", i).i("i", j).t("r", r).raw("z", "0" + world()));
      } else if (c == "applyto") {
         r = guard([&] { props.at(i)->Apply(wfs.at(j), wfs.at(k)); });
         log(Ev("ApplyTo").i("u", i).i("d", j).i("i", k).t("r", r).raw("z", "0" + world()));
      } else if (c == "valid") {
         bool v = false;
         r = guard([&] { v = props.at(i)->Valid(wfs.at(j)); });
         log(Ev("Valid").i("u", i).b("v", v).t("r", r).raw("z", "0" + world()));
      } else { fprintf(stderr, "unknown command %s\n", c.c_str()); return 77; }
   }
   fflush(stdout);
   _exit(0);
}
