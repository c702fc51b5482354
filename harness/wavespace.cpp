// Performs a script of wave function operations and records all contents after each.
#define VT_POISON
#include "vt.h"
#include <map>
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "math/VectorPrimitives.h"
using namespace QDLIB;
using namespace vt;
typedef WaveFunction WF;
static std::map<long, WF *> leafs, multis;
static std::map<long, bool> gone;
static long next_id = 1000;

static WF *get(long i) { return leafs.count(i) ? leafs[i] : multis.at(i); }
static long idof(WF *w) { for (auto &p : leafs) if (p.second == w) return p.first; return -1; }

static std::vector<long> content(cVec *v)
{
   std::vector<long> r;
   for (lint k = 0; k < v->size(); k++) { r.push_back(clampl((*v)[k].real())); r.push_back(clampl((*v)[k].imag())); }
   return r;
}
static std::string world()
{
   std::string s = ",\"w\":[";
   bool first = true;
   for (auto &p : leafs) {
      Ev e("L");
      e.i("i", p.first).i("n", p.second->size()).b("ks", p.second->IsKspace());
      e.il("x", gone[p.first] ? std::vector<long>() : content(p.second));
      s += (first ? "" : ",") + e.s + "}";
      first = false;
   }
   s += "],\"m\":[";
   first = true;
   for (auto &p : multis) {
      WFMultistate *m = (WFMultistate *) p.second;
      std::vector<long> st;
      bool g = false;
      for (lint k = 0; k < m->States(); k++) { st.push_back(idof(m->State(k))); g = g || gone[st.back()]; }
      Ev e("M");
      e.i("i", p.first).i("n", m->size()).i("strides", m->strides()).i("ln", m->lsize()).i("bytes", p.second->size_bytes())
       .b("ks", p.second->WF::IsKspace()).il("st", st).il("x", g ? std::vector<long>() : content(m));
      s += (first ? "" : ",") + e.s + "}";
      first = false;
   }
   return s + "]";
}
static long round2(double d) { return clampl(d); }

// takes the states of a new multistate wave function into the books
static std::vector<long> adopt(long id, WF *w)
{
   std::vector<long> st;
   if (WFMultistate *m = dynamic_cast<WFMultistate *>(w)) {
      multis[id] = w;
      for (lint k = 0; k < m->States(); k++) {
         long i = idof(m->State(k));
         if (i < 0) { i = next_id++; leafs[i] = m->State(k); }
         st.push_back(i);
      }
   } else leafs[id] = w;
   return st;
}
static void kweight(WF *w, double &f)
{
   // the k-space volume element of the grid
   if (WFMultistate *m = dynamic_cast<WFMultistate *>(w)) w = m->State(0);
   WFGridCartesian *g = dynamic_cast<WFGridCartesian *>(w);
   if (g && w->IsKspace())
      for (int i = 0; i < g->Dim(); i++) f *= (g->Xmax(i) - g->Xmin(i)) / (2 * M_PI) * g->Dx(i);
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   log(Ev("Open"));
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string op = L.op();
      long i = L.n(1), j = L.n(2);
      std::string r;
      if (op == "level" || op == "grid") {
         WF *w = op == "level" ? (WF *) new WFLevel() : (WF *) new WFGridCartesian();
         long v = 1;
         r = guard([&] {
            ParamContainer p;
            if (op == "level") p.SetValue("size", (int) L.n(2));
            else {
               // grid id N0 dx0 N1 dx1 ...
               int d = (L.w.size() - 2) / 2;
               p.SetValue("dims", d);
               for (int k = 0; k < d; k++) {
                  std::string s = std::to_string(k);
                  p.SetValue("N" + s, (int) L.n(2 + 2 * k));
                  p.SetValue("xmin" + s, -1.0 * k);
                  p.SetValue("xmax" + s, -1.0 * k + (L.n(2 + 2 * k) - 1) * L.n(3 + 2 * k));
                  v *= L.n(3 + 2 * k);
               }
            }
            w->Init(p);
         });
         leafs[i] = w;
         log(Ev("New").i("i", i).i("n", w->size()).i("v", v).b("g", op == "grid").t("r", r).raw("z", "0" + world()));
      } else if (op == "fill") {
         std::vector<long> v;
         WF *w = get(i);
         for (lint k = 0; k < w->size(); k++) {
            (*(cVec *) w)[k] = dcomplex(L.n(2 + 2 * k), L.n(3 + 2 * k));
            v.push_back(L.n(2 + 2 * k)); v.push_back(L.n(3 + 2 * k));
         }
         log(Ev("Fill").i("i", i).il("v", v).t("r", "").raw("z", "0" + world()));
      } else if (op == "elem") {
         (*(cVec *) get(i))[j - 1] = dcomplex(L.n(3), L.n(4));
         log(Ev("Elem").i("i", i).i("k", j).il("v", {L.n(3), L.n(4)}).t("r", "").raw("z", "0" + world()));
      } else if (op == "build") {
         // build id params? req state...
         WFMultistate *m = new WFMultistate();
         std::vector<long> st, fr;
         long req = L.n(3);
         r = guard([&] {
            for (size_t k = 4; k < L.w.size(); k++) {
               st.push_back(L.n(k));
               if (L.n(k)) m->Add(get(L.n(k)), k - 4);
            }
            if (j) { ParamContainer p; p.SetValue("states", (int) req); p.SetValue("note", "x"); ((WF *) m)->Init(p); }
            else m->Init(req);
         });
         std::vector<long> all = adopt(i, m);
         while (st.size() < all.size()) st.push_back(0);
         for (size_t k = 0; k < all.size(); k++) fr.push_back(st[k] ? 0 : all[k]);
         log(Ev("Build").i("i", i).il("st", st).il("fr", fr).t("r", r).raw("z", "0" + world()));
      } else if (op == "like") {
         WF *w = get(j)->NewInstance();
         std::vector<long> sub = adopt(i, w);
         log(Ev("Like").i("i", i).i("j", j).il("sub", sub).t("r", "").raw("z", "0" + world()));
      } else if (op == "kern") {
         // kern number i b c dre dim array...
         long n = L.n(1), b = L.n(3), c = L.n(4), dr = L.n(5), di = L.n(6);
         i = L.n(2);
         WF *W = get(i), *PB = b ? get(b) : NULL;
         cVec *A = W, *B = b ? get(b) : NULL, *C = c ? get(c) : NULL;
         dcomplex d(dr, di);
         double D = dr;
         dVec R(A->size(), A->strides());
         std::vector<long> ar;
         for (size_t k = 7; k < L.w.size() && k - 7 < (size_t) A->size(); k++) { R[k - 7] = L.n(k); ar.push_back(L.n(k)); }
         const char *o = "";
         r = guard([&] {
            switch (n) {
            case 0: o = "a+b"; *W += PB; break;
            case 1: o = "a-b"; *W -= PB; break;
            case 2: o = "ab"; W->DirectProduct(PB); break;
            case 3: o = "a*bd"; d = dcomplex(dr = 1, di = 0); W->DirectProductConjugate(PB); break;
            case 4: o = "im a"; W->Imag(); break;
            case 5: o = "re a"; W->Real(); break;
            case 6: o = "ad"; di = 0; *W *= D; break;
            case 7: o = "ad"; *W *= d; break;
            case 8: o = "d"; di = 0; *W = D; break;
            case 9: o = "d"; *W = d; break;
            case 10: o = "b"; ((cVec *) W)->FastCopy(*B); break;
            case 11: o = "b"; *(cVec *) W = *B; break;
            case 20: o = "a+b"; AddElements(A, B); break;
            case 21: o = "a+bd"; AddElements(A, B, d); break;
            case 22: o = "a+bd"; di = 0; AddElements(A, B, D); break;
            case 23: o = "b+c"; AddElementsEq(A, B, C); break;
            case 24: o = "i^r"; ExpElements(A, &R, dcomplex(0, M_PI / 2)); break;
            case 25: o = "i^b"; ExpElements(A, B, dcomplex(0, M_PI / 2)); break;
            case 26: o = "im a"; Im(A); break;
            case 27: o = "im b"; Im(A, B); break;
            case 28: o = "re a"; Re(A); break;
            case 29: o = "re b"; Re(A, B); break;
            case 30: o = "a+br"; MultElementsAdd(A, B, &R); break;
            case 31: o = "a+brd"; di = 0; MultElementsAdd(A, B, &R, D); break;
            case 32: o = "a+bd"; MultElementsAdd(A, B, d); break;
            case 33: o = "a+bd"; di = 0; MultElementsAdd(A, B, D); break;
            case 34: o = "ab"; MultElements(A, B); break;
            case 35: o = "br"; MultElements(A, B, &R); break;
            case 36: o = "brd"; di = 0; MultElements(A, B, &R, D); break;
            case 37: o = "abd"; di = 0; MultElements(A, B, D); break;
            case 38: o = "ar"; MultElements(A, &R); break;
            case 39: o = "ard"; MultElements(A, &R, d); break;
            case 40: o = "ard"; di = 0; MultElements(A, &R, D); break;
            case 41: o = "ad"; MultElements(A, d); break;
            case 42: o = "ad"; di = 0; MultElements(A, D); break;
            case 43: o = "iabrd"; di = 0; MultElementsComplex(A, B, &R, D); break;
            case 44: o = "iabd"; di = 0; MultElementsComplex(A, B, D); break;
            case 45: o = "iard"; di = 0; MultElementsComplex(A, &R, D); break;
            case 46: o = "ibrd"; di = 0; MultElementsComplexEq(A, B, &R, D); break;
            case 47: o = "b*cd"; di = 0; MultElementsConjugate(A, B, C, D); break;
            case 48: o = "a*bd"; di = 0; MultElementsConjugate(A, B, D); break;
            case 49: o = "bc"; MultElementsCopy(A, B, C); break;
            case 50: o = "bcd"; di = 0; MultElementsCopy(A, B, C, D); break;
            case 51: o = "br"; MultElementsCopy(A, B, &R); break;
            case 52: o = "brd"; di = 0; MultElementsCopy(A, B, &R, D); break;
            case 53: o = "bd"; MultElementsCopy(A, B, d); break;
            case 54: o = "bd"; di = 0; MultElementsCopy(A, B, D); break;
            case 55: o = "ad"; *A *= d; break;
            }
         });
         log(Ev("Kern").t("op", o).i("i", i).i("b", b).i("c", c).il("a", ar).il("d", {dr, di}).t("r", r).raw("z", "0" + world()));
      } else if (op == "made") {
         // made id how a b
         WF *a = get(L.n(3)), *b = get(L.n(4)), *w = NULL;
         const char *o = j == 0 ? "b+c" : j == 1 ? "bc" : "b*cd";
         r = guard([&] { w = j == 0 ? *a + b : j == 1 ? DirectProduct(a, b) : DirectProductConjugate(a, b); });
         std::vector<long> sub;
         if (w) sub = adopt(i, w);
         log(Ev("Made").i("i", i).i("j", L.n(3)).i("k", L.n(4)).t("op", o).il("sub", sub).t("r", r).raw("z", "0" + world()));
      } else if (op == "assign") {
         WF *a = get(i), *b = get(j), *ret = NULL;
         r = guard([&] { if (L.n(3)) ret = (*a = *b); else ret = (*a = b); });
         if (r == "" && ret != a) r = "other";
         log(Ev("Assign").i("i", i).i("j", j).t("r", r).raw("z", "0" + world()));
      } else if (op == "stridecopy") {
         bool ok = ((cVec *) get(i))->StrideCopy(*(cVec *) get(j), 0, L.n(3) - 1);
         log(Ev("StrideCopy").i("i", i).i("j", j).i("k", L.n(3)).t("r", ok ? "" : "no").raw("z", "0" + world()));
      } else if (op == "switch") {
         get(i)->IsKspace((bool) j);
         log(Ev("Switch").i("i", i).b("ks", j).t("r", "").raw("z", "0" + world()));
      } else if (op == "retire" || op == "reacquire") {
         bool out = op == "retire";
         if (out) get(i)->Retire(); else get(i)->Reaquire();
         if (WFMultistate *m = dynamic_cast<WFMultistate *>(get(i)))
            for (lint k = 0; k < m->States(); k++) gone[idof(m->State(k))] = out;
         else gone[i] = out;
         log(Ev(out ? "Retire" : "Reacquire").i("i", i).t("r", "").raw("z", "0" + world()));
      } else if (op == "delete") {
         WF *w = get(i);
         if (WFMultistate *m = dynamic_cast<WFMultistate *>(w)) {
            for (lint k = 0; k < m->States(); k++) { gone.erase(idof(m->State(k))); leafs.erase(idof(m->State(k))); }
            multis.erase(i);
         } else leafs.erase(i);
         gone.erase(i);
         DELETE_WF(w);
         log(Ev("Delete").i("i", i).t("r", "").raw("z", "0" + world()));
      } else if (op == "dot") {
         dcomplex c;
         double f = 1;
         r = guard([&] { c = *get(i) * get(j); });
         kweight(get(i), f);
         log(Ev("Dot").i("i", i).i("j", j).il("v", {round2(c.real() * f), round2(c.imag() * f)}).t("r", r).raw("z", "0" + world()));
      } else if (op == "norm") {
         double f = 1, n = get(i)->Norm();
         kweight(get(i), f);
         log(Ev("Norm").i("i", i).i("v", lround(n * n * f)).t("r", "").raw("z", "0" + world()));
      } else if (op == "integral") {
         double f = 1;
         dcomplex c = dynamic_cast<WFGridSystem *>(get(i))->Integral();
         kweight(get(i), f);
         log(Ev("Integral").i("i", i).il("v", {round2(c.real() * f), round2(c.imag() * f)}).t("r", "").raw("z", "0" + world()));
      } else if (op == "normalize") {
         WF *w = get(i);
         double n = w->Norm(), f = 1;
         if (n == 0) continue;
         kweight(w, f);
         w->Normalize();
         for (lint k = 0; k < w->size(); k++) {
            dcomplex &c = (*(cVec *) w)[k];
            double re = c.real() * n, im = c.imag() * n;
            if (fabs(re - round(re)) < 1e-7) re = round(re);
            if (fabs(im - round(im)) < 1e-7) im = round(im);
            c = dcomplex(re, im);
         }
         log(Ev("Normalize").i("i", i).i("v", lround(n * n * f)).t("r", "").raw("z", "0" + world()));
      }
   }
   _exit(0);
}
