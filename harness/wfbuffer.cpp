// Performs a script of WFBuffer calls and records what can be observed.
#include "vt.h"
#include <map>
#include <set>
#include "qdlib/WFBuffer.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "tools/GlobalParams.h"
using namespace QDLIB;
using namespace vt;

// A level wave function that can be told apart from any other one, alive or dead.
static std::map<WaveFunction *, long> alive;
static long serial = 0;
class TWF : public WFLevel {
   public:
      TWF(size_t n) : WFLevel(n) { alive[this] = ++serial; }
      ~TWF() { alive.erase(this); }
      WaveFunction *NewInstance() { return new TWF(size()); }
      WaveFunction *operator=(WaveFunction *P) { return WFLevel::operator=(P); }
      dcomplex operator*(WaveFunction *P) { return WFLevel::operator*(P); }
};

static long elems = 1, states = 0, tracked = 1;

static WaveFunction *make()
{
   if (states == 0) return new TWF(elems);
   WFMultistate *m = new WFMultistate();
   for (long s = 0; s < states; s++) m->Add(new TWF(elems), s);
   m->Init(states);
   return m;
}

static void fill1(WaveFunction *w, long v, long s)
{
   for (long k = 0; k < w->size(); k++) (*(cVec *) w)[k] = dcomplex(v + 0.25 * k, 100 * s + k);
}
static void fill(WaveFunction *w, long v)
{
   if (WFMultistate *m = dynamic_cast<WFMultistate *>(w))
      for (long s = 0; s < states; s++) fill1(m->State(s), v, s);
   else fill1(w, v, 0);
}
static long read1(WaveFunction *w, long s)
{
   if (w->size() != elems) return 66666666;
   double v = (*(cVec *) w)[0].real();
   for (long k = 0; k < elems; k++)
      if ((*(cVec *) w)[k].real() != v + 0.25 * k || (*(cVec *) w)[k].imag() != 100 * s + k) return 77777777;
   return clampl(v);
}
static long content(WaveFunction *w)
{
   if (WFMultistate *m = dynamic_cast<WFMultistate *>(w)) {
      if (m->States() != states) return 55555555;
      long v = read1(m->State(0), 0);
      for (long s = 1; s < states; s++) if (read1(m->State(s), s) != v) return 77777777;
      // the container's own view of the storage
      for (long s = 0; s < states; s++)
         for (long k = 0; k < elems; k++)
            if (m->begin(s)[k].real() != v + 0.25 * k) return 44444444;
      return v;
   }
   return read1(w, 0);
}

struct Ptr { WaveFunction *p; long serial; };
static std::map<long, Ptr> handed;      // position -> what Get returned last
static long key(WaveFunction *w)
{
   WFMultistate *m = dynamic_cast<WFMultistate *>(w);
   WaveFunction *q = m ? m->State(0) : w;
   return alive.count(q) ? alive[q] : -1;
}
static std::map<long, WaveFunction *> leaf;  // serial -> object

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   WFBuffer *buf = NULL;
   WaveFunction *src = NULL;
   FS::CreateDir("tmp");
   FS::CreateDir("out");
   long own = 0;

   auto live = [&]() -> long {
      if (!tracked) return -1;
      long n = (long) alive.size() - own;
      return states ? n / states : n;
   };
   auto observe = [&](Ev &e) -> Ev & {
      std::string s = "[";
      std::vector<long> gone;
      for (auto &h : handed) {
         bool ok = false;
         for (auto &a : alive) if (a.second == h.second.serial) ok = true;
         if (!ok) { gone.push_back(h.first); continue; }
         if (s.size() > 1) s += ",";
         s += "{\"p\":" + std::to_string(h.first) + ",\"v\":" + std::to_string(content(h.second.p)) + "}";
      }
      for (long g : gone) handed.erase(g);
      e.raw("ptr", s + "]").i("live", live()).i("files", listdir("tmp").size());
      return e;
   };

   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string &op = L.op();
      if (op == "open") {
         elems = L.n(1); states = L.n(3); tracked = L.n(4);
         ParamContainer &gp = GlobalParams::Instance();
         gp.clear();
         gp.SetValue("MaxBufferSize", std::to_string(L.n(2)));
         gp.SetValue("tmpdir", "tmp");
         src = make();
         own = alive.size();
         handed.clear();
         buf = new WFBuffer();
         log(Ev("Open").i("wb", elems * (long) sizeof(dcomplex) * (states ? states : 1)).i("max", L.n(2)).i("tracked", tracked));
      } else if (op == "init") {
         std::string r = guard([&] { buf->Init(src); });
         Ev e("Init");
         log(observe(e.i("wb", elems * (long) sizeof(dcomplex) * (states ? states : 1)).t("r", r)));
         if (r != "") break;
      } else if (op == "set" || op == "add") {
         bool add = op == "add";
         long i = add ? -1 : L.n(1), v = add ? L.n(1) : L.n(2);
         fill(src, v);
         std::string r = guard([&] { if (add) buf->Add(src); else buf->Set(i, src); });
         fill(src, 31);
         Ev e(add ? "Add" : "Set");
         log(observe(e.i("i", i).i("v", v).t("r", r)));
         if (r != "") break;
      } else if (op == "get" || op == "idx") {
         WaveFunction *w = NULL;
         long i = L.n(1), v = -1;
         std::string r = guard([&] { w = op == "idx" ? (*buf)[i] : buf->Get(i); });
         if (r == "" && w) {
            v = content(w);
            long k = key(w);
            handed[i] = Ptr{w, tracked ? k : -1};
            if (!tracked) handed.erase(i);
         }
         Ev e("Get");
         e.i("i", i).i("v", v).t("r", r);
         if (!tracked && r == "") {
            // only the object just handed out is known to be there
            e.raw("ptr", "[{\"p\":" + std::to_string(i) + ",\"v\":" + std::to_string(v) + "}]").i("live", -1)
               .i("files", listdir("tmp").size());
            log(e);
         } else log(observe(e));
         if (r != "" && r != "EIncompatible") break;
         if (r == "" && L.n(2) && v != 77777777) {
            // change it in place
            fill(w, L.n(2));
            log(Ev("Write").i("i", i).i("v", L.n(2)).t("r", ""));
         }
      } else if (op == "write") {
         // in place through an object handed out earlier, if the buffer still has it
         long i = L.n(1);
         bool ok = false;
         if (handed.count(i))
            for (auto &a : alive) if (a.second == handed[i].serial) ok = true;
         if (ok) {
            fill(handed[i].p, L.n(2));
            log(Ev("Write").i("i", i).i("v", L.n(2)).t("r", ""));
         }
      } else if (op == "lock" || op == "unlock") {
         if ((size_t) L.n(1) >= buf->Size()) continue;
         std::string r = guard([&] { if (op == "lock") buf->Lock(L.n(1)); else buf->UnLock(L.n(1)); });
         Ev e(op == "lock" ? "Lock" : "UnLock");
         log(observe(e.i("i", L.n(1)).t("r", r)));
         if (r != "") break;
      } else if (op == "autolock") {
         std::string r = guard([&] { buf->AutoLock(L.n(1)); });
         log(Ev("AutoLock").i("n", L.n(1)).i("got", buf->AutoLock()).t("r", r));
      } else if (op == "resize") {
         std::string r = guard([&] { buf->ResizeBuffer(L.n(1)); });
         Ev e("Resize");
         log(observe(e.i("n", L.n(1)).t("r", r)));
         if (r != "") break;
      } else if (op == "size") {
         log(Ev("Size").i("n", buf->Size()).t("r", ""));
      } else if (op == "clear") {
         std::string r = guard([&] { buf->Clear(); });
         Ev e("Clear");
         log(observe(e.t("r", r)));
      } else if (op == "save") {
         std::string r = guard([&] { buf->SaveToFiles("out/W"); });
         Ev e("Save");
         log(observe(e.t("r", r)));
         if (r != "") break;
      } else if (op == "load") {
         std::string r = guard([&] { buf->ReadFromFiles("out/W", L.n(1), L.n(2), L.n(3)); });
         Ev e("Load");
         log(observe(e.i("b", L.n(1)).i("k", L.n(2)).i("n", L.n(3)).t("r", r)));
         if (r != "") break;
      }
   }
   if (buf) {
      delete buf;
      log(Ev("Destroy").i("files", listdir("tmp").size()).i("live", live()));
   }
   fflush(log.f);
   _exit(0);
}
