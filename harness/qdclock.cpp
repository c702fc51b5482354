// Performs a script of clock calls and records every clock's figures after each.
#include "vt.h"
#include <map>
#include "tools/QDClock.h"
#include "tools/QDGlobalClock.h"
using namespace QDLIB;
using namespace vt;

static std::map<long, QDClock *> c;
static double unit = 1;

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   auto seen = [&](Ev &e) -> Ev & {
      std::string s = "[";
      for (auto &p : c) {
         const QDClock &k = *p.second;
         double t = k.Time() / unit;
         bool exact = k.Time() == k.TimeStep() * k.Dt();
         if (s.size() > 1) s += ",";
         s += "{\"i\":" + std::to_string(p.first) + ",\"dt\":" + std::to_string(lround(k.Dt() / unit)) + ",\"n\":" +
              std::to_string(k.Steps()) + ",\"s\":" + std::to_string(k.TimeStep()) + ",\"t\":" +
              std::to_string(clampl(t)) + ",\"exact\":" + (exact ? "true" : "false") + "}";
      }
      return e.raw("c", s + "]");
   };
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string &op = L.op();
      long i = L.n(1), n = L.n(2);
      if (op == "open") {
         unit = atof(L.s(1).c_str());
         for (auto &p : c) if (p.first) delete p.second;
         c.clear();
         QDGlobalClock::Destroy();
         log(Ev("Open"));
         continue;
      }
      if (op == "new") {
         c[i] = new QDClock(n, L.n(3) * unit);
         Ev e("New"); log(seen(e.i("i", i).i("n", n).i("d", L.n(3)).t("r", "")));
         continue;
      }
      if (op == "new0") {
         c[i] = new QDClock();
         Ev e("New0"); log(seen(e.i("i", i).t("r", "")));
         continue;
      }
      if (op == "copy") {
         if (!c.count(n)) continue;
         c[i] = new QDClock(*c[n]);
         Ev e("Copy"); log(seen(e.i("i", i).i("j", n).t("r", "")));
         continue;
      }
      if (op == "global") {
         QDClock *g = QDGlobalClock::Instance();
         bool same = g == QDGlobalClock::Instance() && (!c.count(0) || c[0] == g);
         for (auto &p : c) if (p.first && p.second == g) same = false;
         c[0] = g;
         Ev e("Global"); log(seen(e.b("same", same).t("r", "")));
         continue;
      }
      if (op == "destroy") {
         std::string r = guard([&] { QDGlobalClock::Destroy(); });
         c.erase(0);
         Ev e("Destroy"); log(seen(e.t("r", r)));
         continue;
      }
      if (!c.count(i)) continue;
      QDClock &k = *c[i];
      if (op == "dt") { k.Dt(n * unit); Ev e("Dt"); log(seen(e.i("i", i).i("d", n).t("r", ""))); }
      else if (op == "steps") { k.Steps(n); Ev e("Steps"); log(seen(e.i("i", i).i("n", n).t("r", ""))); }
      else if (op == "step") { k.TimeStep(n); Ev e("Step"); log(seen(e.i("i", i).i("n", n).t("r", ""))); }
      else if (op == "begin") { k.Begin(); Ev e("Begin"); log(seen(e.i("i", i).t("r", ""))); }
      else if (op == "end") { k.End(); Ev e("End"); log(seen(e.i("i", i).t("r", ""))); }
      else if (op == "inc") { QDClock &r = ++k; Ev e("Inc"); log(seen(e.i("i", i).b("same", &r == &k).t("r", ""))); }
      else if (op == "dec") { QDClock &r = --k; Ev e("Dec"); log(seen(e.i("i", i).b("same", &r == &k).t("r", ""))); }
      else if (op == "assign" && c.count(n)) {
         QDClock &r = (k = *c[n]);
         Ev e("Assign"); log(seen(e.i("i", i).i("j", n).b("same", &r == &k).t("r", "")));
      }
      else if (op == "sync" && c.count(n)) {
         std::string r = guard([&] { k.Sync(*c[n]); });
         Ev e("Sync"); log(seen(e.i("i", i).i("j", n).t("r", r)));
      }
   }
   _exit(0);
}
