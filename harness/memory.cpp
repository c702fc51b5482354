// Memory pool: calls, reported figures, state of the blocks.
#include "vt.h"
#include <map>
#include <string.h>
#include "tools/Memory.h"
#include "tools/GlobalParams.h"
using namespace QDLIB;
using namespace vt;
struct Blk { unsigned char *p; long n; };
static std::map<long, Blk> live;
static void pat(unsigned char *p, long n, long id) { for (long k = 0; k < n; k++) p[k] = (unsigned char) (id * 37 + k * 11 + 5); }
static bool ok(unsigned char *p, long n, long id) { for (long k = 0; k < n; k++) if (p[k] != (unsigned char) (id * 37 + k * 11 + 5)) return false; return true; }
static std::vector<long> b1024(size_t v) { std::vector<long> r; while (v) { r.push_back(v % 1024); v /= 1024; } return r; }
int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   Memory *m = NULL;
   auto fig = [&](Ev &e) -> Ev & {
      bool intact = true, aligned = true, disjoint = true;
      for (auto &a : live) {
         intact = intact && ok(a.second.p, a.second.n, a.first);
         aligned = aligned && ((size_t) a.second.p % QDLIB_DATA_ALIGNMENT) == 0;
         for (auto &b : live)
            if (b.first != a.first && a.second.p < b.second.p + b.second.n && b.second.p < a.second.p + a.second.n) disjoint = false;
      }
      return e.i("used", m->CurrentSizeUsed()).i("avail", (long) std::min(m->CurrentSizeAvail(), (size_t) 2000000000))
         .i("max", m->MaximumSize()).i("high", m->MaximumSizeUsed()).b("intact", intact).b("aligned", aligned).b("disjoint", disjoint);
   };
   while (L.read(in)) {
      if (L.w.empty()) continue;
      std::string op = L.op();
      if (op == "open") {
         GlobalParams::Instance().SetValue("MaxMem", L.s(1));
         m = &Memory::Instance();
         m->Reconfigure();
         Ev e("Open");
#ifdef NDEBUG
         e.b("rec", true);
#else
         e.b("rec", false);
#endif
         log(fig(e.i("blk", QDMEM_BLOCK_SIZE)));
      } else if (op == "alloc") {
         long id = L.n(1), n = L.n(2);
         void *p = NULL;
         std::string r = guard([&] { m->Align(&p, n); });
         if (r == "") { pat((unsigned char *) p, n, id); live[id] = Blk{(unsigned char *) p, n}; }
         Ev e("Alloc");
         log(fig(e.i("id", id).i("n", n).t("r", r)));
      } else if (op == "free") {
         long id = L.n(1);
         static char foreign[16];
         void *p = live.count(id) ? (void *) live[id].p : (id % 2 ? (void *) foreign : NULL);
         std::string r = guard([&] { m->Free(p); });
         live.erase(id);
         Ev e("Free");
         log(fig(e.i("id", id).t("r", r)));
      } else if (op == "cleanup") {
         std::string r = guard([&] { m->Cleanup(); });
         Ev e("Cleanup");
         log(fig(e.t("r", r)));
      } else if (op == "reconf") {
         GlobalParams::Instance().SetValue("MaxMem", L.s(1));
         std::string r = guard([&] { m->Reconfigure(); });
         Ev e("Reconfigure");
         log(fig(e.i("m", L.n(2)).t("r", r)));
      } else if (op == "copy") {
         long a = L.n(1), b = L.n(2);
         if (!live.count(a) || !live.count(b)) continue;
         long n = std::min(live[a].n, live[b].n);
         m->Copy((char *) live[b].p, (char *) live[a].p, n);
         bool same = memcmp(live[a].p, live[b].p, n) == 0;
         pat(live[b].p, live[b].n, b);
         log(Ev("Copy").b("same", same));
      } else if (op == "read") {
         std::string s = L.w.size() > 1 ? L.s(1) : "";
         size_t v = 0;
         std::string r = guard([&] { v = Memory::ReadFromString(s); });
         std::vector<std::string> ch;
         for (char c : s) ch.push_back(std::string(1, c));
         log(Ev("ReadSize").tl("s", ch).il("v", r == "" ? b1024(v) : std::vector<long>()).t("r", r));
      } else if (op == "format") {
         size_t v = strtoull(L.s(1).c_str(), NULL, 10);
         std::string s = Memory::Format(v);
         long unit = -1;
         double d = -1;
         char u[8] = "";
         int nf = sscanf(s.c_str(), "%lf%7s", &d, u);
         std::string us = nf == 2 ? u : "";
         if (nf >= 1) unit = us == "" ? 0 : us == "KB" ? 1 : us == "MB" ? 2 : us == "GB" ? 3 : us == "TB" ? 4 : -1;
         log(Ev("Format").il("v", b1024(v)).i("unit", unit).i("tenths", lround(d * 10)));
      }
   }
   fflush(log.f);
   _exit(0);
}
