// wfio SCRIPT EVENTS: writes and reads wave function files.
//   level NAME size re im ...      multi NAME n size re im ...      dump NAME
#include "vt.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/FileWF.h"
using namespace QDLIB;
using namespace vt;

static long scaled(double x) { return x < 1e6 && x > -1e6 ? lround(1000 * x) : 999999999; }
static void put(std::ostream &o, WaveFunction *w, bool &first)
{
   for (size_t i = 0; i < w->size(); i++) {
      dcomplex z = (*w)[i];
      o << (first ? "" : ",") << scaled(z.real()) << "," << scaled(z.imag());
      first = false;
   }
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   std::ofstream out(argv[2]);
   Line L;
   while (L.read(in)) {
      if (L.w.empty()) continue;
      size_t p = 2;
      FileWF f;
      f.Suffix(".wf");
      f.Name(L.s(1));
      if (L.op() == "dump") {
         WaveFunction *w = NULL;
         std::string s;
         try {
            f >> &w;
         } catch (Exception &e) {
            w = NULL;
         }
         WFMultistate *m = dynamic_cast<WFMultistate *>(w);
         out << "{\"kind\":\"" << (w ? "wf" : "bad") << "\",\"ns\":" << (m ? m->States() : 1) << ",\"v\":[";
         bool first = true;
         if (m)
            for (int i = 0; i < m->States(); i++) put(out, m->State(i), first);
         else if (w)
            put(out, w, first);
         out << "]}\n";
         continue;
      }
      int ns = L.op() == "multi" ? L.n(p++) : 1, sz = L.n(p++);
      WFMultistate *m = new WFMultistate();
      WFLevel *w = NULL;
      for (int s = 0; s < ns; s++) {
         w = new WFLevel();
         ParamContainer pc;
         pc.SetValue("size", sz);
         w->Init(pc);
         for (int i = 0; i < sz; i++, p += 2) (*w)[i] = dcomplex(atof(L.s(p).c_str()), atof(L.s(p + 1).c_str()));
         m->Add(w, s);
      }
      if (L.op() == "multi") { m->Init(ns); f << m; }
      else f << w;
   }
   out.flush();
   _exit(0);
}
