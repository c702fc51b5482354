// mkwf SCRIPT EVENTS: writes wave function files ("level name size re im ..." / "multi name n size ...").
#include "vt.h"
#include "qdlib/WFLevel.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/FileWF.h"
using namespace QDLIB;
using namespace vt;
int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Line L;
   while (L.read(in)) {
      if (L.w.empty()) continue;
      size_t p = 2;
      int ns = L.op() == "multi" ? L.n(p++) : 1, sz = L.n(p++);
      WFMultistate *m = new WFMultistate();
      WFLevel *w = NULL;
      for (int s = 0; s < ns; s++) {
         w = new WFLevel();
         ParamContainer pc;
         pc.SetValue("size", sz);
         w->Init(pc);
         for (int i = 0; i < sz; i++, p += 2) (*w)[i] = dcomplex(atof(L.s(p).c_str()), atof(L.s(p + 1).c_str()));
         m->Add(w, s);
      }
      FileWF f;
      f.Suffix(".wf");
      f.Name(L.s(1));
      if (L.op() == "multi") { m->Init(ns); f << m; }
      else f << w;
   }
   _exit(0);
}
