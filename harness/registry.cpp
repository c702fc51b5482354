// Named operators and wave functions.
#include "vt.h"
#include <map>
#include <set>
#include "GlobalOpList.h"
#include "GlobalWFList.h"
#include "tools/Collector.h"
#include "tools/Logger.h"
#include "qdlib/WFLevel.h"
using namespace QDLIB;
using namespace vt;

static std::vector<long> gone;
static std::vector<std::pair<long, long>> inits;
struct TOp : public Operator {
   long id, n;
   std::string nm;
   TOp(long i) : id(i), n(0), nm("Fake") {}
   ~TOp() { gone.push_back(id); }
   Operator *NewInstance() { return new TOp(-1); }
   void Init(ParamContainer &) {}
   void Init(WaveFunction *psi)
   {
      if (psi == NULL || psi->size() > 5) throw(EIncompatible("does not fit"));
      n = psi->size();
      inits.push_back(std::make_pair(id, n));
   }
   const std::string &Name() { return nm; }
   dcomplex Emax() { return 0; }
   dcomplex Emin() { return 0; }
   void Apply(WaveFunction *, WaveFunction *) {}
   void Apply(WaveFunction *) {}
   Operator *operator=(Operator *O) { return Copy(O); }
   Operator *Copy(Operator *) { return this; }
   bool Valid(WaveFunction *psi) { return psi && n && long(psi->size()) == n; }
};
struct TWf : public WFLevel {
   long id;
   TWf(long i) : id(i) {}
   ~TWf() { gone.push_back(id); }
};
static std::map<long, TOp *> op_;
static std::map<long, TWf *> wf_;
static Log *log_;

static std::vector<std::string> listed(void (*print)())
{
   std::stringstream ss;
   Logger &lg = Logger::InstanceRef();
   lg.SetRedirect(ss);
   print();
   lg.flush();
   lg.ConsoleOutput();
   std::vector<std::string> r;
   std::string s;
   while (std::getline(ss, s)) {
      size_t p = s.find('\t');
      if (p != std::string::npos) r.push_back(s.substr(s.find_first_not_of(' '), p - s.find_first_not_of(' ')));
   }
   return r;
}
static void emit(Ev e)
{
   std::vector<long> g = gone;
   std::string is = "[";
   for (size_t i = 0; i < inits.size(); i++) is += (i ? ",[" : "[") + std::to_string(inits[i].first) + "," + std::to_string(inits[i].second) + "]";
   gone.clear(); inits.clear();
   std::set<std::string> k = GlobalOpList::Instance().Keys();
   e.il("gone", g).raw("inits", is + "]").tl("keys", std::vector<std::string>(k.begin(), k.end()));
   e.tl("okeys", listed([] { GlobalOpList::Instance().PrintList(); })).tl("wkeys", listed([] { GlobalWFList::Instance().PrintList(); }));
   (*log_)(e);
}
static long idof(Operator *o) { TOp *t = dynamic_cast<TOp *>(o); return t ? t->id : -1; }
static std::string str(const std::string &w) { return w == "-" ? "" : w; }

int main(int, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   log_ = &log;
   Line L;
   log(Ev("Open"));
   while (L.read(in)) {
      if (L.w.empty()) continue;
      std::string op = L.op();
      GlobalOpList &ol = GlobalOpList::Instance();
      GlobalWFList &wl = GlobalWFList::Instance();
      if (op == "op") {
         TOp *o = new TOp(L.n(1));
         op_[o->id] = o;
         emit(Ev("Op").i("id", o->id));
      } else if (op == "wf") {
         TWf *w = new TWf(L.n(1));
         ParamContainer pc;
         pc.SetValue("size", int(L.n(2)));
         w->Init(pc);
         for (int i = 0; i < L.n(2); i++) (*w)[i] = dcomplex(w->id, i);
         wf_[w->id] = w;
         emit(Ev("Wf").i("id", w->id));
      } else if (op == "hold" || op == "drop") {
         long id = L.n(1);
         if (op == "hold") {
            if (op_.count(id)) Collector<Operator>::Instance()->Register(op_[id]);
            else Collector<WaveFunction>::Instance()->Register(wf_[id]);
         } else if (op_.count(id)) DELETE_OP(op_[id]);
         else DELETE_WF(wf_[id]);
         emit(Ev(op == "hold" ? "Hold" : "Drop").i("id", id));
      } else if (op == "addop") {      // key id persist
         std::string k = str(L.s(1));
         Operator *o = L.n(2) ? op_[L.n(2)] : NULL;
         Ev e("AddOp");
         e.t("k", k).i("id", L.n(2)).b("p", L.n(3));
         std::string r = guard([&] { if (L.n(3)) ol.Add(k, o, true); else ol.Add(k, o); });
         emit(e.t("key", k).t("r", r));
      } else if (op == "setlabel") {
         std::string r = guard([&] { ol.SetLabel(L.s(1), str(L.s(2))); });
         emit(Ev("SetLabel").t("k", L.s(1)).t("label", str(L.s(2))).t("r", r));
      } else if (op == "getlabels") {
         long max = L.n(2);
         std::vector<Operator *> a(max + 2, (Operator *) &log);
         int n = 0;
         std::string r = guard([&] { n = ol.GetLabels(str(L.s(1)), &a[0], max); });
         std::vector<long> got;
         for (int i = 0; i < n && i < max; i++) got.push_back(idof(a[i]));
         emit(Ev("GetLabels").t("label", str(L.s(1))).i("max", max).i("n", n).il("got", got).b("over", a[max] != (Operator *) &log || a[max + 1] != (Operator *) &log).t("r", r));
      } else if (op == "checklabel") {
         bool h = false;
         std::string r = guard([&] { h = ol.CheckLabel(op_[L.n(1)], str(L.s(2))); });
         emit(Ev("CheckLabel").i("id", L.n(1)).t("label", str(L.s(2))).b("has", h).t("r", r));
      } else if (op == "lookop") {
         Operator *o = NULL;
         std::string r = guard([&] { o = ol[L.s(1)]; });
         emit(Ev("LookOp").t("k", L.s(1)).i("got", idof(o)).t("r", r));
      } else if (op == "initkey") {
         TWf *w = wf_[L.n(2)];
         std::string r = guard([&] { ol.Init(L.s(1), w); });
         emit(Ev("InitKey").t("k", L.s(1)).i("n", w->size()).t("r", r));
      } else if (op == "initptr") {
         TWf *w = wf_[L.n(2)];
         std::string r = guard([&] { ol.Init(op_[L.n(1)], w); });
         emit(Ev("InitPtr").i("id", L.n(1)).i("n", w->size()).t("r", r));
      } else if (op == "clearops") {
         std::string r = guard([&] { if (L.n(1)) ol.Clear(true); else ol.Clear(); });
         emit(Ev("ClearOps").b("all", L.n(1)).t("r", r));
      } else if (op == "restore") {
         std::vector<std::string> v(L.w.begin() + 1, L.w.end());
         std::string r = guard([&] { ol.Restore(std::set<std::string>(v.begin(), v.end())); });
         emit(Ev("Restore").tl("to", v).t("r", r));
      } else if (op == "addwf") {
         std::string k = str(L.s(1));
         WaveFunction *w = L.n(2) ? wf_[L.n(2)] : NULL;
         std::string r = guard([&] { if (L.n(3)) wl.Add(k, w, true); else wl.Add(k, w); });
         emit(Ev("AddWf").t("k", k).i("id", L.n(2)).b("p", L.n(3)).t("r", r));
      } else if (op == "setwf") {
         std::string r = guard([&] { wl.Set(L.s(1), wf_[L.n(2)]); });
         emit(Ev("SetWf").t("k", L.s(1)).i("id", L.n(2)).t("r", r));
      } else if (op == "lookwf") {
         WaveFunction *w = NULL;
         std::string r = guard([&] { w = L.n(2) ? wl[L.s(1)] : wl.Get(L.s(1)); });
         emit(Ev("LookWf").t("k", L.s(1)).i("got", w ? long((*w)[0].real()) : -1).t("r", r));
      } else if (op == "copywf") {
         WaveFunction *w = NULL;
         bool other = true;
         long got = -1;
         std::string r = guard([&] {
            w = wl.GetCopy(L.s(1));
            WaveFunction *o = wl.Get(L.s(1));
            got = long((*w)[0].real());
            other = w != o && w->size() == o->size();
            for (size_t i = 0; other && i < w->size(); i++) other = (*w)[i].real() == (*o)[i].real() && (*w)[i].imag() == (*o)[i].imag();
            (*w)[0] = dcomplex(-7, -7);
            other = other && (*o)[0].real() == got;
            DELETE_WF(w);
         });
         emit(Ev("CopyWf").t("k", L.s(1)).i("got", got).b("other", other).t("r", r));
      } else if (op == "clearwfs") {
         std::string r = guard([&] { wl.Clear(); });
         emit(Ev("ClearWfs").t("r", r));
      }
   }
   fflush(log.f);
   _exit(0);
}
