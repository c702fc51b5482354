// filewf SCRIPT EVENTS: wave function and operator files, intact and damaged, through FileWF / FileSingle.
#include "vt.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include "qdlib/WFLevel.h"
#include "qdlib/WFGridCartesian.h"
#include "qdlib/WFMultistate.h"
#include "qdlib/OGridPotential.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/FileWF.h"
#include "tools/FileSingleHeader.pb.h"
#include "qdlib/GridSystem.pb.h"
#include "tools/GlobalParams.h"
#include <map>
using namespace QDLIB;
using namespace vt;

static std::map<long, WaveFunction *> W;   // wave functions
static std::map<long, FileWF *> F;         // file objects

static std::string params(ParamContainer &p)
{
   std::string t;
   if (p.isPresent("tag")) p.GetValue("tag", t);
   return t;
}
template <typename T> static void grid(Ev &e, T *g)
{
   std::vector<long> d, x;
   for (int i = 0; i < g->Dim(); i++) {
      d.push_back(g->DimSize(i));
      x.push_back(clampl(g->Xmin(i)));
      x.push_back(clampl(g->Xmax(i)));
   }
   e.il("dim", d).il("x", x);
}
static long thou(double v) { return fabs(v) < 1e6 ? lround(v * 1000) : 2000000000; }
static std::string show(WaveFunction *w)
{
   Ev e("");
   e.s = "{\"c\":" + Ev::q(w->Name());
   std::vector<long> d;
   std::string sub = "[";
   bool ex = true;
   WFMultistate *m = dynamic_cast<WFMultistate *>(w);
   if (m) {
      e.t("tag", "").il("dim", {}).il("x", {});
      bool linked = m->strides() == m->States();
      for (int i = 0; i < m->States(); i++) {
         sub += (i ? "," : "") + show(m->State(i));
         linked = linked && m->begin(i) == m->State(i)->begin(0);
      }
      e.b("linked", linked);
   } else {
      e.t("tag", params(w->Params())).b("linked", true);
      WFGridSystem *g = dynamic_cast<WFGridSystem *>(w);
      if (g) grid(e, g);
      else e.il("dim", {(long) w->size()}).il("x", {});
      for (int i = 0; i < w->size(); i++) {
         double re = (*(cVec *) w)[i].real(), im = (*(cVec *) w)[i].imag();
         d.push_back(thou(re));
         d.push_back(thou(im));
         ex = ex && re == floor(re) && im == floor(im);
      }
   }
   e.il("d", d).b("ex", ex).raw("s", sub + "]");
   return e.s + "}";
}
static long fsize(const std::string &n)
{
   struct stat s;
   return stat(n.c_str(), &s) ? -1 : (long) s.st_size;
}
static std::string slurp(const std::string &n)
{
   std::ifstream f(n, std::ios::binary);
   std::stringstream ss;
   ss << f.rdbuf();
   return ss.str();
}
static void spit(const std::string &n, const std::string &c) { std::ofstream(n, std::ios::binary) << c; }

// region of byte `off` of a stream file
static bool varint(const std::string &s, size_t &p, size_t end, uint64_t &v)
{
   v = 0;
   for (int sh = 0; p < end && sh < 64; sh += 7) {
      unsigned char c = s[p++];
      v |= uint64_t(c & 127) << sh;
      if (!(c & 128)) return true;
   }
   return false;
}
// the field a byte of a protobuf message belongs to; "tag" for field tags and length bytes
static std::string field(const std::string &s, size_t b, size_t end, size_t off)
{
   size_t p = b;
   while (p < end) {
      size_t start = p;
      uint64_t tag, v;
      if (!varint(s, p, end, tag)) return "tag";
      if (off >= start && off < p) return "tag";
      int wt = tag & 7;
      size_t vs = p;
      if (wt == 0) { if (!varint(s, p, end, v)) return "tag"; }
      else if (wt == 1) p += 8;
      else if (wt == 5) p += 4;
      else if (wt == 2) {
         if (!varint(s, p, end, v)) return "tag";
         if (off >= vs && off < p) return "tag";
         vs = p;
         p += v;
      } else return "tag";
      if (off >= vs && off < p) return std::to_string(tag >> 3);
   }
   return "tag";
}
static std::string region(const std::string &s, size_t off)
{
   if (off < 12) return "magic";
   if (off < 16) return "version";
   size_t p = 16;
   while (p + 4 <= s.size()) {
      uint32_t n;
      memcpy(&n, s.data() + p, 4);
      if (off < p + 4) return "hlen";
      p += 4;
      FileSingleHeader h;
      if (p + n > s.size() || !h.ParseFromArray(s.data() + p, n)) return "?";
      if (off < p + n) return "h" + field(s, p, p + n, off) + (h.compression() ? "z" : "");
      p += n;
      size_t len = h.payload_size();
      if (off < p + len) {
         if (h.compression()) return "packed";
         if (h.class_() == "WFLevel") return off < p + 16 ? "psize" : "data";
         if (h.class_() == "WFMultistate") return "pcount";
         uint32_t g;
         memcpy(&g, s.data() + p, 4);
         if (off < p + 4) return "psize";
         if (off >= p + 4 + g) return "data";
         GridSystemHeader gh;
         std::string f = field(s, p + 4, p + 4 + g, off);
         return f == "2" ? "pdim" : f == "tag" ? "ptag" : "psize";
      }
      p += len;
   }
   return "?";
}

typedef FileSingle<OGridPotential> FileG;
typedef FileSingle<OHermitianMatrix> FileM;

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   struct rlimit rl = {3UL << 30, 3UL << 30};
   setrlimit(RLIMIT_AS, &rl);
   signal(SIGXFSZ, SIG_IGN);
   Line L;
   log(Ev("Open"));
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string op = L.op();
      long i = L.n(1);
      if (op == "level" || op == "gridwf") {          // level i tag n content | gridwf i tag dims (n xmin xmax)* content
         WaveFunction *w;
         ParamContainer p;
         size_t k = 4;
         std::string e;
         if (op == "level") {
            w = new WFLevel();
            p.SetValue("size", (int) L.n(3));
         } else {
            w = new WFGridCartesian();
            p.SetValue("dims", (int) L.n(3));
            for (int d = 0; d < L.n(3); d++) {
               std::string c = std::to_string(d);
               p.SetValue("N" + c, (int) L.n(k));
               p.SetValue("xmin" + c, (double) L.n(k + 1));
               p.SetValue("xmax" + c, (double) L.n(k + 2));
               k += 3;
            }
         }
         if (L.s(2) != "-") p.SetValue("tag", L.s(2));
         w->Init(p);
         for (int x = 0; x < w->size(); x++, k += 2) (*(cVec *) w)[x] = dcomplex(L.n(k), L.n(k + 1));
         W[i] = w;
         log(Ev("New").i("i", i).raw("w", show(w)));
      } else if (op == "multi") {                     // multi i slot...  (the slots go into it)
         WFMultistate *m = new WFMultistate();
         for (size_t k = 2; k < L.w.size(); k++) {
            m->Add(W[L.n(k)], k - 2);
            W.erase(L.n(k));
         }
         ((WaveFunction *) m)->IsKspace(false);
         m->Init((int) L.w.size() - 2);
         W[i] = m;
         std::vector<long> ids;
         for (size_t k = 2; k < L.w.size(); k++) ids.push_back(L.n(k));
         log(Ev("Multi").i("i", i).il("l", ids).raw("w", show(m)));
      } else if (op == "empty") {                     // empty i class
         W[i] = L.s(2) == "L" ? (WaveFunction *) new WFLevel() : (WaveFunction *) new WFGridCartesian();
         log(Ev("Empty").i("i", i).t("c", W[i]->Name()));
      } else if (op == "gp") {
         ParamContainer &g = GlobalParams::Instance();
         g.clear();
         std::vector<std::string> kv;
         for (size_t k = 1; k + 1 < L.w.size(); k += 2) {
            if (L.s(k) == "compress") g.SetValue("compress", L.s(k + 1) == "yes");
            else g.SetValue(L.s(k), L.s(k + 1));
         }
         log(Ev("Global").t("wf_format", g.isPresent("wf_format") ? L.s(2) : ""));
      } else if (op == "file") {                      // file i name
         std::string r = guard([&] { F[i] = new FileWF(); F[i]->Name(L.s(2)); });
         log(Ev("File").i("f", i).t("name", L.s(2)).t("r", r).i("counter", F[i]->Counter()));
      } else if (op == "name") { F[i]->Name(L.s(2)); log(Ev("Name").i("f", i).t("name", L.s(2)).t("base", L.s(3)).i("counter", F[i]->Counter()));
      } else if (op == "out") {
         F[i]->FormatOut(L.s(2) == "binary" ? FileWF::binary : FileWF::stream);
         log(Ev("Out").i("f", i).t("fmt", L.s(2)).i("counter", F[i]->Counter()));
      } else if (op == "comp") {                      // comp f none|zlib|bzip tolerance in hundredths
         if (L.s(2) == "none") F[i]->Compress(false);
         else F[i]->CompressMethod(L.s(2) == "zlib" ? FileWF::ZLIB : FileWF::BZIP);
         if (L.w.size() > 3) F[i]->CompressionTolerance(L.n(3) ? L.n(3) / 100.0 : 1e-6);
         log(Ev("Comp").i("f", i).t("m", L.s(2)).i("tol", L.w.size() > 3 ? L.n(3) : -1).i("counter", F[i]->Counter()));
      } else if (op == "seq") { F[i]->ActivateSequence(L.n(2)); log(Ev("Seq").i("f", i).i("n", L.n(2)).i("counter", F[i]->Counter()));
      } else if (op == "seq0") { F[i]->ActivateSequence(); log(Ev("Seq0").i("f", i).i("counter", F[i]->Counter()));
      } else if (op == "stop") { F[i]->StopSequence(); log(Ev("Stop").i("f", i).i("counter", F[i]->Counter()));
      } else if (op == "count") { F[i]->Counter(L.n(2)); log(Ev("Count").i("f", i).i("n", L.n(2)).i("counter", F[i]->Counter()));
      } else if (op == "reset") { F[i]->ResetCounter(); log(Ev("Reset").i("f", i).i("counter", F[i]->Counter()));
      } else if (op == "rev") { F[i]->ReverseSequence(); log(Ev("Rev").i("f", i).i("counter", F[i]->Counter()));
      } else if (op == "fwd") { F[i]->ForwardSequence(); log(Ev("Fwd").i("f", i).i("counter", F[i]->Counter()));
      } else if (op == "write") {
         std::string before = show(W[L.n(2)]);
         std::string r = guard([&] { *F[i] << W[L.n(2)]; });
         log(Ev("Write").i("f", i).i("i", L.n(2)).t("r", r).i("counter", F[i]->Counter()).t("nm", F[i]->Name())
             .b("same", before == show(W[L.n(2)])));
      } else if (op == "read") {
         std::string r = guard([&] { *F[i] >> W[L.n(2)]; });
         Ev e("Read");
         e.i("f", i).i("i", L.n(2)).t("r", r).i("counter", F[i]->Counter()).t("nm", F[i]->Name());
         if (r == "") e.raw("w", show(W[L.n(2)]));
         else W.erase(L.n(2));
         log(e);
      } else if (op == "load") {
         WaveFunction *w = NULL;
         std::string r = guard([&] { *F[i] >> &w; });
         Ev e("Load");
         e.i("f", i).i("i", L.n(2)).t("r", r).i("counter", F[i]->Counter()).t("nm", F[i]->Name());
         if (r == "") { W[L.n(2)] = w; e.raw("w", show(w)); }
         log(e);
      } else if (op == "touch") {                     // change content in place
         long k = L.n(2);
         WaveFunction *w = W[i];
         WFMultistate *m = dynamic_cast<WFMultistate *>(w);
         if (m) { w = m->State(k / 100); k = k % 100; }
         (*(cVec *) w)[k] = dcomplex(L.n(3), L.n(4));
         log(Ev("Touch").i("i", i).raw("w", show(W[i])));
      } else if (op == "trunc") {                     // trunc file permille
         long n = fsize(L.s(1)), to = L.s(2)[0] == '-' ? n + L.n(2) : L.n(2) * n / 1000;
         if (to < 0) to = 0;
         bool did = n > 0 && to < n && truncate(L.s(1).c_str(), to) == 0;
         log(Ev("Damage").t("n", L.s(1)).t("k", did ? "cut" : "none"));
      } else if (op == "xor") {                       // xor file permille value
         std::string c = slurp(L.s(1));
         std::string k = "none";
         if (c.size()) {
            size_t off = L.s(2)[0] == '@' ? atol(L.s(2).c_str() + 1) : L.n(2) * c.size() / 1000;
            if (off < c.size()) {
               k = region(c, off);
               uint32_t hn = 0, was = 0, now = 0;
               if (k == "pcount") {
                  memcpy(&hn, c.data() + 16, 4);
                  memcpy(&was, c.data() + 20 + hn, 4);
               }
               c[off] ^= (char) (L.n(3) ? L.n(3) : 1);
               if (k == "pcount") {
                  memcpy(&now, c.data() + 20 + hn, 4);
                  if (now > 0 && now < was) k = "pless";
               }
               spit(L.s(1), c);
            }
         }
         log(Ev("Damage").t("n", L.s(1)).t("k", k));
      } else if (op == "fill") {                      // fill file text: becomes something else
         bool there = fsize(L.s(1)) >= 0;
         if (there) spit(L.s(1), L.s(2) == "-" ? "" : L.s(2));
         log(Ev("Damage").t("n", L.s(1)).t("k", !there ? "none" : L.s(2) == "-" ? "cut" : "foreign"));
      } else if (op == "append") {
         bool there = fsize(L.s(1)) >= 0;
         if (there) spit(L.s(1), slurp(L.s(1)) + L.s(2));
         log(Ev("Damage").t("n", L.s(1)).t("k", there ? "longer" : "none"));
      } else if (op == "rm") {
         unlink(L.s(1).c_str());
         log(Ev("Damage").t("n", L.s(1)).t("k", "gone"));
      } else if (op == "full") {                      // full f i limit: no room for more than that many bytes
         std::vector<std::string> was = listdir("."), gone;
         std::string before = show(W[L.n(2)]);
         struct rlimit fl, keep;
         getrlimit(RLIMIT_FSIZE, &keep);
         fl = keep;
         fl.rlim_cur = L.n(3);
         setrlimit(RLIMIT_FSIZE, &fl);
         std::string r = guard([&] { *F[i] << W[L.n(2)]; });
         setrlimit(RLIMIT_FSIZE, &keep);
         for (auto &n : listdir("."))
            if (n.substr(0, F[i]->Name().size()) == F[i]->Name()) { unlink(n.c_str()); gone.push_back(n); }
         log(Ev("Full").i("f", i).i("i", L.n(2)).t("r", r).i("counter", F[i]->Counter()).t("nm", F[i]->Name())
             .b("same", before == show(W[L.n(2)])).tl("gone", gone));
      } else if (op == "ls") {
         std::vector<std::string> v;
         for (auto &n : listdir(".")) if (n[0] != '.' && n.substr(0, 2) != "op" && n.substr(0, 6) != "wisdom") v.push_back(n);
         std::sort(v.begin(), v.end());
         log(Ev("Ls").tl("n", v));
      } else if (op == "gop") {                       // gop fmt comp dims (n xmin xmax)* content: write and read back a potential
         FileG out;
         out.Suffix(".op");
         out.Name("op" + std::to_string(i));
         out.FormatOut(L.s(2) == "binary" ? FileG::binary : FileG::stream);
         out.Compression(L.s(3) == "none" ? FileG::UNCOMPRESSED : L.s(3) == "zlib" ? FileG::ZLIB : FileG::BZIP);
         OGridPotential *o = new OGridPotential(), *b = new OGridPotential();
         ParamContainer p;
         size_t k = 5;
         int dims = L.n(4);
         p.SetValue("dims", dims);
         for (int d = 0; d < dims; d++, k += 3) {
            std::string c = std::to_string(d);
            p.SetValue("N" + c, (int) L.n(k));
            p.SetValue("xmin" + c, (double) L.n(k + 1));
            p.SetValue("xmax" + c, (double) L.n(k + 2));
         }
         o->Init(p);
         std::vector<long> want, got;
         for (int x = 0; x < o->size(); x++) { (*o)[x] = L.n(k + x); want.push_back(L.n(k + x)); }
         std::string r1 = guard([&] { out << o; });
         ParamContainer q;
         q.SetValue("file", "op" + std::to_string(i));
         long sz = fsize("op" + std::to_string(i) + ".op");
         if (L.s(1)[0] == '-' ) truncate(("op" + std::to_string(i) + ".op").c_str(), sz * (-i) / 1000);
         std::string r2 = guard([&] { b->Init(q); });
         Ev e("GOp");
         e.b("cut", L.s(1)[0] == '-').t("w", r1).t("r", r2).il("want", want);
         if (r2 == "") {
            for (int x = 0; x < b->size(); x++) got.push_back(clampl((*b)[x]));
            e.il("got", got).b("grid", *(GridSystem *) o == *(GridSystem *) b);
         }
         log(e);
      } else if (op == "mop") {                       // mop i fmt comp n content
         FileM out;
         out.Suffix(".op");
         out.Name("op" + std::to_string(i));
         out.FormatOut(L.s(2) == "binary" ? FileM::binary : FileM::stream);
         out.Compression(L.s(3) == "none" ? FileM::UNCOMPRESSED : L.s(3) == "zlib" ? FileM::ZLIB : FileM::BZIP);
         OHermitianMatrix *o = new OHermitianMatrix(), *b = new OHermitianMatrix();
         ParamContainer p;
         p.SetValue("size", (int) L.n(4));
         o->Init(p);
         std::vector<long> want, got;
         int n = L.n(4);
         for (int x = 0; x < n * n; x++) { (*o)(x / n, x % n) = L.n(5 + x); want.push_back(L.n(5 + x)); }
         std::string r1 = guard([&] { out << o; });
         ParamContainer q;
         q.SetValue("file", "op" + std::to_string(i));
         long sz = fsize("op" + std::to_string(i) + ".op");
         if (L.s(1)[0] == '-') truncate(("op" + std::to_string(i) + ".op").c_str(), sz * (-i) / 1000);
         std::string r2 = guard([&] { b->Init(q); });
         Ev e("GOp");
         e.b("cut", L.s(1)[0] == '-').t("w", r1).t("r", r2).il("want", want);
         if (r2 == "") {
            int m = b->rows();
            for (int x = 0; x < m * m; x++) got.push_back(clampl((*b)(x / m, x % m)));
            e.il("got", got).b("grid", true);
         }
         log(e);
      } else { fprintf(stderr, "unknown op %s\n", op.c_str()); return 78; }
   }
   log(Ev("End"));
   fflush(NULL);
   _exit(0);
}
