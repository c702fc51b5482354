// Arrays on disk, and the directories they live in.
#include "vt.h"
#include <map>
#include <set>
#include <signal.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include "tools/TmpFile.h"
#include "tools/GlobalParams.h"
#include "math/dcomplex.h"
using namespace QDLIB;
using namespace vt;

struct Arr {
   bool open_, map;
   virtual ~Arr() {}
   virtual bool Open(size_t n, bool m) = 0;      // is there a mapping
   virtual bool Resize(size_t n) = 0;
   virtual void Close(bool rm, bool def) = 0;
   virtual void Flush() = 0;
   virtual void Seek(size_t p) = 0;
   virtual std::vector<long> Read(size_t n) = 0;
   virtual void Write(const std::vector<long> &v) = 0;
   virtual void poke(size_t k, long x) = 0;
   virtual std::vector<long> peek() = 0;
   virtual bool isOpen() = 0;
   virtual size_t Size() = 0;
};
static void put(int &a, long x) { a = x; }
static void put(dcomplex &a, long x) { a = dcomplex(x, -x - 1); }
static long get(int a) { return a; }
static long get(dcomplex a) { return a.imag() == -a.real() - 1 ? long(a.real()) : -998; }
template <typename T> struct ArrT : public Arr {
   TmpFile<T> f;
   T *p;
   size_t n;
   ArrT() : p(NULL), n(0) {}
   bool Open(size_t k, bool m) { p = m || k ? f.Open(k, m) : f.Open(); n = k; return p != NULL; }
   bool Resize(size_t k) { p = f.Resize(k); n = k; return p != NULL; }
   void Close(bool rm, bool def) { if (def) f.Close(); else f.Close(rm); p = NULL; }
   void Flush() { f.Flush(); }
   void Seek(size_t q) { f.Seek(q); }
   std::vector<long> Read(size_t k)
   {
      std::vector<T> b(k + 1);
      f.Read(&b[0], k);
      std::vector<long> r;
      for (size_t i = 0; i < k; i++) r.push_back(get(b[i]));
      return r;
   }
   void Write(const std::vector<long> &v)
   {
      std::vector<T> b(v.size() + 1);
      for (size_t i = 0; i < v.size(); i++) put(b[i], v[i]);
      f.Write(&b[0], v.size());
   }
   void poke(size_t k, long x) { put(p[k - 1], x); }
   std::vector<long> peek() { std::vector<long> r; for (size_t i = 0; i < n; i++) r.push_back(get(p[i])); return r; }
   bool isOpen() { return f.isOpen(); }
   size_t Size() { return f.Size(); }
};

static std::map<long, Arr *> arr;
static std::map<std::string, long> tok;
static const char *dirs[] = {"a", "b", "cwd"};
static std::set<std::string> mine;
static Log *log_;
static bool lim;
static void emit(Ev e)
{
   std::string os = "[", ls = "[";
   for (auto &x : arr) os += (os.size() > 1 ? "," : "") + std::string("{\"id\":") + std::to_string(x.first) + ",\"open\":" + (x.second->isOpen() ? "true" : "false") + ",\"size\":" + std::to_string(x.second->Size()) + "}";
   size_t seen = 0;
   for (const char *d : dirs)
      for (std::string n : listdir(std::string("../") + d)) {
         std::string f = std::string(d) + "/" + n;
         struct stat st;
         if (stat(("../" + f).c_str(), &st)) continue;
         if (mine.count(f)) { if (st.st_size == 3) seen++; continue; }
         if (!tok.count(f)) { long t = tok.size() + 1; tok[f] = t; }
         ls += (ls.size() > 1 ? ",[" : "[") + std::to_string(tok[f]) + ",\"" + d + "\"," + std::to_string(long(st.st_size)) + "]";
      }
   e.raw("objs", os + "]").raw("ls", ls + "]").b("others", seen == mine.size()).b("lim", lim);
   (*log_)(e);
}
static void limit(long n)
{
   struct rlimit r;
   getrlimit(RLIMIT_FSIZE, &r);
   r.rlim_cur = n < 0 ? r.rlim_max : rlim_t(n);
   setrlimit(RLIMIT_FSIZE, &r);
}
static std::string s_(const std::string &d) { return d == "cwd" ? "." : "../" + d; }

int main(int, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   log_ = &log;
   Line L;
   signal(SIGXFSZ, SIG_IGN);
   for (const char *d : dirs) mkdir(d, 0777);
   if (chdir("cwd")) return 77;
   for (const char *d : dirs)
      for (const char *n : {"other", "QDng_tmp_abcdef"}) {
         FILE *f = fopen((std::string("../") + d + "/" + n).c_str(), "w");
         fputs("abc", f);
         fclose(f);
         mine.insert(std::string(d) + "/" + n);
      }
   unsetenv("TMPDIR");
   log(Ev("Open"));
   while (L.read(in)) {
      if (L.w.empty()) continue;
      std::string op = L.op(), r;
      long id = L.n(1);
      static long next = -1;
      if (op == "limit") { next = L.n(1); continue; }
      lim = next >= 0;
      // only the call itself is under the limit
#define CALL(x) do { if (lim) limit(next); r = guard([&] { x; }); limit(-1); } while (0)
      if (op == "conf") {
         ParamContainer &gp = GlobalParams::Instance();
         if (L.s(1) == "-") gp.clear();
         else gp.SetValue("tmpdir", s_(L.s(1)));
         if (L.s(2) == "-") unsetenv("TMPDIR");
         else setenv("TMPDIR", s_(L.s(2)).c_str(), 1);
         emit(Ev("Conf").t("gp", L.s(1)).t("env", L.s(2)));
      } else if (op == "new") {
         arr[id] = id % 2 ? (Arr *) new ArrT<int>() : (Arr *) new ArrT<dcomplex>();
         emit(Ev("New").i("id", id));
      } else {
         Arr *a = arr[id];
         bool p = false;
         if (op == "open") { CALL(p = a->Open(L.n(2), L.n(3))); emit(Ev("OpenF").i("id", id).i("n", L.n(2)).b("map", L.n(3)).b("ptr", p).t("r", r)); }
         else if (op == "resize") { CALL(p = a->Resize(L.n(2))); emit(Ev("Resize").i("id", id).i("n", L.n(2)).b("ptr", p).t("r", r)); }
         else if (op == "close") { CALL(a->Close(L.n(2), L.n(3))); emit(Ev("Close").i("id", id).b("rm", L.n(2)).t("r", r)); }
         else if (op == "flush") { CALL(a->Flush()); emit(Ev("Flush").i("id", id).t("r", r)); }
         else if (op == "destroy") { arr.erase(id); delete a; emit(Ev("Destroy").i("id", id)); }
         else if (op == "seek") { CALL(a->Seek(L.n(2))); emit(Ev("Seek").i("id", id).i("n", L.n(2)).t("r", r)); }
         else if (op == "read") { std::vector<long> v; CALL(v = a->Read(L.n(2))); emit(Ev("Read").i("id", id).i("n", L.n(2)).il("v", v).t("r", r)); }
         else if (op == "write") {
            std::vector<long> v;
            for (size_t i = 2; i < L.w.size(); i++) v.push_back(L.n(i));
            CALL(a->Write(v));
            emit(Ev("Write").i("id", id).il("v", v).t("r", r));
         } else if (!a->isOpen()) ;
         else if (op == "poke") { a->poke(L.n(2), L.n(3)); emit(Ev("Poke").i("id", id).i("k", L.n(2)).i("x", L.n(3))); }
         else if (op == "peek") emit(Ev("Peek").i("id", id).il("v", a->peek()));
      }
      next = -1;
   }
   fflush(log.f);
   _exit(0);
}
