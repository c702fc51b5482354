// The logger and its sinks.
#include "vt.h"
#include <sstream>
#include "tools/Logger.h"
#include "tools/Exception.h"
using namespace QDLIB;
using namespace vt;

static std::stringstream con, r1, r2;
static std::string code(const std::string &s)
{
   std::string o = "[";
   for (size_t i = 0; i < s.size();) {
      size_t k = i;
      long v;
      if (s[i] == ' ' || s[i] == '*') {
         while (k < s.size() && s[k] == s[i]) k++;
         v = s[i] == ' ' ? -long(k - i) : 1000 + long(k - i);
      } else {
         k++;
         v = s[i] == '\n' ? 0 : s[i];
      }
      o += (o.size() > 1 ? "," : "") + std::to_string(v);
      i = k;
   }
   return o + "]";
}
static std::string file(const char *n)
{
   std::ifstream f(n);
   std::stringstream s;
   s << f.rdbuf();
   return s.str();
}
static Log *log_;
static void emit(Ev e)
{
   e.raw("sinks", "{\"con\":" + code(con.str()) + ",\"r1\":" + code(r1.str()) + ",\"r2\":" + code(r2.str()) + ",\"f1\":" + code(file("f1")) +
                     ",\"f2\":" + code(file("f2")) + "}");
   (*log_)(e);
}
static std::vector<long> ints(const std::string &s)
{
   std::vector<long> v;
   for (char c : s) v.push_back(c == '\n' ? 0 : c);
   return v;
}

int main(int, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   log_ = &log;
   Line L;
   std::cout.rdbuf(con.rdbuf());
   log(Ev("Open"));
   while (L.read(in)) {
      if (L.w.empty()) continue;
      std::string op = L.op();
      Logger &g = Logger::InstanceRef();
      if (op == "write") {
         std::string t = L.s(2);
         for (char &c : t) if (c == '/') c = '\n';
         bool d = L.n(1);
         // letter by letter, or at once
         std::stringstream &s = d ? g.coutdbg() : g.cout();
         if (L.n(3)) for (char c : t) { if (c == '\n') s << std::endl; else s << c; }
         else s << t;
         emit(Ev("Write").b("dbg", d).il("t", ints(t)));
      } else if (op == "touch") {
         if (L.n(1)) g.coutdbg().precision(3); else g.cout().precision(8);
      } else if (op == "header") {
         Logger::SectionType k = L.s(1) == "chapter" ? Logger::Chapter : L.s(1) == "section" ? Logger::Section : Logger::SubSection;
         std::string t = L.s(2);
         if (L.n(3)) g.Header(t.c_str(), k); else g.Header(t, k);
         emit(Ev("Header").t("k", L.s(1)).il("t", ints(t)));
      } else if (op == "flush") { g.flush(); emit(Ev("Flush")); }
      else if (op == "indent") { g.SetIndent(L.n(1)); emit(Ev("SetIndent").i("n", L.n(1))); }
      else if (op == "inc") { g.IndentInc(); emit(Ev("IndentInc")); }
      else if (op == "dec") { g.IndentDec(); emit(Ev("IndentDec")); }
      else if (op == "debug") { g.Debug(bool(L.n(1))); emit(Ev("Debug").b("b", L.n(1)).b("is", g.Debug())); }
      else if (op == "quiet") { g.Supress(bool(L.n(1))); emit(Ev("Quiet").b("b", L.n(1)).b("is", g.Supress())); }
      else if (op == "width") { g.SetLineLength(L.n(1)); emit(Ev("Width").i("n", L.n(1))); }
      else if (op == "file") {
         std::string n = L.s(1) == "missing" ? "none/f" : L.s(1);
         std::string r = guard([&] { g.FileOutput(n); });
         emit(Ev("FileOutput").t("f", L.s(1)).t("r", r));
      } else if (op == "close") { g.FileClose(); emit(Ev("CloseFile")); }
      else if (op == "console") { g.ConsoleOutput(); emit(Ev("Console")); }
      else if (op == "redirect") { g.SetRedirect(L.s(1) == "r1" ? (std::ostream &)r1 : L.s(1) == "r2" ? (std::ostream &)r2 : std::cout); emit(Ev("Redirect").t("f", L.s(1))); }
      else if (op == "restart") { g.Close(); emit(Ev("Restart")); }
   }
   fflush(log.f);
   _exit(0);
}
