// Declares options, parses argument vectors and asks for the result.
#include "vt.h"
#include <string.h>
#include <unistd.h>
#include <getopt.h>
#include "tools/Getopt.h"
using namespace QDLIB;
using namespace vt;

static std::string dec(const std::string &s)
{
   std::string r;
   for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
      else if (s[i] != '%') r += s[i];
   return r;
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   Getopt *g = NULL;
   std::vector<std::string> store;
   std::vector<char *> av;
   std::ostringstream err;
   std::streambuf *old = std::cerr.rdbuf(err.rdbuf());
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string &op = L.op();
      std::string cs = L.s(1);
      char c = cs.empty() ? 0 : cs[0];
      if (op == "open") { g = new Getopt(); log(Ev("Open")); }
      else if (op == "flag") { g->SetHelp(c, "help text"); log(Ev("Flag").t("c", cs)); }
      else if (op == "par") {
         std::string def = dec(L.s(3));
         g->SetHelp(c, "value", (bool) L.n(2), "help text", def);
         log(Ev("Par").t("c", cs).b("req", L.n(2)).t("def", def));
      } else if (op == "args") {
         store.clear(); av.clear();
         std::vector<std::string> given;
         for (size_t i = 1; i < L.w.size(); i++) given.push_back(dec(L.s(i)));
         store = given; store.insert(store.begin(), "prog");
         for (auto &s : store) av.push_back(strdup(s.c_str()));
         av.push_back(NULL);
         optind = 0;
         g->ReadArgs(store.size(), av.data());
         log(Ev("Args").tl("args", given));
      }
      else if (op == "given") log(Ev("Given").t("c", cs).b("v", g->GetOption(c)));
      else if (op == "str") { std::string v = "junk"; g->GetOption(c, v); log(Ev("Str").t("c", cs).t("v", v)); }
      else if (op == "chr") { char v = '?'; g->GetOption(c, v); log(Ev("Chr").t("c", cs).t("v", v ? std::string(1, v) : "")); }
      else if (op == "int") { int v = -777; g->GetOption(c, v); log(Ev("Int").t("c", cs).i("v", v)); }
      else if (op == "dbl") { double v = -777; g->GetOption(c, v); log(Ev("Dbl").t("c", cs).i("v", fabs(v) < 1e9 ? lround(v) : 0)); }
      else if (op == "non") {
         std::string v = "junk"; bool ok;
         if (L.n(2)) { char b[4096]; memset(b, 'j', sizeof b); b[4095] = 0; ok = g->GetNonOption(L.n(1), b, 4095); v = b; }
         else ok = g->GetNonOption(L.n(1), v);
         log(Ev("Non").i("k", L.n(1)).b("ok", ok).t("v", ok ? v : ""));
      } else if (op == "check") {
         err.str("");
         bool v = g->CheckOptions();
         std::string t = err.str(), named;
         size_t p = t.find("Parameter -");
         if (p != t.npos) named = t.substr(p + 11, 1);
         log(Ev("Check").b("v", v).t("named", named));
      }
   }
   std::cerr.rdbuf(old);
   _exit(0);
}
