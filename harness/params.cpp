// Performs a script of ParamContainer calls.  Strings in scripts are percent-encoded, empty ones are "%".
#include "vt.h"
#include <map>
#include <string.h>
#include <set>
#include "tools/ParamContainer.h"
using namespace QDLIB;
using namespace vt;
typedef ParamContainer PC;

static std::string dec(const std::string &s)
{
   std::string r;
   for (size_t i = 0; i < s.size(); i++)
      if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
      else if (s[i] != '%') r += s[i];
   return r;
}
static std::string hex(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static std::map<long, PC *> pc;
static const char *types[] = {"", "int", "uint", "sizet", "double", "bool", "string"};

static std::string tname(PC::datatype t) { return PC::Type2String(t); }

static std::string listing(PC &p, bool reset = true)
{
   std::string s = "[", n, v;
   if (reset) p.ResetPosition();
   int k = 0;
   while (p.GetNextValue(n, v) && k++ < 1000)
      s += std::string(s.size() > 1 ? "," : "") + "{\"n\":" + Ev::q(n) + ",\"v\":" + Ev::q(v) + ",\"t\":" + Ev::q(tname(p.GetType(n))) + "}";
   return s + "]";
}

int main(int argc, char **argv)
{
   std::ifstream in(argv[1]);
   Log log(argv[2]);
   Line L;
   auto seen = [&](Ev &e, long c) -> Ev & {
      return e.i("c", c).raw("all", listing(*pc[c])).i("size", pc[c]->Size());
   };
   auto put = [&](long c, PC *p) { if (pc.count(c)) delete pc[c]; pc[c] = p; };
   while (L.read(in)) {
      if (L.w.empty()) continue;
      const std::string &op = L.op();
      long c = L.n(1);
      std::string n = dec(L.s(2));
      if (op == "open") {
         for (auto &p : pc) delete p.second;
         pc.clear();
         log(Ev("Open"));
         continue;
      }
      if (op == "new") { put(c, new PC()); Ev e("New"); log(seen(e, c)); continue; }
      if (op == "map") {
         string_map m;
         std::string s = "[";
         for (size_t i = 2; i + 1 < L.w.size(); i += 2) m[dec(L.s(i))] = dec(L.s(i + 1));
         for (auto &x : m) s += std::string(s.size() > 1 ? "," : "") + "{\"n\":" + Ev::q(x.first) + ",\"v\":" + Ev::q(x.second) + "}";
         if (pc.count(c)) pc[c]->Params(m);
         else pc[c] = new PC(m);
         Ev e("Map"); log(seen(e.raw("m", s + "]"), c)); continue;
      }
      if (op == "copy") {
         if (!pc.count(L.n(2)) || L.n(2) == c) continue;
         put(c, new PC(*pc[L.n(2)]));
         // a fresh copy starts iterating at its own first entry
         std::string all = listing(*pc[c], false);
         Ev e("Copy"); log(e.i("c", c).i("d", L.n(2)).raw("all", all).i("size", pc[c]->Size())); continue;
      }
      if (op == "parse") {
         // container, way, mark, lines...
         std::vector<std::string> ls;
         std::string text, mark = dec(L.s(3)), rest;
         for (size_t i = 4; i < L.w.size(); i++) { ls.push_back(dec(L.s(i))); text += ls.back() + (i + 1 < L.w.size() || L.n(2) != 1 ? "\n" : ""); }
         if (!pc.count(c)) put(c, new PC());
         std::string r = guard([&] {
            if (mark != "") { std::istringstream is(text); pc[c]->Parse(is, mark.c_str()); }
            else if (L.n(2) == 2) {
               { std::ofstream o("in.txt"); o << text; }
               if (!pc[c]->ReadFromFile("in.txt")) throw Exception("not read");
            }
            else pc[c]->Parse(text);
         });
         if (r != "") put(c, new PC());
         Ev e("Parse"); log(seen(e.tl("lines", ls).t("mark", mark).t("r", r), c)); continue;
      }
      if (!pc.count(c)) continue;
      PC &p = *pc[c];
      if (op == "str") {
         std::string v = dec(L.s(3)), t = dec(L.s(4));
         if (L.n(5)) p.SetValue(n, v.c_str(), PC::String2Type(t)); else p.SetValue(n, v, PC::String2Type(t));
         Ev e("SetStr"); log(seen(e.t("n", n).t("v", v).t("t", t), c));
      } else if (op == "int" || op == "long" || op == "size") {
         long v = L.n(3);
         if (op == "int") p.SetValue(n, (int) v); else if (op == "long") p.SetValue(n, v); else p.SetValue(n, (size_t) v);
         Ev e("SetInt"); log(seen(e.t("n", n).i("v", v).t("t", op == "size" ? "sizet" : "int"), c));
      } else if (op == "bool") {
         p.SetValue(n, (bool) L.n(3));
         Ev e("SetBool"); log(seen(e.t("n", n).b("v", L.n(3)), c));
      } else if (op == "dbl") {
         double v = strtod(L.s(3).c_str(), 0), back = -77;
         p.SetValue(n, v);
         std::string text; p.GetValue(n, text); p.GetValue(n, back);
         Ev e("SetDbl"); log(seen(e.t("n", n).t("v", hex(v)).t("text", text).t("back", hex(back)), c));
      } else if (op == "ints" || op == "sizes") {
         std::vector<long> v; std::vector<int> vi; std::vector<size_t> vs;
         for (size_t i = 3; i < L.w.size(); i++) { v.push_back(L.n(i)); vi.push_back(L.n(i)); vs.push_back(L.n(i)); }
         if (op == "ints") p.SetArray(n, vi.data(), vi.size()); else p.SetArray(n, vs.data(), vs.size());
         Ev e("SetInts"); log(seen(e.t("n", n).il("v", v).t("t", op == "ints" ? "int" : "sizet"), c));
      } else if (op == "bools") {
         bool v[64]; std::string s = "[";
         for (size_t i = 3; i < L.w.size(); i++) { v[i - 3] = L.n(i); s += std::string(i > 3 ? "," : "") + (L.n(i) ? "true" : "false"); }
         p.SetArray(n, v, L.w.size() - 3);
         Ev e("SetBools"); log(seen(e.t("n", n).raw("v", s + "]"), c));
      } else if (op == "dbls") {
         std::vector<double> v, back; std::vector<std::string> h, hb;
         for (size_t i = 3; i < L.w.size(); i++) { v.push_back(strtod(L.s(i).c_str(), 0)); h.push_back(hex(v.back())); }
         p.SetArray(n, v.data(), v.size());
         p.GetArray(n, back);
         for (double d : back) hb.push_back(hex(d));
         std::string text; p.GetValue(n, text);
         Ev e("SetDbls"); log(seen(e.t("n", n).tl("v", h).t("text", text).tl("back", hb), c));
      } else if (op == "add" || op == "assign") {
         if (!pc.count(L.n(2))) continue;
         bool self;
         if (op == "add") self = &(p += *pc[L.n(2)]) == &p; else self = &(p = *pc[L.n(2)]) == &p;
         Ev e(op == "add" ? "Add" : "Assign"); log(seen(e.i("d", L.n(2)).b("self", self), c));
      } else if (op == "clear") { p.clear(); Ev e("Clear"); log(seen(e, c)); }
      else if (op == "readback") {
         // c's text into container d, by string, stream, file or <<
         long d = L.n(2), way = L.n(3);
         bool typed = L.n(4);
         std::string text;
         if (way == 3) { std::ostringstream o; o << p; text = o.str(); typed = true; }
         else if (way == 2) {
            if (!p.WriteToFile("out.txt", typed)) continue;
            std::ifstream f("out.txt"); std::stringstream o; o << f.rdbuf(); text = o.str();
         } else if (way == 1) { std::ostringstream o; p.Write(o, typed); text = o.str(); }
         else p.Write(text, typed);
         std::vector<std::string> ls; std::string line; std::istringstream is(text);
         while (std::getline(is, line)) ls.push_back(line);
         if (d != c || !pc.count(d)) put(d, new PC());
         std::string r = guard([&] {
            if (way == 2) pc[d]->ReadFromFile("out.txt");
            else if (way == 1) { std::istringstream i2(text); pc[d]->Parse(i2); }
            else pc[d]->Parse(text);
         });
         Ev e("ReadBack"); log(seen(e.i("d", c).b("typed", typed).tl("lines", ls).t("r", r), d));
      }
      // reading
      else if (op == "gstr") {
         std::string v = "junk"; bool has;
         if (L.n(3)) { char b[5000] = "junk"; has = p.GetValue(n, b); v = b; } else has = p.GetValue(n, v);
         log(Ev("GetStr").i("c", c).t("n", n).b("has", has).t("v", v));
      } else if (op == "gint") {
         long v = 0; bool has; std::string s; p.GetValue(n, s);
         switch (L.n(3)) {
            case 0: { int x = -7; has = p.GetValue(n, x); v = x; break; }
            case 1: { long x = -7; has = p.GetValue(n, x); v = x; break; }
            case 2: { if (s.find('-') != s.npos) continue; size_t x = 7; has = p.GetValue(n, x); v = x; break; }
            default: { if (s.find('-') != s.npos) continue; unsigned x = 7; has = p.GetValue(n, x); v = x; break; }
         }
         log(Ev("GetInt").i("c", c).t("n", n).b("has", has).i("v", labs(v) > 2000000000 ? 0 : v));
      } else if (op == "gdbl") {
         double v = -7; bool has = p.GetValue(n, v);
         log(Ev("GetDbl").i("c", c).t("n", n).b("has", has).t("v", hex(v)).i("i", fabs(v) < 2e9 ? lround(v) : 0));
      } else if (op == "gbool") {
         bool v = !L.n(3), has = L.n(4) ? p.GetValue(n, v, (bool) L.n(3)) : p.GetValue(n, v);
         log(Ev("GetBool").i("c", c).t("n", n).b("has", has).b("def", L.n(4) ? L.n(3) : false).b("v", v));
      } else if (op == "gstrs") {
         std::vector<std::string> v; bool has = p.GetArray(n, v);
         log(Ev("GetStrs").i("c", c).t("n", n).b("has", has).tl("v", v));
      } else if (op == "gints") {
         std::vector<int> v; std::vector<unsigned> u; std::vector<long> o; bool has;
         std::string s; p.GetValue(n, s);
         if (L.n(3) && s.find('-') == s.npos) { has = p.GetArray(n, u); for (auto x : u) o.push_back(x > 2000000000 ? 0 : x); }
         else { has = p.GetArray(n, v); for (auto x : v) o.push_back(x); }
         log(Ev("GetInts").i("c", c).t("n", n).b("has", has).il("v", o));
      } else if (op == "gbools") {
         std::vector<bool> v; std::string s = "["; bool has = p.GetArray(n, v);
         for (size_t i = 0; i < v.size(); i++) s += std::string(i ? "," : "") + (v[i] ? "true" : "false");
         log(Ev("GetBools").i("c", c).t("n", n).b("has", has).raw("v", s + "]"));
      } else if (op == "gdbls") {
         std::vector<double> v; std::vector<std::string> h; bool has = p.GetArray(n, v);
         for (double d : v) h.push_back(hex(d));
         log(Ev("GetDbls").i("c", c).t("n", n).b("has", has).tl("v", h));
      } else if (op == "has") {
         log(Ev("Present").i("c", c).t("n", n).b("v", L.n(3) ? p.isPresent(n.c_str()) : p.isPresent(n)));
      } else if (op == "type") {
         std::vector<std::string> is;
         for (const char *t : types) {
            bool a = p.isType(n, PC::String2Type(t)), b = p.isType(n, std::string(t));
            if (a != b) is.push_back("?");
            // an entry without a type of its own counts as untyped
            if (a || (*t == 0 && p.isPresent(n) && p.GetType(n) == PC::t_undef)) is.push_back(t);
         }
         log(Ev("Type").i("c", c).t("n", n).t("v", tname(p.GetType(n))).tl("is", is));
      } else if (op == "list") { log(Ev("List").i("c", c).raw("all", listing(p))); }
   }
   _exit(0);
}
