// Driver: translations of simplified input.
#include "vt.h"
#include "simpleXml/Simple2Xml.h"
using namespace std; using namespace QDLIB; using namespace vt;

static string unhex(const string &h)
{
   string r;
   for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char) strtol(h.substr(i, 2).c_str(), NULL, 16);
   return r;
}
static void put(const char *name, const string &t) { ofstream f(name, ios::binary); f << t; }
static string get(const string &name) { ifstream f(name.c_str(), ios::binary); stringstream s; s << f.rdbuf(); return s.str(); }
static bool have(const string &name) { return access(name.c_str(), F_OK) == 0; }

static bool unescape(const string &s, string &r)
{
   for (size_t i = 0; i < s.size(); i++) {
      if (s[i] == '<') return false;
      if (s[i] != '&') { r += s[i]; continue; }
      static const char *e[] = {"&lt;", "<", "&gt;", ">", "&amp;", "&", "&quot;", "\"", "&apos;", "'"};
      bool ok = false;
      for (int k = 0; k < 10 && !ok; k += 2)
         if (s.compare(i, strlen(e[k]), e[k]) == 0) { r += e[k + 1]; i += strlen(e[k]) - 1; ok = true; }
      if (!ok) return false;
   }
   return true;
}
static string tag(const char *t, const string &n, const string &a)
{
   return string("{\"t\":\"") + t + "\",\"n\":" + Ev::q(n) + ",\"a\":[" + a + "]}";
}
// The tags of an XML text; "junk" for anything which is none.
static string tags(const string &x)
{
   string r;
   size_t i = 0;
   auto add = [&](const string &t) { r += (r.empty() ? "" : ",") + t; };
   auto ws = [&] { while (i < x.size() && isspace((unsigned char) x[i])) i++; };
   auto name = [&] { size_t b = i; while (i < x.size() && (isalnum((unsigned char) x[i]) || strchr("._-:", x[i]))) i++; return x.substr(b, i - b); };
   for (;;) {
      ws();
      if (i >= x.size()) break;
      if (x.compare(i, 4, "<!--") == 0) {
         size_t e = x.find("-->", i + 4);
         if (e == string::npos) { add(tag("junk", "comment", "")); break; }
         i = e + 3;
      } else if (x.compare(i, 2, "</") == 0) {
         i += 2;
         string n = name();
         ws();
         if (i >= x.size() || x[i] != '>') { add(tag("junk", n, "")); break; }
         i++;
         add(tag("close", n, ""));
      } else if (x[i] == '<') {
         i++;
         string n = name(), a;
         bool ok = true, closed = false;
         for (;;) {
            ws();
            if (i < x.size() && x[i] == '>') { i++; break; }
            if (x.compare(i, 2, "/>") == 0) { i += 2; closed = true; break; }
            string k = name(), v;
            size_t e = x.compare(i, 2, "=\"") ? string::npos : x.find('"', i + 2);
            if (k.empty() || e == string::npos || !unescape(x.substr(i + 2, e - i - 2), v)) { ok = false; break; }
            i = e + 1;
            a += (a.empty() ? "[" : ",[") + Ev::q(k) + "," + Ev::q(v) + "]";
         }
         if (!ok) { add(tag("junk", n, "")); break; }
         add(tag("open", n, a));
         if (closed) add(tag("close", n, ""));
      } else { add(tag("junk", "text", "")); break; }
   }
   return "[" + r + "]";
}

int main(int argc, char **argv)
{
   ifstream in(argv[1]);
   vt::Log log(argv[2]);
   Line l;
   log(Ev("Open"));
   while (l.read(in)) {
      if (l.op() == "parse") {
         string t = unhex(l.s(1)), buf = "unchanged", msg;
         put("in", t);
         string r = guard([&] { try { QDSXML::Parse("in", buf); } catch (Exception &e) { msg = e.GetMessage(); throw; } });
         log(Ev("Parse").t("text", t).t("r", r).t("m", msg).raw("out", r.empty() ? tags(buf) : "[]"));
      } else if (l.op() == "convert") {
         string t = unhex(l.s(1)), o = l.s(2);
         put("in", t);
         bool was = have(o);
         string before = get(o);
         string r = guard([&] { QDSXML::Convert("in", o); });
         log(Ev("Convert").t("text", t).t("r", r).b("writable", o != "missing/out").b("kept", was == have(o) && before == get(o))
               .raw("out", r.empty() ? tags(get(o)) : "[]"));
      } else if (l.op() == "absent") {
         string buf;
         string r = guard([&] { QDSXML::Parse("absent", buf); });
         string c = guard([&] { QDSXML::Convert("absent", "never"); });
         string k = guard([&] { QDSXML::CheckType("absent"); });
         log(Ev("Absent").t("r", r).t("c", c).t("k", k).b("made", have("never")));
      } else if (l.op() == "type") {
         string t = unhex(l.s(1));
         put("in", t);
         QDSXML::FileType ft = QDSXML::UNKNOWN;
         string r = guard([&] { ft = QDSXML::CheckType("in"); });
         size_t p = t.find_first_not_of(" \t\r\n");
         log(Ev("Type").t("r", !r.empty() ? r : ft == QDSXML::SIMPLE ? "simple" : ft == QDSXML::XML ? "xml" : "unknown")
               .b("empty", t.empty()).t("first", p == string::npos ? "" : t.substr(p, 1))
               .b("open", t.find('{') != string::npos).b("close", t.find('}') != string::npos));
      }
   }
   fflush(stdout);
   _exit(0);
}
