// cmd SCRIPT EVENTS: a client of the interactive protocol talking to CmdHandler.
// The client is the input stream of the handler: when more input is wanted, it reads the answers it got so far and
// decides, as a client would, what comes next.
#include "vt.h"
#include "CmdHandler.h"
#include "qdlib/WFLevel.h"
#include "qdlib/OHermitianMatrix.h"
#include "qdlib/Laser.h"
#include "qdlib/FileWF.h"
#include "qdlib/Serializable.h"
#include <deque>
using namespace QDLIB;
using namespace vt;
typedef FileSingle<Serializiable> FileS;

static std::vector<std::string> split(const std::string &s, char c)
{
   std::vector<std::string> r;
   std::stringstream ss(s);
   std::string t;
   while (getline(ss, t, c)) r.push_back(t);
   return r;
}
static std::string blanks(std::string s)
{
   for (auto &c : s) if (c == '~') c = ' '; else if (c == ';') c = '\n';
   return s;
}
static long at24(double v) { return clampl(24 * v); }

// w,RE,IM,...  m,N,ENTRIES  l,DT,E...  optionally ,z for a packed one (ops); a prefix !K cuts it to K permille, garbage
static std::string payload(std::string t)
{
   if (t == "garbage") return std::string(200, 'X');
   int cut = -1;
   if (t[0] == '!') {
      cut = atoi(t.c_str() + 1);
      t = t.substr(t.find(',') + 1);
   }
   std::vector<std::string> p = split(t, ',');
   std::ostringstream os;
   if (p[0] == "w") {
      WFLevel *w = new WFLevel();
      ParamContainer pm;
      pm.SetValue("size", int(p.size() - 1) / 2);
      w->Init(pm);
      for (int i = 0; i < w->size(); i++) (*(cVec *) w)[i] = dcomplex(atof(p[1 + 2 * i].c_str()), atof(p[2 + 2 * i].c_str()));
      FileWF f;
      f.SetOutputStream(os);
      f.Format(FileSingle<WaveFunction>::stream);
      f.WriteWaveFunction(w);
   } else if (p[0] == "m") {
      OHermitianMatrix *m = new OHermitianMatrix();
      int n = atoi(p[1].c_str());
      m->Size(n);
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) (*(dMat *) m)(i, j) = atof(p[2 + i * n + j].c_str());
      FileS f;
      f.Compression(FileS::UNCOMPRESSED);
      f.SetOutputStream(os);
      f.WriteSingleFileToStream(m);
   } else {
      Laser *l = new Laser();
      l->Dt(atof(p[1].c_str()));
      l->Nt(p.size() - 2);
      for (size_t i = 2; i < p.size(); i++) (*l)[i - 2] = atof(p[i].c_str());
      FileS f;
      f.Compression(FileS::UNCOMPRESSED);
      f.SetOutputStream(os);
      f.WriteSingleFileToStream((Serializiable *) l);
   }
   std::string s = os.str();
   return cut < 0 ? s : s.substr(0, s.size() * cut / 1000);
}

struct Client : std::streambuf {
   std::ifstream in;
   Log &log;
   std::ostringstream out;
   size_t seen = 0;
   std::string buf, head, ans, steps, cls;
   std::deque<std::string> data;
   bool open = false, over = false;

   Client(const char *script, Log &l) : in(script), log(l) {}
   void add(const std::string &a) { ans += (ans.empty() ? "" : ",") + a; }
   void emit()
   {
      if (!open) return;
      Ev e("Cmd");
      log(e.raw("a", "[" + ans + "]").raw("q", head));
      open = false;
      ans = "";
   }
   // one thing from the output; false if there is none (or nothing that makes sense)
   bool take(const std::string &o, bool stream)
   {
      if (stream && o.compare(seen, 11, "QDngPrtoBuf") == 0) {
         std::istringstream is(o.substr(seen));
         std::string what;
         std::string r = guard([&] {
            if (cls == "wf") {
               FileWF f;
               f.SetInputStream(is);
               WaveFunction *w = f.LoadWaveFunctionByMeta();
               std::vector<long> d;
               for (int i = 0; i < w->size(); i++) {
                  d.push_back(at24((*(cVec *) w)[i].real()));
                  d.push_back(at24((*(cVec *) w)[i].imag()));
               }
               what = Ev("").il("d", d).s.substr(7);
               DELETE_WF(w);
            } else {
               OHermitianMatrix m;
               FileS f;
               f.SetInputStream(is);
               f.ReadSingleFileFromStream(&m);
               std::vector<long> d;
               for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) d.push_back(clampl(m(i, j)));
               what = Ev("").il("d", d).s.substr(7);
            }
         });
         if (r != "") { add("{\"k\":\"junk\"}"); seen = o.size(); return true; }
         add("{\"k\":" + Ev::q(cls) + what + "}");
         seen += is.eof() ? o.size() - seen : (size_t) is.tellg();
         return true;
      }
      uint32_t n;
      Response resp;
      if (o.size() < seen + 4 || (memcpy(&n, o.data() + seen, 4), o.size() < seen + 4 + n) || !resp.ParseFromArray(o.data() + seen + 4, n)) {
         add("{\"k\":\"junk\"}");
         seen = o.size();
         return true;
      }
      seen += 4 + n;
      Ev e("");
      if (resp.response() == Response_response_t_OK) {
         std::vector<std::string> kv;
         std::string list;
         for (auto &l : split(resp.msg(), '\n')) {
            size_t p = l.find(" = ");
            list += (list.empty() ? "[" : ",[") + Ev::q(l.substr(0, p)) + "," + Ev::q(p == l.npos ? "" : l.substr(p + 3)) + "]";
         }
         std::vector<long> r;
         for (int i = 0; i < resp.result_size(); i++) r.push_back(clampl(resp.result(i)));
         e.t("k", "ok").b("d", resp.data_follows()).raw("m", "[" + list + "]").il("r", r);
      } else e.t("k", "err").b("m", !resp.msg().empty()).b("d", resp.data_follows());
      add("{" + e.s.substr(8) + "}");
      return true;
   }
   void drain()
   {
      std::string o = out.str();
      while (seen < o.size()) {
         char st = steps.empty() ? 0 : steps[0];
         size_t n = ans.size();
         take(o, st == 'W');
         bool err = ans.compare(n ? n + 1 : 0, 10, "{\"k\":\"err\"") == 0;
         if (err) steps = "";
         else if (st == 'A' || st == 'W') steps.erase(0, 1);
      }
   }
   std::string message(Command &c)
   {
      std::string s, r;
      c.SerializeToString(&s);
      uint32_t n = s.size();
      r.assign((char *) &n, 4);
      return r + s;
   }
   bool next()
   {
      Line L;
      do { if (!L.read(in)) return false; } while (L.w.empty());
      std::string op = L.op();
      Command c;
      steps = "A";
      data.clear();
      open = true;
      head = L.w.back();   // what is asked for, as the specification sees it
      auto opdef = [&](size_t i) {
         std::string v = L.s(i + 1);
         if (L.s(i) == "x") c.set_xml(blanks(v));
         else if (L.s(i) == "r") c.set_param_s1(v);
      };
      if (op == "get") c.set_cmd(Command_command_t_GET_GLOBAL_PARAMS);
      else if (op == "set") { c.set_cmd(Command_command_t_SET_GLOBAL_PARAMS); if (L.s(1) != "-") c.set_param_s1(blanks(L.s(1))); }
      else if (op == "clear") c.set_cmd(Command_command_t_CLEAR_OBJECTS);
      else if (op == "quit") { c.set_cmd(Command_command_t_QUIT); steps = ""; }
      else if (op == "readwf") { c.set_cmd(Command_command_t_READ_WF); if (L.s(1) != "-") c.set_param_s1(L.s(1)); steps = "AW"; cls = "wf"; }
      else if (op == "writewf") {
         c.set_cmd(Command_command_t_WRITE_WF);
         if (L.s(1) != "-") c.set_param_s1(L.s(1));
         if (L.s(2) != "-") c.set_param_s2(L.s(2));
         data.push_back(L.s(3));
         steps = "APA";
      } else if (op == "readop") {
         c.set_cmd(Command_command_t_READ_OP);
         if (L.s(1) != "-") c.set_param_s1(L.s(1));
         if (L.s(2) != "-") c.set_param_s2(L.s(2));
         steps = "W";
         cls = "op";
      } else if (op == "writeop") {
         c.set_cmd(Command_command_t_WRITE_OP);
         if (L.s(1) != "-") c.set_param_s1(L.s(1));
         if (L.s(2) != "-") c.set_param_s2(L.s(2));
         if (L.s(3) != "-") c.set_param_s3(L.s(3));
         data.push_back(L.s(4));
         steps = "APA";
      } else if (op == "loadop") { c.set_cmd(Command_command_t_LOAD_OP); opdef(1); }
      else if (op == "loadu") {
         c.set_cmd(Command_command_t_LOAD_U);
         opdef(1);
         if (L.s(3) != "-") c.set_param_d1(L.n(3));
         if (L.s(4) != "-") c.set_param_d2(L.n(4));
      } else if (op == "apply") {
         c.set_cmd(Command_command_t_APPLY_OP);
         opdef(1);
         if (L.s(3) != "-") c.set_param_d1(L.n(3));
         data.push_back(L.s(4));
         steps = "APW";
         cls = "wf";
      } else if (op == "expec") {
         c.set_cmd(Command_command_t_GET_EXPEC);
         opdef(1);
         data.push_back(L.s(3));
         steps = "APA";
      } else if (op == "matel") {
         c.set_cmd(Command_command_t_GET_MATEL);
         opdef(1);
         data.push_back(L.s(3));
         data.push_back(L.s(4));
         steps = "PPA";
      } else if (op == "prog") { c.set_cmd(Command_command_t_RUN_PROG); if (L.s(1) != "-") c.set_xml(blanks(L.s(1))); }
      else if (op == "code") c.set_cmd(Command_command_t_DELETE_OP);
      else if (op == "noise") {          // something of the announced length which is no command
         uint32_t n = L.n(1);
         buf.assign((char *) &n, 4);
         buf += std::string(n, '\xff');
         return true;
      } else if (op == "cutmsg") {
         c.set_cmd(Command_command_t_GET_GLOBAL_PARAMS);
         c.set_param_s1("aaaaaaaaaaaaaaaaaaaa");
         buf = message(c).substr(0, L.n(1));
         over = true;
         return true;
      } else { fprintf(stderr, "what? %s\n", op.c_str()); _exit(77); }
      buf = message(c);
      return true;
   }
   int underflow() override
   {
      drain();
      if (over) return EOF;
      if (open && !steps.empty() && steps[0] != 'P') {   // an answer is due, not a question
         add("{\"k\":\"none\"}");
         emit();
         over = true;
         return EOF;
      }
      if (steps.empty()) {
         emit();
         if (!next()) { over = true; return EOF; }
      } else {
         steps.erase(0, 1);
         bool bad = data.front()[0] == '!' || data.front()[0] == 'g';
         buf = payload(data.front());
         data.pop_front();
         if (bad) over = true;
         if (buf.empty()) return EOF;
      }
      setg(&buf[0], &buf[0], &buf[0] + buf.size());
      return (unsigned char) buf[0];
   }
};

int main(int argc, char **argv)
{
   Log log(argv[2]);
   log(Ev("Open"));
   Client *c = new Client(argv[1], log);
   std::istream is(c);
   CmdHandler *h = new CmdHandler(is, c->out);
   std::string r = guard([&] { h->RunInteractive(""); });
   c->drain();
   c->emit();
   log(Ev("End").t("r", r));
   fflush(stdout);
   _exit(0);
}
