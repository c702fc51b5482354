// Shared by the drivers: script reading, event writing, error naming.
#ifndef VT_H
#define VT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <vector>
#include <dirent.h>
#include <math.h>
#include <unistd.h>
#include <algorithm>
#include "tools/Exception.h"

#ifdef VT_POISON
// Fresh aligned storage holds NaNs, so that nothing passes for initialised by luck.
extern "C" int posix_memalign(void **p, size_t a, size_t n) noexcept
{
   *p = aligned_alloc(a, (n + a - 1) / a * a);
   if (!*p) return 12;
   memset(*p, 0xff, n);
   return 0;
}
#endif

namespace vt {

struct Ev {
   std::string s;
   Ev(const char *name) { s = "{\"e\":\""; s += name; s += "\""; }
   static std::string q(const std::string &v)
   {
      std::string r = "\"";
      for (size_t i = 0; i < v.size(); i++) {
         unsigned char c = v[i];
         if (c == '"' || c == '\\') { r += '\\'; r += c; }
         else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
         else r += c;
      }
      return r + "\"";
   }
   Ev &i(const char *k, long v) { s += ",\""; s += k; s += "\":"; s += std::to_string(v); return *this; }
   Ev &b(const char *k, bool v) { s += ",\""; s += k; s += v ? "\":true" : "\":false"; return *this; }
   Ev &t(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":" + q(v); return *this; }
   Ev &il(const char *k, const std::vector<long> &v)
   {
      s += ",\""; s += k; s += "\":[";
      for (size_t n = 0; n < v.size(); n++) s += (n ? "," : "") + std::to_string(v[n]);
      s += "]"; return *this;
   }
   Ev &tl(const char *k, const std::vector<std::string> &v)
   {
      s += ",\""; s += k; s += "\":[";
      for (size_t n = 0; n < v.size(); n++) s += (n ? "," : "") + q(v[n]);
      s += "]"; return *this;
   }
   Ev &raw(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":" + v; return *this; }
};

struct Log {
   FILE *f;
   Log(const char *path) { f = fopen(path, "w"); if (!f) { perror(path); exit(77); } }
   void operator()(const Ev &e) { fprintf(f, "%s}\n", e.s.c_str()); fflush(f); }
};

// tokens of one script line
struct Line {
   std::vector<std::string> w;
   std::string text;
   bool read(std::istream &in)
   {
      w.clear();
      if (!std::getline(in, text)) return false;
      std::istringstream is(text);
      std::string t;
      while (is >> t) w.push_back(t);
      return true;
   }
   const std::string &op() const { return w[0]; }
   long n(size_t i) const { return i < w.size() ? atol(w[i].c_str()) : 0; }
   std::string s(size_t i) const { return i < w.size() ? w[i] : std::string(); }
};

// Runs f and names the error class ("" when none).
template <typename F> std::string guard(F f)
{
   using namespace QDLIB;
   try { f(); return ""; }
   catch (EMemError &) { return "EMemError"; }
   catch (EMemory &) { return "EMemory"; }
   catch (EIOError &) { return "EIOError"; }
   catch (EParamProblem &) { return "EParamProblem"; }
   catch (EIncompatible &) { return "EIncompatible"; }
   catch (EOverflow &) { return "EOverflow"; }
   catch (Exception &) { return "Exception"; }
   catch (std::exception &) { return "std"; }
}

inline long clampl(double d)   // exact small integers only; anything else becomes a sentinel
{
   if (!(fabs(d) < 1e8)) return 99999999;
   long r = lround(d);
   if (fabs(d - r) > 1e-7) return 88888888;
   return r;
}

inline std::vector<std::string> listdir(const std::string &dir)
{
   std::vector<std::string> r;
   DIR *d = opendir(dir.c_str());
   if (!d) return r;
   while (struct dirent *e = readdir(d)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") r.push_back(n);
   }
   closedir(d);
   return r;
}
}
#endif
