// Shared support for the bounded run-time contract harnesses.
// Every harness is compiled from /repo's current sources, generates inputs
// from VERIF_SEED, and prints
//   FAIL <contract clause> | <input>          for a failing input
//   EVALS <n> NONTRIVIAL <m>                  counts
//   SAMPLE <text>                             a few cases
#pragma once
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace H {
static std::mt19937_64 rng;
static long evals = 0, nontriv = 0, nfail = 0, nsample = 0;
static bool thorough = false;
static char curcase[4096] = "start";
static FILE *out = nullptr;

static void onsig(int s) {
  char b[5000];
  int n = snprintf(b, sizeof b, "FAIL %s | %s\nEVALS %ld NONTRIVIAL %ld\n",
                   s == SIGALRM ? "terminates within the case time limit" : s == SIGABRT ? "no assertion failure or uncaught exception" : "no memory fault or trap",
                   curcase, evals, nontriv);
  if (write(fileno(out), b, n)) {}
  _exit(1);
}
static void init() {
  const char *s = getenv("VERIF_SEED");
  rng.seed(s ? atoll(s) : 1);
  const char *t = getenv("VERIF_TIER");
  thorough = t && !strcmp(t, "thorough");
  out = fdopen(dup(1), "w");
  // library chatter goes to /dev/null
  if (!getenv("H_VERBOSE")) { FILE *f = freopen("/dev/null", "w", stdout); (void)f; }
  for (int g : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGILL, SIGBUS}) signal(g, onsig);
}
// announce a case (input description); limit in seconds
static void kase(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void kase(const char *fmt, ...) {
  va_list a; va_start(a, fmt); vsnprintf(curcase, sizeof curcase, fmt, a); va_end(a);
  alarm(90);
  nontriv++;
  if (nsample < 3) { nsample++; fprintf(out, "SAMPLE %s\n", curcase); }
}
static void fail(const std::string &clause, const std::string &extra = "") {
  if (nfail++ < 6) fprintf(out, "FAIL %s | %s%s%s\n", clause.c_str(), curcase, extra.empty() ? "" : " : ", extra.c_str());
  fflush(out);
  if (nfail >= 6) { fprintf(out, "EVALS %ld NONTRIVIAL %ld\n", evals, nontriv); fflush(out); _exit(1); }
}
static std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static std::string str(const char *fmt, ...) {
  char b[1000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b;
}
static bool ok(bool c, const char *clause, const std::string &extra = "") {
  evals++;
  if (!c) fail(clause, extra);
  return c;
}
// |a-b| <= tol*max(1,scale)
static bool near(double a, double b, double tol, const char *clause, const std::string &extra = "", double scale = 0) {
  evals++;
  double s = std::max(1.0, std::max(scale, std::max(std::fabs(a), std::fabs(b))));
  if (scale < 0) s = std::fabs(scale);
  if (!(std::fabs(a - b) <= tol * s)) { fail(clause, extra + str(" got %.17g expected %.17g", a, b)); return false; }
  return true;
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception &) { return true; } return false; }
static int ri(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
static double rr(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
static bool rb() { return rng() & 1; }
static int finish() {
  alarm(0);
  fprintf(out, "EVALS %ld NONTRIVIAL %ld\n", evals, nontriv);
  fclose(out);
  return nfail ? 1 : 0;
}
// run every case body; an escaping exception is a failure of the case
template <class F> static void guard(F f) {
  try { f(); } catch (const std::exception &e) { fail("no unexpected exception", e.what()); }
}
} // namespace H
