/* The platform under the conformance drivers: simulated time, scripted randomness; and the driver main loop. */
#include "vh.h"
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "AbstractPlatform.h"

uint64_t sim_us = 0;
uint64_t sim_rand = 88172645463325252ULL;
uint64_t sim_rand_count = 0;
bool sim_rand_counts = false;     // randomness which counts upwards

__attribute__((weak)) uint32_t randomUInt32() {
  sim_rand_count++;
  if (sim_rand_counts) return (uint32_t) ++sim_rand;
  sim_rand ^= sim_rand << 13; sim_rand ^= sim_rand >> 7; sim_rand ^= sim_rand << 17;
  return (uint32_t) (sim_rand >> 16);
}
__attribute__((weak)) int8_t random_fill(uint8_t* buf, size_t len) {
  for (size_t i = 0; i < len; i++) buf[i] = (uint8_t) randomUInt32();
  return 0;
}
long unsigned micros() { return (long unsigned) (uint32_t) sim_us; }
long unsigned millis() { return (long unsigned) (uint32_t) (sim_us / 1000); }
void sleep_ms(uint32_t ms) { sim_us += 1000ULL * ms; }
void sleep_us(uint32_t us) { sim_us += us; }

static FILE* g_out = nullptr;
static void on_hang(int) {
  static const char m[] = "{\"op\":\"HANG\",\"a\":[],\"d\":[],\"r\":[],\"s\":[]}\n";
  (void) !write(fileno(g_out), m, sizeof(m) - 1);
  _exit(98);
}

static void put(const VI& v) {
  fputc('[', g_out);
  for (size_t i = 0; i < v.size(); i++) fprintf(g_out, i ? ",%lld" : "%lld", v[i]);
  fputc(']', g_out);
}
static void put(const std::vector<VI>& v) {
  fputc('[', g_out);
  for (size_t i = 0; i < v.size(); i++) { if (i) fputc(',', g_out); put(v[i]); }
  fputc(']', g_out);
}

ll vh_overhead = 0;

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* in = fopen(argv[1], "r");
  g_out = fopen(argv[2], "w");
  if (!in || !g_out) return 2;
  static char ib[65536], ob[65536];
  setvbuf(in, ib, _IOFBF, sizeof(ib)); setvbuf(g_out, ob, _IOFBF, sizeof(ob));
  signal(SIGPROF, on_hang);
  size_t cap = 1 << 20; char* line = (char*) malloc(cap);   // fixed: heap readings are compared across operations
  // With VF_FORK set every episode ("new" ...) runs in a process of its own: for code with singletons.
  const bool forking = getenv("VF_FORK") != nullptr;
  bool child = false;
  volatile long* next = forking ? (volatile long*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) : nullptr;
  while (true) {
    const long at = forking ? ftell(in) : 0;
    if (getline(&line, &cap, in) <= 0) break;
    if (forking && 0 == strncmp(line, "new", 3) && (line[3] == ' ' || line[3] == '\n')) {
      if (child) { *next = at; fflush(g_out); _exit(0); }
      fflush(g_out);
      *next = -1;
      const pid_t pid = fork();
      if (pid > 0) {
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 97);
        if (*next < 0) break;
        fseek(in, *next, SEEK_SET);
        continue;
      }
      child = true;
    }
    vh_overhead = 0;
    const ll before = heap_now();
    Op op; char* p = line;
    while (*p == ' ') p++;
    char* q = p;
    while (*q && *q != ' ' && *q != '\n') q++;
    op.name.assign(p, q - p);
    p = q;
    if (op.name.empty()) continue;
    VI* cur = &op.a;
    while (*p && *p != '\n') {
      if (*p == ' ') { p++; continue; }
      if (*p == '|') { op.d.push_back(VI()); cur = &op.d.back(); p++; continue; }
      char* e = nullptr;
      ll v = strtoll(p, &e, 10);
      if (e == p) return 2;
      cur->push_back(v);
      p = e;
    }
    struct itimerval t = {{0, 0}, {20, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
    Ev ev;
    vh_overhead = heap_now() - before;      // what the parsed operation itself occupies
    vh_exec(op, ev);
    fprintf(g_out, "{\"op\":\"%s\",\"a\":", op.name.c_str()); put(op.a);
    fprintf(g_out, ",\"d\":"); put(op.d);
    fprintf(g_out, ",\"r\":"); put(ev.r);
    fprintf(g_out, ",\"s\":"); put(ev.s);
    fprintf(g_out, "}\n");
    fflush(g_out);
  }
  fclose(g_out);
  _exit(0);
}
