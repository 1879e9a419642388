// Runs one example program on many inputs.  stdin: lines of 128 hexadecimal
// words (64 for g, 64 for e); stdout: 64 words of output per line, or "crash".
// Every input gets a process of its own: the programs keep state in globals.
// With arguments NG NE NO the arrays are heap blocks of exactly these sizes.
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

extern void gc_main(const int *g, const int *e, int *o);

int main(int argc, char **argv) {
  const int N = 64, PAD = 64;
  int *m = (int *) mmap(0, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int *g = m + PAD, *e = g + N + PAD, *o = e + N + PAD;
  const int total = 4 * PAD + 3 * N;
  static int before[1024];
  for (;;) {
    for (int i = 0; i < total; i++) m[i] = 0x5a5a0000 + i;
    for (int i = 0; i < 2 * N; i++) {
      unsigned w;
      if (scanf("%x", &w) != 1) return 0;
      (i < N ? g[i] : e[i - N]) = (int) w;
    }
    memset(o, 0, N * sizeof(int));
    memcpy(before, m, total * sizeof(int));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      alarm(20);
      if (argc == 4) {
        int n[3];
        for (int i = 0; i < 3; i++) n[i] = atoi(argv[i + 1]);
        int *x = (int *) malloc(n[0] * sizeof(int)), *y = (int *) malloc(n[1] * sizeof(int)), *z = (int *) calloc(n[2], sizeof(int));
        memcpy(x, g, n[0] * sizeof(int));
        memcpy(y, e, n[1] * sizeof(int));
        gc_main(x, y, z);
        memcpy(o, z, n[2] * sizeof(int));
      } else {
        gc_main(g, e, o);
      }
      _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    bool touched = false;
    for (int i = 0; i < total; i++)
      if ((m + i < o || m + i >= o + N) && m[i] != before[i]) touched = true;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
      printf(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "timeout" : "crash");
    else if (touched)
      printf("overrun");
    else
      for (int i = 0; i < N; i++) printf(i ? " %08x" : "%08x", (unsigned) o[i]);
    printf("\n");
    fflush(stdout);
  }
}
