/* A process to talk to.
 * emit FILE CODE SEED PAUSE   write FILE in pieces, then exit (CODE >= 1000: signal CODE - 1000)
 * args                        write the arguments and the environment, in hex
 * sink FILE CODE              store stdin in FILE until its end
 */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern char** environ;

static void
hex(char tag, const char* s)
{
  printf("%c", tag);
  for (; *s; s++) {
    printf("%02x", (unsigned char)*s);
  }
  printf("\n");
}

static void
all(int fd, const char* p, size_t n)
{
  while (n > 0) {
    ssize_t k = write(fd, p, n);
    if (k <= 0) {
      exit(77);
    }
    p += k;
    n -= k;
  }
}

int
main(int argc, char** argv)
{
  if (argc > 4 && !strcmp(argv[1], "emit")) {
    FILE* f = fopen(argv[2], "rb");
    static char buf[1 << 22];
    size_t n = fread(buf, 1, sizeof buf, f), o = 0;
    int code = atoi(argv[3]);
    srand(atoi(argv[4]));
    int pause = argc > 5 ? atoi(argv[5]) : 0;
    while (o < n) {
      size_t k = pause ? 1 + rand() % (rand() % 4 ? 3000 : 20) : n - o;
      k = k > n - o ? n - o : k;
      all(1, buf + o, k);
      o += k;
      if (pause) {
        usleep(rand() % pause);
      }
    }
    if (code >= 1000) {
      kill(getpid(), code - 1000);
      pause = 1;
      sleep(5);
    }
    return code;
  }
  if (argc > 1 && !strcmp(argv[1], "args")) {
    for (int i = 1; i < argc; i++) {
      hex('a', argv[i]);
    }
    for (char** e = environ; *e; e++) {
      hex('e', *e);
    }
    return 0;
  }
  if (argc > 3 && !strcmp(argv[1], "sink")) {
    int fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0600);
    static char buf[65536];
    ssize_t k;
    while ((k = read(0, buf, sizeof buf)) > 0) {
      all(fd, buf, k);
    }
    return atoi(argv[3]);
  }
  return 99;
}
