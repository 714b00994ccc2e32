// A program of a job: numbers it, and lets it run, fail or be the last thing
// that happens, as SIM_JOB/plan says. Its name is the program it stands for;
// SIM_JOB/tools says where that is.
//
// plan: "step N fail RC" (does not run), "step N late RC" (runs, but ends with
// RC), "step N half" (stands for programs of the simulation: half of their
// output), "step N kill" and "step N killafter" (the job dies), "step N disk
// SPEC" (faults of its disk, see sim/rust/shim.c).
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/wait.h>
#include <unistd.h>

int main(int argc, char **argv) {
    const char *job = getenv("SIM_JOB"), *tmp = getenv("SIM_TMP"), *seed = getenv("SIM_SEED");
    char path[4096], line[8192], real[4096] = "", act[32] = "", arg[4096] = "";
    const char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
    if (!job) return 127;
    snprintf(path, sizeof path, "%s/steps", job);
    int fd = open(path, O_RDWR | O_CREAT, 0666);
    flock(fd, LOCK_EX);
    char nb[32] = "";
    int n = 0;
    if (read(fd, nb, sizeof nb - 1) > 0) n = atoi(nb);
    n++;
    lseek(fd, 0, SEEK_SET);
    dprintf(fd, "%d\n", n);
    close(fd);
    FILE *f;
    snprintf(path, sizeof path, "%s/tools", job);
    if (!(f = fopen(path, "r"))) return 127;
    while (fgets(line, sizeof line, f)) {
        char *sp = strchr(line, ' ');
        if (!sp) continue;
        *sp = 0;
        if (strcmp(line, name)) continue;
        snprintf(real, sizeof real, "%s", sp + 1);
        real[strcspn(real, "\n")] = 0;
    }
    fclose(f);
    snprintf(path, sizeof path, "%s/plan", job);
    if ((f = fopen(path, "r"))) {
        while (fgets(line, sizeof line, f)) {
            int k;
            char a[32] = "", r[4096] = "";
            if (sscanf(line, "step %d %31s %4095[^\n]", &k, a, r) >= 2 && k == n) {
                strcpy(act, a);
                strcpy(arg, r);
            }
        }
        fclose(f);
    }
    snprintf(path, sizeof path, "%s/log", job);
    fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0666);
    int o = snprintf(line, sizeof line, "step %d %s", n, name);
    for (int i = 1; i < argc && o < (int)sizeof line - 600; i++) o += snprintf(line + o, 500, " %.400s", argv[i]);
    if (*act) o += snprintf(line + o, 500, " => %s %.300s", act, arg);
    line[o++] = '\n';
    if (write(fd, line, o) < 0) return 127;
    close(fd);
    // the job's /tmp
    if (tmp)
        for (int i = 1; i < argc; i++)
            if (!strncmp(argv[i], "/tmp/", 5) && asprintf(&argv[i], "%s%s", tmp, argv[i] + 4) < 0) return 127;
    snprintf(nb, sizeof nb, "%lld", (seed ? atoll(seed) : 1) + 7919ll * n);
    setenv("SIM_SEED", nb, 1);
    unsetenv("SIM_FAULTS");
    unsetenv("SIM_HALF");
    if (!strcmp(act, "fail")) {
        fprintf(stderr, "%s: it failed\n", name);
        return atoi(arg);
    }
    if (!strcmp(act, "kill")) {
        kill(0, SIGKILL);
        pause();
    }
    if (!strcmp(act, "disk")) setenv("SIM_FAULTS", arg, 1);
    if (!strcmp(act, "half")) setenv("SIM_HALF", "1", 1);
    argv[0] = strdup(real);
    int late = !strcmp(act, "late"), after = !strcmp(act, "killafter");
    if (late || after) {
        pid_t p = fork();
        if (p == 0) {
            execv(real, argv);
            _exit(127);
        }
        int st;
        waitpid(p, &st, 0);
        if (after) {
            kill(0, SIGKILL);
            pause();
        }
        fprintf(stderr, "%s: it failed\n", name);
        return atoi(arg);
    }
    execv(real, argv);
    perror(real);
    return 127;
}
