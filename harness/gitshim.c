/*
 * Stand-in for git that counts, records and disturbs git commands. It is put
 * in front of the real git on PATH, and controlled by environment variables:
 *
 *   VS_GIT    the real git
 *   VS_DIR    directory with the files "count" (number of commands so far)
 *             and "log" (the commands); nothing is done, if it is not set
 *   VS_AT     number of the first command that should be disturbed
 *   VS_MODE   fail:  exit with an error (see fail), do not run the command
 *             late:  run the command, then exit with an error
 *             die:   end by a signal, do not run the command
 *             dlate: run the command, then end by a signal
 *             cut:   run the command, deliver half of its output, then end by a signal or
 *                   exit with an error
 *             kill:  kill process VS_PID, do not run the command
 *             klate: run the command, then kill process VS_PID
 *             wait:  create "at.<n>" with the process id, wait until "go.<n>" exists;
 *                   its content may be one of the modes above; create "done.<n>"
 *                   after the process was killed
 *             none
 *   VS_ONLY   disturb commands with this argument only
 *   VS_TIMES  number of commands to be disturbed (default 1, -1: all)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static long next_number(const char *dir, int argc, char **argv)
{
    char path[4096], buf[64] = "0";
    snprintf(path, sizeof path, "%s/count", dir);
    int fd = open(path, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (fd < 0) return -1;
    flock(fd, LOCK_EX);
    ssize_t n = read(fd, buf, sizeof buf - 1);
    if (n > 0) buf[n] = 0;
    long number = atol(buf);
    int len = snprintf(buf, sizeof buf, "%ld\n", number + 1);
    lseek(fd, 0, SEEK_SET);
    if (write(fd, buf, len) != len) return -1;
    snprintf(path, sizeof path, "%s/log", dir);
    FILE *log = fopen(path, "a");
    if (log) {
        fprintf(log, "%ld", number);
        for (int i = 1; i < argc; i++) fprintf(log, "\t%s", argv[i]);
        fputc('\n', log);
        fclose(log);
    }
    close(fd);
    return number;
}

static void note(const char *dir, const char *what, long number)
{
    char path[4096];
    snprintf(path, sizeof path, "%s/%s.%ld", dir, what, number);
    int fd = open(path, O_CREAT | O_WRONLY, 0600);
    if (fd >= 0) {
        dprintf(fd, "%d", (int)getpid());
        close(fd);
    }
}

/*
 * How a failure shows: with different exit codes, with or without a message. For
 * commands that answer a question, only 128 is sure to be a failure.
 */
static int fail(const char *message, long number, int argc, char **argv)
{
    static const char *const names[] = {
        "hash-object", "mktree", "update-ref", "ls-tree", "cat-file", "fetch"};
    static const int codes[] = {128, 1, 255, 128, 2};
    int plain = 0;
    for (int i = 1; i < argc; i++) {
        for (unsigned k = 0; k < sizeof names / sizeof *names; k++)
            if (!strcmp(argv[i], names[k])) plain = 1;
        if (!strcmp(argv[i], "-e")) { plain = 0; break; }
    }
    if (!plain || number % 3) fprintf(stderr, "gitshim: %s\n", message);
    return plain ? codes[number % 5] : 128;
}

static int run(const char *git, char **argv)
{
    pid_t pid = fork();
    if (pid == 0) { execv(git, argv); _exit(127); }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
    return WIFEXITED(status) ? WEXITSTATUS(status) : 128;
}

/* run git, but write only the first half of its output */
static void run_cut(const char *git, char **argv, long number)
{
    int ends[2];
    static char *data;
    size_t size = 0, room = 0;
    if (pipe(ends) < 0) return;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(ends[1], 1);
        close(ends[0]);
        close(ends[1]);
        execv(git, argv);
        _exit(127);
    }
    close(ends[1]);
    for (;;) {
        if (size == room) data = realloc(data, room = 2 * room + 4096);
        ssize_t n = read(ends[0], data + size, room - size);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        size += n;
    }
    while (waitpid(pid, NULL, 0) < 0 && errno == EINTR) ;
    size /= 2;
    /* often, complete lines */
    if (number % 3)
        for (size_t k = size; k > 0; k--) if (data[k - 1] == '\n') { size = k; break; }
    for (size_t done = 0; done < size; ) {
        ssize_t n = write(1, data + done, size - done);
        if (n <= 0) break;
        done += n;
    }
}

int main(int argc, char **argv)
{
    const char *git = getenv("VS_GIT"), *dir = getenv("VS_DIR");
    const char *at = getenv("VS_AT"), *mode = getenv("VS_MODE");
    const char *times = getenv("VS_TIMES"), *pid = getenv("VS_PID");
    if (!git) { fprintf(stderr, "gitshim: VS_GIT is not set\n"); return 127; }
    if (dir) {
        /* commands that git itself starts should not be counted */
        unsetenv("VS_DIR");
        long number = next_number(dir, argc, argv);
        const char *only = getenv("VS_ONLY");
        int meant = !only;
        for (int i = 1; i < argc; i++) if (only && !strcmp(argv[i], only)) meant = 1;
        long first = at ? atol(at) : -1, count = times ? atol(times) : 1;
        if (mode && meant && first >= 0 && number >= first
            && (count < 0 || number < first + count)) {
            if (!strcmp(mode, "wait")) {
                char go[4096];
                struct stat st;
                snprintf(go, sizeof go, "%s/go.%ld", dir, number);
                note(dir, "at", number);
                for (int i = 0; i < 600000 && stat(go, &st) != 0; i++) usleep(200);
                static char text[16];
                FILE *f = fopen(go, "r");
                if (f) {
                    if (fgets(text, sizeof text, f) && *text) mode = text;
                    fclose(f);
                }
            }
            if (!strcmp(mode, "fail")) {
                return fail("failed", number, argc, argv);
            } else if (!strcmp(mode, "late")) {
                run(git, argv);
                return fail("failed late", number, argc, argv);
            } else if (!strcmp(mode, "cut") && number % 2) {
                run_cut(git, argv, number);
                return fail("failed late", number, argc, argv);
            } else if (!strcmp(mode, "cut")) {
                run_cut(git, argv, number);
                signal(SIGTERM, SIG_DFL);
                kill(getpid(), SIGTERM);
                pause();
            } else if (!strcmp(mode, "die") || !strcmp(mode, "dlate")) {
                if (!strcmp(mode, "dlate")) run(git, argv);
                signal(SIGTERM, SIG_DFL);
                kill(getpid(), SIGTERM);
                pause();
            } else if (!strcmp(mode, "kill") && pid) {
                kill(atoi(pid), SIGKILL);
                note(dir, "done", number);
                return 128;
            } else if (!strcmp(mode, "klate") && pid) {
                run(git, argv);
                kill(atoi(pid), SIGKILL);
                note(dir, "done", number);
                return 128;
            }
        }
    }
    execv(git, argv);
    perror("gitshim");
    return 127;
}
