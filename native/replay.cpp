// Runs texts through the real assembler and reports what a user would observe.
// stdin: one case per line, "<f|s|b> <hex> <hex> ..." (f: a new process per text; b: all texts in the same buffer; "-": the empty text)
// stdout: one JSON line per case: [{"kind":..,"code":..,"words":[..],"stderr":hex}, ...]
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <nxas.h>

static std::string unhex(const std::string& h)
{
    std::string r;
    if (h == "-") return r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
    return r;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Out { std::string kind = "none", err; int code = 0; std::vector<uint64_t> words; };

// runs texts[first..] in one process until one of them ends it
static std::vector<Out> go(const std::vector<std::string>& texts, size_t first, size_t last, bool shared)
{
    int res[2], er[2];
    if (pipe(res) || pipe(er)) exit(3);
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0) {
        rlimit core{0, 0};
        setrlimit(RLIMIT_CORE, &core);
        close(res[0]); close(er[0]);
        dup2(er[1], 2);
        const int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        std::string place;
        place.reserve(511);
        for (size_t i = first; i < last; ++i) {
            if (shared) place.assign(texts[i]);
            const std::vector<uint64_t> w = nxas::assemble(shared ? place : texts[i], "vp.s");
            uint64_t n = w.size();
            if (write(res[1], &n, 8) != 8) _exit(9);
            for (uint64_t x : w) if (write(res[1], &x, 8) != 8) _exit(9);
        }
        _exit(0);
    }
    close(res[1]); close(er[1]);
    std::string rb, eb;
    pollfd fds[2] = {{res[0], POLLIN, 0}, {er[0], POLLIN, 0}};
    bool open0 = true, open1 = true, timeout = false;
    const double limit = now() + 20;
    while (open0 || open1) {
        fds[0].fd = open0 ? res[0] : -1; fds[1].fd = open1 ? er[0] : -1;
        poll(fds, 2, 200);
        char buf[65536];
        if (open0 && fds[0].revents) { ssize_t k = read(res[0], buf, sizeof buf); if (k <= 0) open0 = false; else rb.append(buf, k); }
        if (open1 && fds[1].revents) { ssize_t k = read(er[0], buf, sizeof buf); if (k <= 0) open1 = false; else if (eb.size() < 200000) eb.append(buf, k); }
        if (now() > limit) { timeout = true; kill(pid, SIGKILL); break; }
    }
    close(res[0]); close(er[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    std::vector<Out> outs;
    size_t p = 0;
    while (p + 8 <= rb.size()) {
        uint64_t n; memcpy(&n, &rb[p], 8);
        if (p + 8 + 8 * n > rb.size()) break;
        p += 8;
        Out o; o.kind = "ok";
        for (uint64_t i = 0; i < n; ++i, p += 8) { uint64_t x; memcpy(&x, &rb[p], 8); o.words.push_back(x); }
        outs.push_back(o);
    }
    if (outs.size() < last - first) {
        Out o; o.err = eb;
        if (timeout) o.kind = "hang";
        else if (WIFSIGNALED(st)) { o.kind = "signal"; o.code = WTERMSIG(st); }
        else { o.kind = "exit"; o.code = WEXITSTATUS(st); }
        outs.push_back(o);
    } else if (!outs.empty()) outs.back().err = eb;
    return outs;
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string mode, h;
        is >> mode;
        std::vector<std::string> texts;
        while (is >> h) texts.push_back(unhex(h));
        std::vector<Out> outs;
        while (outs.size() < texts.size()) {
            auto r = go(texts, outs.size(), mode == "f" ? outs.size() + 1 : texts.size(), mode == "b");
            outs.insert(outs.end(), r.begin(), r.end());
            if (outs.back().kind != "ok" && outs.back().kind != "exit") break;
        }
        std::string s = "[";
        for (size_t i = 0; i < outs.size(); ++i) {
            char b[64];
            if (i) s += ",";
            s += "{\"kind\":\"" + outs[i].kind + "\",\"code\":" + std::to_string(outs[i].code) + ",\"words\":[";
            for (size_t k = 0; k < outs[i].words.size(); ++k) { snprintf(b, 64, "%s\"%016llx\"", k ? "," : "", (unsigned long long)outs[i].words[k]); s += b; }
            s += "],\"stderr\":\"";
            for (unsigned char c : outs[i].err) { snprintf(b, 64, "%02x", c); s += b; }
            s += "\"}";
        }
        s += "]";
        puts(s.c_str());
        fflush(stdout);
    }
}
